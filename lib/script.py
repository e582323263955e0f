"""Automata that record what they are asked to do, or follow a script."""
import torch


def recording(cls):
    """a subclass of a real automaton that records every step"""
    class Recording(cls):
        def forward(self, x):
            y = super().forward(x)
            t = self.__dict__.setdefault("tape", [])
            t.append((x.detach().clone(), y.detach().clone()))
            return y

        def reset(self):
            self.__dict__["resets"] = self.__dict__.get("resets", 0) + 1
            return super().reset()
    Recording.__name__ = cls.__name__
    return Recording


def scripted(base, script):
    """an automaton (otherwise like base) whose step t is script(t, x), t counted from the last fresh state"""
    class Scripted(base):
        def forward(self, x):
            t = self.__dict__.setdefault("tape", [])
            fresh = not t or not (t[-1][1].shape == x.shape and torch.equal(t[-1][1], x))
            self.__dict__["clock"] = 0 if fresh else self.__dict__["clock"] + 1
            if fresh:
                self.__dict__["start"] = x.detach().clone()
                self.__dict__["runs"] = self.__dict__.get("runs", 0) + 1
            with torch.no_grad():
                y = script(self, self.__dict__["clock"], x)
            t.append((x.detach().clone(), y.detach().clone()))
            return y

        def reset(self):
            self.__dict__["resets"] = self.__dict__.get("resets", 0) + 1
            return super().reset()
    Scripted.__name__ = base.__name__
    return Scripted


def rollouts(tape):
    """the recorded steps, as separate evolutions: lists of states"""
    out = []
    for x, y in tape:
        if out and out[-1][-1].shape == x.shape and torch.equal(out[-1][-1], x):
            out[-1].append(y)
        else:
            out.append([x, y])
    return out
