"""Switch on torch's NumPy bridge in this sandbox (environment shim, no yuca code).

The pinned torch 2.0.1 wheel was compiled against NumPy C-API feature version
0x10 (NumPy 1.23) while the pinned NumPy 1.22.0 reports 0xf.  Version 0x10
added no C function (it only dropped NonNull attributes from the headers), so
the two are ABI compatible; torch merely refuses to initialise its bridge.
We let NumPy report 0x10 (entry 211 of the _ARRAY_API table), which is all torch asks.
Without it `tensor.numpy()`, `torch.from_numpy` and `torch.tensor(np scalar)`
raise "Numpy is not available" and most of yuca cannot run at all.

Used as sitecustomize (PYTHONPATH=/verif/lib/npbridge) so that subprocesses
(the yuca.evolve CLI, MPI ranks) get it too.
"""


def _enable():
    import ctypes

    try:
        import numpy.core._multiarray_umath as _m
    except Exception:
        return
    getptr = ctypes.pythonapi.PyCapsule_GetPointer
    getptr.restype = ctypes.c_void_p
    getptr.argtypes = [ctypes.py_object, ctypes.c_char_p]
    table = ctypes.cast(getptr(_m._ARRAY_API, None), ctypes.POINTER(ctypes.c_void_p))
    proto = ctypes.CFUNCTYPE(ctypes.c_uint)
    if proto(table[211])() >= 0x10:
        return
    cb = proto(lambda: 0x10)
    _enable.keep = cb
    table[211] = ctypes.cast(cb, ctypes.c_void_p).value


_enable()
