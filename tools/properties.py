#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table (claims every property that has a check)"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, level_note, technique, level="exploration", observe=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=" ".join(text.split()),
                  why=" ".join(why.split()), files=files, mech=mech, note=" ".join(level_note.split()), technique=technique, level=level, observe=observe))


COMMON = "yuca/ca/common.py"
CONT, NEUR, RD = "yuca/ca/continuous.py", "yuca/ca/neural.py", "yuca/ca/reaction_diffusion.py"
LEN, CODE, RSC, META = "yuca/lenia.py", "yuca/code.py", "yuca/random_step_ca.py", "yuca/metaca.py"
ALL = [COMMON, CONT, NEUR, RD, LEN, CODE, RSC, META]
SAMPLES = "The existing tests run a handful of default automata for a step or two and look at shapes or at one value; "

prop("C01", "States stay bounded, finite and well formed, inputs stay untouched",
     """For every automaton kind, rule, channel count, boundary mode, precision and every state with values in [0, 1], each step and each
     displayed frame yields a new state of the same shape, precision and device whose values are finite and within [0, 1]. The state passed in is
     never modified, and the new state never shares memory with it. For rules without memory or randomness, the same state always yields the same new state.""",
     ["inputs", "configurations"], "all kinds of automata, random rules (from configs, initialization, wild parameter vectors), state patterns, shapes, batches, precisions",
     SAMPLES + "boundedness and purity quantify over all rules and states.", ALL,
     [("clamp of the new state", COMMON + ":forward"), ("update rules", CONT + ":update_universe")],
     "Every step and frame of hundreds to thousands of random automata observed at the public call boundary; says nothing about rules and states not driven.",
     "runtime monitor at the step boundary over random automata and states")
prop("C02", "Continuous automata compute the documented update rule",
     """One step of a continuous automaton equals clip(A + dt * ((1 - id) * genesis(N) + id * persistence(N)), 0, 1), where N is the centered neighborhood
     sum under the configured kernel and boundary mode and id the cell's own value (or its sum under the configured identity kernel). Lenia uses
     growth(N) alone; with several channels each internal channel sees its own group of external channels and the internal updates are averaged over
     internal and external channels; with four or more external channels cells whose fourth channel is at or below the alive threshold are emptied first.""",
     ["inputs", "configurations"], "all kernel and growth function families, 1-6 internal and 1-4 external channels, boundary modes, step sizes, identity kernels, states",
     SAMPLES + "no test compares a step with the rule on generated states.", [CONT, LEN, COMMON],
     [("rule", CONT + ":update_universe"), ("neighborhoods", COMMON + ":neighborhood_conv"), ("mask", COMMON + ":alive_mask")],
     "Differential monitor: every observed step against an independent float64 NumPy model; bounded by the sampled configs.",
     "online differential monitor against an independent float64 model")
prop("C03", "Neural automata compute the documented pointwise network",
     """One step of a neural automaton equals clip(A + dt * tanh(W2 f(W1 f(W0 [id, N]))), 0, 1) at every cell, with the weights, activation (and its
     parameters) and neighborhood kernel given by its parameter vector. Hidden units are only dropped while training, at the configured rate: in evaluation mode the step is deterministic.""",
     ["inputs", "configurations"], "channel counts, hidden widths, activations, kernels, boundary modes, random weights, states",
     SAMPLES + "the network is never compared with its weights.", [NEUR, COMMON], [("network", NEUR + ":persistence_helper"), ("weights", NEUR + ":set_params")],
     "Differential monitor against an independent float64 network; dropout judged by statistics over many steps.",
     "online differential monitor against an independent float64 model")
prop("C04", "Reaction-diffusion automata follow Gray-Scott dynamics",
     """One step equals the clipped explicit Euler step of the Gray-Scott equations with the automaton's diffusion rates, feed and kill rates, spatial step, time step and
     Laplacian kernel. New grids start at the nontrivial equilibrium of the reaction where one exists, equilibria stay put, and diffusion alone neither makes nor destroys matter.""",
     ["inputs", "configurations"], "reaction parameters, kernel radii, spatial and time steps, states",
     SAMPLES + "no test checks the equations.", [RD], [("update", RD + ":update_universe"), ("background", RD + ":initialize_grid")],
     "Differential monitor against an independent float64 Gray-Scott step, plus conservation and equilibrium monitors.",
     "online differential, conservation and equilibrium monitors")
prop("C05", "Space has no preferred place, direction or batch position",
     """On a torus, stepping a shifted, quarter-turned, mirrored, transposed or tiled state yields the equally transformed step, for every kind of automaton and rule.
     Samples of a batch evolve independently of each other and of their order (automata with an adaptive step size share that step size across the batch), and a changed cell
     influences only cells within the kernel's reach.""",
     ["inputs", "configurations"], "all kinds, rules, odd and even grid sizes, states, all shifts and symmetries of the square, batch permutations, single changed cells",
     SAMPLES + "these are relations between executions, none of which is tested.", ALL, [("centered convolution with padding", COMMON + ":neighborhood_conv")],
     "Metamorphic monitor relating pairs of executions; every transformation is exact, compared at 1e-9 in float64.",
     "metamorphic relation monitor over paired executions")
prop("C06", "Life-like rules are computed exactly",
     """The configuration built for any birth/survival rule B.../S... evolves binary states exactly as that Life-like automaton on a torus: after each of any number of generations every
     cell is 0 or 1 (up to rounding of the smooth intervals) and equals the integer automaton's cell.""",
     ["inputs", "histories"], "all subsets of 0..8 as birth and survival sets (sampled), binary states, generations",
     SAMPLES + "there are 2^18 rules.", ["yuca/activations.py", "yuca/ca/continuous.py"], [("intervals", "yuca/activations.py:SmoothIntervals")],
     "Differential monitor against an exact integer automaton over sampled rules; every cell of every generation compared.",
     "online differential monitor against an exact integer automaton")
prop("C07", "Adaptive step sizes respect bounds, growth limit and error threshold",
     """An automaton with adaptive step size chooses each step within its bounds and at most twice the previous one, and the new state is one step of exactly that size. A step larger than the
     smallest is only taken if one full and two half steps agree within the relative error threshold, and a smaller one is only taken if the next larger candidate failed it. After a reset the
     same start state yields the same sequence of step sizes and states.""",
     ["inputs", "histories", "configurations"], "rules, states, bounds, thresholds, histories of steps and resets",
     SAMPLES + "the choice depends on history and state.", [CODE], [("step size control", CODE + ":forward")],
     "Online monitor with an independent float64 model evaluating the error criterion at every step.", "online trace monitor with independent model")
prop("C08", "Random step sizes and momentum follow their laws in every history",
     """A random-step automaton draws every step size from [0.05, 0.25], uniformly spread and reproducible from the seed, and its new state is one step of the reported size. A momentum automaton moves by its accumulated
     update (velocity grows by a quarter of each update), starting from rest after a reset or when the grid's shape changes. Simulated time is the sum of the steps taken since the reset.""",
     ["histories", "inputs"], "rules, states, sequences of steps, resets and changes of grid shape",
     SAMPLES + "hidden state across calls is never exercised.", [RSC, META], [("random step", RSC + ":forward"), ("velocity", META + ":forward")],
     "Model with shadow velocity and clock runs next to the real automaton through random histories.", "online trace monitor with shadow model")
prop("C09", "Frames agree with steps; only steps take simulated time",
     """A frame in any display mode shows exactly the state a step would produce, and the neighborhoods, masked state and update shown with it satisfy new = clip(masked + dt * update, 0, 1), are the same in
     all modes, and are the kernel sums and growth of the state. Showing frames takes no simulated time; the clock is the sum of step sizes in effect at each step since the last reset. New grids of any requested shape start empty.""",
     ["inputs", "histories"], "automata, states, sequences of frames, steps, resets and step size changes",
     SAMPLES + "frames and steps are separate code that has to agree.", [COMMON, CONT, NEUR, RD, LEN], [("frames", COMMON + ":get_frame"), ("clock", COMMON + ":forward")],
     "Relation monitor between frames of all modes, the step and an independent model, with a shadow clock.", "online relation monitor with shadow clock")
prop("C10", "Kernels are normalized, centered, symmetric and of documented shape",
     """Every kernel built from a configuration is a non-negative square of side 2r+1 that sums to one, is symmetric under turns and mirrors, and follows the closed form of its family (ring mixture, cosine, annulus, Moore, identity)
     with the given parameters; Laplacian kernels sum to zero with unit absolute sum. Building a kernel changes neither the configuration nor later kernels.""",
     ["configurations"], "all families, radii 1-40, parameters", SAMPLES + "shape parameters are continuous and radii unbounded.", ["yuca/kernels.py", "yuca/activations.py"],
     [("kernels", "yuca/kernels.py:get_kernel")], "Every built kernel compared with an independent closed form.", "invariant and differential monitor over generated kernels")
prop("C11", "Growth functions compute their documented closed forms",
     """Every growth function built from a configuration returns, elementwise for any shape, precision and value of its input (array or tensor), the closed form of its family with the given parameters and mode,
     and leaves its input untouched.""",
     ["inputs", "configurations"], "all families, parameters, modes, inputs inside and far outside [0, 1]", SAMPLES + "only some families are evaluated, at a few points.", ["yuca/activations.py"],
     [("growth functions", "yuca/activations.py")], "Differential monitor against independent closed forms.", "differential monitor over generated functions and inputs")
prop("C12", "A parameter vector round trips and fully determines the rule",
     """Setting a parameter vector and reading it back yields the same vector, and the automaton then behaves as the rule that vector describes, independent of vectors set earlier: setting the first vector again restores
     the first behaviour. Neither the vector passed in nor the one returned stays tied to the automaton.""",
     ["inputs", "histories", "configurations"], "all kinds, channels, rules, histories of vectors", SAMPLES + "evolution relies on it for every genome.",
     [CONT, NEUR, RD, LEN, CODE, RSC, META], [("parameters", CONT + ":set_params"), ("parameters", CONT + ":get_params")],
     "Twin execution and independent model after every vector of a random history.", "differential monitor with twin executions and model")
prop("C13", "A saved configuration restores the automaton that saved it",
     """Saving an automaton's configuration and restoring it in any automaton of the same kind, fresh or used, yields an automaton that evolves every state as the original did, with the same parameters, step size, radius,
     channels and boundary mode; also from a copy of the copy. Saving changes nothing, and a saved or returned configuration does not follow later changes.""",
     ["configurations", "histories", "inputs"], "all kinds, channels, rules, histories of changes before saving, states", SAMPLES + "round trips of modified automata are never compared.",
     ALL, [("saving", CONT + ":make_config"), ("loading", CONT + ":load_config")], "Evolution before and after each round trip compared.", "round-trip monitor over random histories")
prop("C14", "Loading a configuration depends on nothing but the configuration",
     """Two automata of one kind that load the same configuration evolve identically, whatever they were before; values the configuration omits take their defaults. Loading, and using or changing the automaton afterwards, never modifies the
     caller's configuration nor another automaton loaded from it.""",
     ["histories", "configurations"], "all kinds, pairs of histories, configurations with and without optional entries, by dictionary or file", SAMPLES + "stale state and aliasing only show across several loads.",
     ALL, [("loading", CONT + ":load_config")], "Pairs of automata with different histories compared, with deep comparison of the caller's configuration.", "non-interference monitor over paired histories")
prop("C15", "Changes of settings take effect at once, in any order, and survive each other",
     """After any sequence of changes of radius, kernel, step size, parameters and spatial step, interleaved with steps, frames, resets, device moves and configuration round trips, the next step is the one
     of the rule with exactly the current settings, and the getters report them.""",
     ["histories"], "operation sequences on all kinds", SAMPLES + "sequences of operations are not tested.", [COMMON, CONT, NEUR, RD, LEN],
     [("setters", COMMON + ":set_kernel_radius"), ("setters", COMMON + ":set_kernel_config")], "Plain-number model next to the automaton through random operation sequences.", "model-based online monitor of operation sequences")
prop("C16", "Shipped rules restore as written, shipped patterns live and travel",
     """Every shipped configuration restores by name from any working directory as the rule written in its file, and every shipped pattern comes with a shipped configuration. Known gliders, in any orientation at any place on the torus, keep their mass
     within bounds and travel for the documented number of steps.""",
     ["inputs", "configurations"], "all shipped files; placements and orientations", SAMPLES + "nobody checks that the zoo still works.", ["ca_configs", "yuca/zoo", "yuca/patterns.py", CONT, NEUR, RD],
     [("lookup", CONT + ":restore_config"), ("zoo", "yuca/zoo/librarian.py:load")], "All shipped files are run; placements are sampled.", "differential and trajectory monitors over all shipped rules and patterns")

prop("C17", "The pattern library returns what was stored and never overwrites",
     """Every pattern stored in a library is loaded again with exactly its values, shape, precision and metadata, whatever its name and metadata contain, by the same or a later opened library. Storing adds exactly one pattern
     under a name of its own and leaves every other file as it was; the index lists exactly the stored patterns; crops are windows of the stored pattern.""",
     ["inputs", "histories"], "names, arrays, metadata with separators and line breaks, histories of stores, loads, reopening and foreign files", SAMPLES + "one pattern is stored and loaded back.",
     ["yuca/zoo/librarian.py"], [("store", "yuca/zoo/librarian.py:store"), ("load", "yuca/zoo/librarian.py:load"), ("index", "yuca/zoo/librarian.py:update_index")],
     "Dictionary model next to a real library through random histories; one process at a time.", "model-based online monitor with file snapshots", observe=["public calls of the package", "files of the library"])
prop("C18", "A store cut short leaves the pattern library whole",
     """If storing a pattern is cut short at any point, by a kill or by a write error, all patterns stored before remain listed and unchanged, every listed pattern loads completely with its metadata, and the interrupted
     store has either happened or not happened. Storing again afterwards adds exactly one pattern.""",
     ["crash_points", "histories"], "kills at every executed line and written byte, write errors", SAMPLES + "no test interrupts anything.", ["yuca/zoo/librarian.py"],
     [("store", "yuca/zoo/librarian.py:store"), ("index", "yuca/zoo/librarian.py:update_index")],
     "Every line and a sweep of every byte written during a store in a child process; process crashes, not power loss.", "fault injection (kill and write error at each point) with recovery monitor", level="fault_enumeration", observe=["files of the library after each fault"])
prop("C19", "Evolution selects the fittest and samples around them",
     """After every generation the elites are the best members by fitness, best first, none twice, as the selection mode prescribes, without changing the population or the fitness list. The mean of the search becomes the mean of the elites and its covariance their
     covariance around the previous mean; the next population has the configured size, keeps the elites, and is otherwise drawn independently from that distribution. A search starts at the automaton's own parameters, a resumed one at the logged elites.""",
     ["inputs", "histories", "configurations"], "population sizes, selection modes, fitness values with ties and extremes, agents, generations", SAMPLES + "no test compares elites, means or covariances with the fitness values.",
     ["yuca/cmaes.py", "yuca/evolve.py"], [("selection", "yuca/cmaes.py:rank_population"), ("distribution", "yuca/cmaes.py:update_population"), ("start", "yuca/cmaes.py:initialize_population")],
     "Independent model of selection, mean and covariance; samples judged by statistics at thresholds far beyond chance.", "model-based and statistical runtime monitors")
prop("C20", "Fitness depends only on the genome and the seed",
     """The fitness of a genome is a finite number fixed by the genome, the seed and the settings of the search: measuring it again, after evaluating other genomes, at another place in the population, after saving results or updating the population,
     or in another process gives the same value. Measuring changes neither the genome nor the settings.""",
     ["inputs", "histories", "configurations"], "automata, wrappers, agents, genomes, interleavings of evaluations and other operations", SAMPLES + "no test evaluates anything twice.",
     ["yuca/cmaes.py", "yuca/evolve.py", "yuca/wrappers/halting_wrapper.py", "yuca/wrappers/glider_wrapper.py", CONT], [("measurement", "yuca/cmaes.py:get_fitness"), ("rewards", "yuca/wrappers/halting_wrapper.py:step")],
     "Repeated measurements within and across searches and processes compared.", "non-interference monitor over repeated measurements")
prop("C21", "The record of an evolution run is what happened, and reproducible",
     """Every generation measures each member once, all with the same seeds; the log has one entry per generation whose statistics and elites are those of the fitness values measured then, is complete on disk after every generation, and records the arguments, command and version.
     Saved configurations are the best genomes of the last generation and are as fit as logged. Repeating a run, or any one of its seeds, gives the same log.""",
     ["histories", "configurations"], "automata, wrappers, agents, seeds, generations, selection modes, the Python call and the command line", SAMPLES + "tests only check that a run ends.",
     ["yuca/evolve.py", "yuca/cmaes.py", "yuca/wrappers/random_wrapper.py"], [("log", "yuca/cmaes.py:mantle"), ("configs", "yuca/cmaes.py:get_elite_configs"), ("command line", "yuca/evolve.py")],
     "Complete small searches observed at the measurement boundary and compared with their logs and repeats.", "offline monitor comparing recorded measurements with logs, plus repeat runs", observe=["fitness measurements", "log and config files"])
prop("C22", "Parallel evolution evaluates each genome once and credits it rightly",
     """With any number of worker processes and any delays, every genome of every generation is evaluated exactly once, with the generation's seed, and its result is credited to that genome, so that the fitness values are those any single process would measure.
     Every process ends, and exactly one log and one set of configurations is written.""",
     ["schedules", "histories", "configurations"], "2-5 processes, more or fewer than genomes, delayed workers, wrappers", SAMPLES + "no test runs a parallel search.",
     ["yuca/evolve.py", "yuca/cmaes.py"], [("workers", "yuca/cmaes.py:mantle"), ("worker loop", "yuca/cmaes.py:arm"), ("start", "yuca/cmaes.py:mpi_fork")],
     "Complete searches by real MPI processes with injected delays; merged per-process records checked for exactly-once and attribution. Crashing processes are out of scope.",
     "offline exactly-once and attribution checker over merged logs of real MPI runs", observe=["fitness measurements in every process", "log and config files"])
prop("C23", "Halting rewards measure how many patterns die, or how hard that is to guess",
     """The simple halting reward is minus the distance of the surviving share of patterns from one half; the learned one is minus the share of outcomes its predictor guessed right, made on the starting patterns, with the predictor trained on outcomes of other evolutions, which move its guesses towards them.
     Every evolution runs a fresh batch of patterns in the middle half of the world for the configured number of steps, or until nothing is left.""",
     ["inputs", "histories", "configurations"], "automata, batch sizes, steps, scripted deaths, predictors", SAMPLES + "rewards are never compared with the states.",
     ["yuca/wrappers/halting_wrapper.py", "yuca/step_predictor.py"], [("reward", "yuca/wrappers/halting_wrapper.py:step"), ("training", "yuca/wrappers/halting_wrapper.py:train")],
     "Rewards recomputed from recorded states of real and scripted automata.", "online differential monitor over recorded and scripted evolutions")
prop("C24", "Glider rewards measure steady travel",
     """The reward of an evolved pattern is the distance its center of mass travelled on the torus minus its growth, in the documented units, computed from the states of one evolution that begins with the pattern given and ends when it vanished, froze or reached the step limit.
     A pattern that moves steadily is rewarded by its distance wherever it starts and whichever edge it crosses; the pattern given is not changed.""",
     ["inputs", "histories"], "automata, patterns, scripted motions, growth, deaths", SAMPLES + "rewards are never compared with motion.", ["yuca/wrappers/glider_wrapper.py"],
     [("reward", "yuca/wrappers/glider_wrapper.py:meta_step")], "Rewards recomputed in float64 from recorded states; scripted motions of known distance. Worlds smaller than four kernel radii are not driven.", "online differential monitor over recorded and scripted evolutions")
prop("C25", "A genome determines its pattern and rule completely",
     """A genome given to an agent is returned unchanged and fixes its pattern and rule: the pattern is that of the network the genome describes evaluated at every cell, the rule part is exactly the genome's share, and neither depends on earlier genomes, other agents or being asked twice.
     Random and filtered genomes stay within their documented ranges.""",
     ["inputs", "histories", "configurations"], "pattern, rule and combined agents, sizes, widths, channels, genomes", SAMPLES + "only shapes are checked.", ["yuca/cppn.py", "yuca/params_agent.py"],
     [("pattern", "yuca/cppn.py:get_action"), ("genome", "yuca/cppn.py:set_params"), ("rule", "yuca/params_agent.py:get_action")], "Float64 network model and twin agents.", "online differential monitor with twin executions")
prop("C26", "Entropies are those of the quantized states",
     """The entropy of a grid, of every window of it, and of cells given their neighbors equals the Shannon entropy in bits of the values quantized to the configured number of levels, computed independently, for every grid; it is therefore zero for constant grids, never above the maximum, unchanged by
     shifting the grid, and never increased by conditioning. Measuring leaves the grid unchanged.""",
     ["inputs"], "grids, levels, sizes, windows, batches", SAMPLES + "one value is checked.", ["yuca/analyze.py"], [("entropies", "yuca/analyze.py:get_grid_entropy")],
     "Differential against counting; values at quantization boundaries left to rounding.", "differential and metamorphic monitors")
prop("C27", "An analysis reports what became of the patterns it followed",
     """Mortality, fertility, last steps, entropies and autocorrelations reported by an analysis are those of the states the automaton went through, one entry per step until the end or until nothing is left. Analyzing a directory gives every configuration, and nothing else, a result of its own that is that of its rule, and leaves the directory as it was.""",
     ["inputs", "histories", "configurations"], "automata, batch sizes, step numbers, scripted deaths and escapes, directories, the command line", SAMPLES + "no reported number is checked.", ["yuca/analyze.py"],
     [("series", "yuca/analyze.py:analyze_universe"), ("directories", "yuca/analyze.py:analyze_multiverse")], "All series recomputed from recorded states. Single-channel worlds.", "online differential monitor over recorded evolutions", observe=["states at the step boundary", "result files"])
prop("C28", "Masks, apertures and training batches have the documented geometry",
     """A bite mask removes exactly the disc of the given radius and place (a random one inside the image if none is given) through all channels, an aperture keeps exactly the disc in the middle, for images of every size and shape. A prepared batch consists of the image with one bite and bounded noise per sample, further channels empty, and is repeated by seeding; targets equal the image,
     which is never changed.""",
     ["inputs", "configurations"], "image sizes, channels, radii, places, noise levels, batch sizes", SAMPLES + "one size is checked.", ["yuca/utils.py"],
     [("masks", "yuca/utils.py:get_bite_mask"), ("batches", "yuca/utils.py:prep_input")], "Every pixel of every generated mask and batch compared with the geometry.", "differential monitor over generated images")
prop("C29", "An animation shows the run of the automaton, state by state",
     """An animation has one frame per displayed state, in order, beginning with the state given, each showing the state the automaton reached by the given number of steps per frame in the documented colours, and ends early only when the state has vanished. It is written to its own file under its tag; frames of earlier animations never appear, no frame files are left, and the state given is unchanged.""",
     ["inputs", "histories", "configurations"], "automata, lengths, speeds, channels, colour maps, leftovers of interrupted animations", SAMPLES + "no frame is looked at.", ["yuca/utils.py"],
     [("frames", "yuca/utils.py:save_fig_sequence"), ("file", "yuca/utils.py:make_gif")], "Written files are decoded and compared with an independent run; palette tolerance of 12 of 255 levels.", "offline trace monitor decoding written animations", observe=["written animation files"])
prop("C30", "Cloning saves the best network it found",
     """The network saved by cloning an automaton is the one with the lowest error of all networks whose error was measured in that session, the error being that on the update of the automaton to be cloned, and training goes on until the threshold is met or all steps are done. The file restores in a new network of that size. Every automaton cloned in one call gets
     its own file.""",
     ["histories", "configurations"], "automata, widths, thresholds, iterations, steps, the Python call and the command line", SAMPLES + "one test checks that a file exists (and needs a GPU).", ["yuca/clone.py", NEUR],
     [("training", "yuca/clone.py:clone_from_ca")], "All networks measured in short sessions recorded and compared with the saved one.", "offline monitor over recorded training sessions", observe=["update calls of both automata", "saved files"])
prop("C31", "Outcome predictors answer, train and are saved as they are",
     """A predictor's answer is that of its documented network with its weights, the same on every evaluation; its evaluation is the mean squared error per sample without hidden units dropped, and changes nothing. Training on any data, with or without validation, moves every layer
     towards the targets and no other predictor. The network and progress on disk are those of the last training and restore to the same answers, and the command reports their errors on the data trained on, the first tenth held back from it, and the test data.""",
     ["inputs", "histories", "configurations"], "layers, radii, channels, dropout, data sets, epochs, validation or none, the Python call and the command line", SAMPLES + "a test only checks that training runs.", ["yuca/step_predictor.py"],
     [("network", "yuca/step_predictor.py:forward"), ("training", "yuca/step_predictor.py:fit"), ("report", "yuca/step_predictor.py:end_evaluate")],
     "Answers and losses recomputed by an independent float64 network from the weights before, during and after training.", "differential runtime monitor over generated training sessions", observe=["public calls of the package", "saved networks and logs"])
prop("C32", "Freezing, gradients and saved weights of automata",
     """A frozen automaton, as all are until unfrozen, tracks no gradients whatever it went through, and evolves exactly as an unfrozen one. The gradients of an unfrozen neural automaton are the derivatives of its step. Weights saved from an automaton and restored in another one of the same configuration, whatever its weights were, make it evolve the same without staying tied to the first.""",
     ["inputs", "histories", "configurations"], "kinds, rules, channel counts, activations, weights", SAMPLES + "no test looks at gradients or restored weights.", [NEUR, CONT, COMMON],
     [("freezing", NEUR + ":no_grad"), ("unfreezing", NEUR + ":yes_grad"), ("weights", CONT + ":include_parameters")],
     "Frozen and restored twins compared; gradients compared with central differences in double precision. Reaction-diffusion automata are only checked for freezing.", "twin-execution and numerical-derivative monitors")
prop("C33", "An interrupted search leaves a complete log of its generations",
     """If an evolution run is cut short at any point, by a kill or by a write error, the log of every seed on disk is readable and holds exactly the generations completed, each with its statistics and configurations, as the same run without interruption would have logged them.""",
     ["crash_points", "histories"], "kills at executed lines, written bytes and times, write errors", SAMPLES + "no test interrupts anything.", ["yuca/cmaes.py"], [("log", "yuca/cmaes.py:mantle")],
     "Each distinct line (sampled occurrence), a sweep of written bytes and times, in child processes; process crashes, not power loss; searches in one process.", "fault injection (kill and write error) with recovery monitor against an uninterrupted twin run", level="fault_enumeration", observe=["log files after each fault"])

prop("C34", "Every option of the evolution command reaches the search it starts",
     """The evolution entry point, from the command line or from Python, starts exactly the search asked for: the kind of search the tag names, with the automaton, reward, agents, sizes, seeds, precision, saved rule and earlier elites of the options, and the documented
     defaults for what is left out. Names that do not exist start no search, and the record of the command keeps every option with its values.""",
     ["inputs", "configurations"], "tags, kinds of automata and rewards, all options, long and short flags, configs and logs to start from", SAMPLES + "options are never compared with the search they start.",
     ["yuca/evolve.py", "yuca/cmaes.py", "yuca/wrappers"], [("dispatch", "yuca/evolve.py:evolve"), ("command line", "yuca/evolve.py:__main__")],
     "Searches are stopped at their first instruction and inspected. The step size option, which no automaton uses, is a known finding.", "online monitor of the searches started, against their options", observe=["search objects at the start of the search"])
prop("C35", "Figures show the data they are given",
     """The figures of an evolution log show, for every elite of the last generation and each of its channels, both growth functions as they are, and the logged mean, maximum and minimum fitness under their names with a band of one standard deviation around the mean. Figures of states, neighborhoods, updates, kernels and growth functions contain exactly
     the values given.""",
     ["inputs"], "logs of all lengths, rules, states, kernels, growth functions, the Python calls and the command line", "No test looks at a figure.", ["yuca/plot.py", "yuca/utils.py"],
     [("log figures", "yuca/plot.py:plot_exp"), ("state figures", "yuca/utils.py:plot_grid_nbhd"), ("kernel figures", "yuca/utils.py:plot_kernel_growth")],
     "Contents of the figures (curves, bands, images, titles) compared with the data; how they are drawn is not judged. Logs of continuous automata.", "offline monitor over the contents of figures", observe=["matplotlib figures"])
prop("C36", "The demo app shows each pattern of the library under its own rule",
     """Whatever buttons were clicked before, going to the next or previous pattern of the demo app, or resetting it, shows that pattern of the library unchanged in the middle of an otherwise empty world, with its name, rule, entry point and commit; going round passes over those whose commit is "none" and loses none. Every update then shows exactly the next state
     under that pattern's rule, alone, and the number of updates since. Run and pause start and stop one timer; faster and slower halve and double its period, from 128 to 8192 ms.""",
     ["inputs", "histories"], "sequences of clicks and ticks, the shipped library and made-up ones with made-up rules, patterns of up to 90 cells", SAMPLES + "no test starts the app.",
     ["gecco_bokeh_app/main.py", "yuca/zoo/librarian.py"], [("browsing", "gecco_bokeh_app/main.py:reset_next_pattern"), ("evolution", "gecco_bokeh_app/main.py:update"), ("timer", "gecco_bokeh_app/main.py:go")],
     "Headless sessions driven through the document (buttons, timers), no browser. Neural and reaction-diffusion patterns and those larger than the world are known findings.", "online monitor of app sessions against a session model and a fresh automaton", observe=["the app's bokeh document"])


def main():
    props, checks, na = [], [], []
    for p in P:
        built = os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py"))
        row = {"id": p["id"], "title": p["title"], "statement": p["statement"],
               "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
               "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                           "observe_at": p["observe"] or ["public calls of the package"], "hook_needed": None}}
        assert len(row["title"]) <= 80, row["title"]
        props.append(row)
        if built:
            checks.append({"property": p["id"], "quick_cmd": f"bash run.sh {p['id']} quick", "thorough_cmd": f"bash run.sh {p['id']} thorough",
                           "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": "check not built yet"})
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for r in props:
            f.write(json.dumps(r) + "\n")
    m = {"version": 1, "setup_cmd": "mkdir -p evidence && /opt/venv/bin/python -c 'import torch, numpy, scipy'", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: all monitors observe public calls, files and processes from outside. /repo has only fix: commits."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(props), "properties,", len(checks), "checks")


main()
