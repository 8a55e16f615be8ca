"""property -> (engine, (quick cases, thorough cases))"""
K_RULE = "one case = one program (component scripts, main program with run slices, injected faults) drawn from the seed; non-trivial = at least 8 observable events"
K_MEASURE = "64-bit hash of the whole observable event sequence (who, what, outcome, simulated time)"
K_REAL = ["salabim.py: Environment, Component, Resource, State, Store, Queue, Monitor, greenlet switching / generators (all real, unmodified)"]
K_STUB = ["none inside salabim; the model's processes are op scripts interpreted on the public API"]


def k(**kw):
    return dict(rule=K_RULE, measure=K_MEASURE, real=K_REAL, stub=K_STUB, assumptions=["durations are multiples of 1/4, so that all time arithmetic is exact", "the reference model sim/kmodel.py is the specification"], **kw)


PROPS = {}
for _p, _q in dict(C01=30000, C02=30000, C03=30000, C04=30000, C05=30000, C06=30000, C07=30000, C08=30000, C09=30000, C10=30000, C11=30000, C12=30000, C13=30000, C14=30000, C15=30000, C19=30000, C20=30000, C23=30000, C25=30000, C26=30000).items():
    PROPS[_p] = ("kernel", (_q, _q * 20), k())
PROPS["C27"] = ("mix:observe=1,kernel=2,monitors=1", (16000, 320000), k())
PROPS["C33"] = ("trace", (16000, 320000), k(technique="the trace replayed against the observed history, which is compared with an executable reference model"))
PROPS["C32"] = ("units", (24000, 480000), k(technique="refinement against an executable reference model that knows numbers only"))
PROPS["C23"] = ("mix:kernel=4,units=1,gens@C24=1", (30000, 600000), k())
PROPS["C21"] = ("both", (16000, 320000), k())

M = dict(
    rule="one case = processes that tally, switch, reset, read, slice, merge, map and freeze monitors at simulated moments drawn from the seed; non-trivial = at least 6 operations",
    measure="64-bit hash of the executed (simulated time, operation, monitor) sequence",
    real=["salabim.py: Environment, Component, Monitor (all real, unmodified)"],
    stub=["none"],
    assumptions=["times and values are multiples of 1/4, comparisons of computed statistics with relative tolerance 1e-8"],
    technique="recorded history replayed by an exact step-function model",
)
for _p in ("C16", "C17", "C18"):
    PROPS[_p] = ("monitors", (24000, 480000), M)
PROPS["C35"] = (
    "monitors",
    (24000, 480000),
    dict(
        M,
        rule="one case = processes that tally, switch, reset, slice, merge and map monitors at simulated moments drawn from the seed, and ask for reports in between (percentiles, bins, value counts, printed statistics and histograms with drawn options); non-trivial = at least 6 operations",
        technique="numbers parsed from the reports, compared with those computed from the recorded history",
    ),
)

PROPS["C24"] = (
    "gens",
    (16000, 320000),
    dict(
        rule="one case = one to three generators of random kind and parameters, made at random moments, with clock resets, cancels, interrupts and run slices; non-trivial = at least 2 components generated",
        measure="64-bit hash of the control history and the generated components with their times",
        real=["salabim.py: Environment, ComponentGenerator, Component, Pdf, Constant (all real, unmodified)"],
        stub=["none"],
        assumptions=["times are multiples of 1/16; random spread is judged by number, bounds and forced ends"],
        technique="moments computed by a closed-form specification from the parameters",
    ),
)
PROPS["C29"] = (
    "periods",
    (16000, 320000),
    dict(
        rule="one case = one or two monitors with one to three period partitions created and removed at random moments under random tallies, resets and switching; non-trivial = at least one partition and 6 operations",
        measure="64-bit hash of the executed (simulated time, operation) sequence",
        real=["salabim.py: Environment, PeriodMonitor, Monitor, Component (all real, unmodified)"],
        stub=["none"],
        assumptions=["non level values are not tallied exactly on a period boundary"],
        technique="recorded history replayed by an exact partition model",
    ),
)
PROPS["C31"] = (
    "dists",
    (24000, 480000),
    dict(
        rule="one case = one to five distributions (nested, bounded, mapped, combined, with time units) over one to four streams, sampled by one to three processes; non-trivial = at least 3 samples",
        measure="64-bit hash of the executed (operation, distribution, simulated time) sequence",
        real=["salabim.py: all distributions, Environment, Component (all real, unmodified); random.Random (real)"],
        stub=["random streams whose first outputs are chosen (0, 1-2**-53, exact cumulative boundaries, ...), then an ordinary generator"],
        assumptions=["the stream methods of Python's random module are right", "where a stream output is exactly a cumulative boundary, the values of both sides are accepted"],
        technique="samples compared with a reference that draws from a twin stream",
    ),
)
PROPS["C30"] = (
    "blocks",
    (16000, 320000),
    dict(
        rule="one case = a process with nested blocks that it is suspended in, processes and a main program with nested blocks, exceptions and output errors at drawn points; non-trivial = at least 4 observations",
        measure="64-bit hash of the sequence of (event, simulated time) at which the settings were compared",
        real=["salabim.py: suppress_trace, capture_stdout, redirect_stdout, cap_now, over3d, Environment, Component, Queue, animation objects (all real, unmodified)"],
        stub=["sys.stdout, redirect files (in memory, flush fails where drawn)"],
        assumptions=["blocks of different processes are nested in time"],
        technique="settings, their effects and the output compared with a stack model at every step",
    ),
)
PROPS["C28"] = (
    "anim",
    (10000, 200000),
    dict(
        rule="one case = a model program run animated under a simulated window system and wall clock, with stalls, clock jumps and user actions at drawn frames, or as a blind video; non-trivial = at least 8 observable events",
        measure=K_MEASURE,
        real=K_REAL + ["salabim.py: animation loop, animation objects, PIL drawing (real)"],
        stub=["tkinter and PIL.ImageTk (in memory window system that delivers the user actions)", "time.time, time.sleep (simulated clock)"],
        assumptions=["no process ends with an exception while animated (tkinter itself reports and swallows exceptions in callbacks)", "a blind video maker is a process of the model: it counts as an event for standby processes and for run() without an end"],
        technique="history compared with the unanimated reference model, simulated time with the integral of speed over the wall clock",
    ),
)
PROPS["C22"] = (
    "determ",
    (4000, 80000),
    dict(
        rule="one case = one stochastic model program run undisturbed, again, with other environments, collections and streams at drawn points, and in a process with another hash seed; non-trivial = at least 8 observable events",
        measure=K_MEASURE,
        real=K_REAL + ["salabim.py: distributions, ComponentGenerator, PeriodMonitor, print_info/statistics/histograms, trace (real)"],
        stub=["none"],
        assumptions=["other environments leave the default stream alone: Environment() seeds that stream by definition"],
        technique="all observations of the disturbed runs compared with those of the undisturbed run",
    ),
)
PROPS["C34"] = (
    "names",
    (16000, 320000),
    dict(
        rule="one case = processes of two environments and a main program that make, rename and register objects of all kinds at drawn moments; non-trivial = at least 6 operations",
        measure="64-bit hash of the sequence of operations and the kinds and names of all objects",
        real=["salabim.py: Environment, Component, ComponentGenerator, Queue, Store, Resource, State, Monitor (all real, unmodified)"],
        stub=["none"],
        assumptions=["a registry holds objects of one kind"],
        technique="names and registries compared with a counter model after every step",
    ),
)

PROPS["C36"] = (
    "traject",
    (16000, 320000),
    dict(
        rule="one case = one to three moving components that make a trajectory (polygon, spline, circle, standstill, and nested merges of these, some parts shared) at simulated moments drawn from the seed and follow it, while an observer asks for positions, angles and lengths of all of them at these and other moments; non-trivial = at least one trajectory",
        measure="64-bit hash of the executed (simulated time, made or arrived, mover) sequence",
        real=["salabim.py: Environment, Component, all trajectories (all real, unmodified)"],
        stub=["none; drawing is left out"],
        assumptions=["positions are compared with tolerance 1e-5, at a jump or corner the value on either side is accepted"],
        technique="kinematics computed independently from the specification of the trajectory",
    ),
)

PROPS["C37"] = (
    "items",
    (16000, 320000),
    dict(
        rule="one case = one to three item files (words, numbers, quoted items, comments in all places), on a simulated disk or given as text, read item by item as text, int, float or bool by one to three processes at simulated moments, some sharing a file; non-trivial = more than two items read",
        measure="64-bit hash of the executed (simulated time, reader, file, kind, result) sequence",
        real=["salabim.py: Environment, Component, ItemFile (all real, unmodified)"],
        stub=["the disk behind open(): bytes arrive in pieces of any size, and reading may fail at any offset"],
        assumptions=["what a file gives after a read error is not judged", "nested or unbalanced quotes, and quotes next to other text, are not generated, as the documentation does not define them"],
        technique="the items that were written are known, as the file is rendered from them",
    ),
)

PROPS["C38"] = (
    "printed",
    (16000, 320000),
    dict(
        rule="one case = a program of the kernel engine (processes with resources, states, stores, queues, clock resets, exceptions); after every step the printed information of one component and one other object is parsed, in turn the statistics and histograms too; non-trivial = the process steps of the kernel engine",
        measure="64-bit hash of the executed (simulated time, component, step) sequence",
        real=["salabim.py: Environment, Component, Event, Resource, State, Store, Queue, print_info/print_statistics/print_histograms (all real, unmodified)"],
        stub=["none"],
        assumptions=["the layout is not judged: lines are read as name, keyword and value"],
        technique="text parsed and compared with the state, which is compared with the reference model",
    ),
)
