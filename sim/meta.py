"""Per-property settings of the checks."""
REAL = [
    "every quantfinlib module, compiled from /repo's working tree", "numpy, pandas, scipy, scikit-learn, joblib's Parallel/batching/retrieval code",
    "CPython threads, generators, logging, pickle",
]
STUB = [
    "thread scheduling (one runnable thread at a time, switches chosen by the seeded scheduler at library lines or instructions)",
    "threading.Lock/RLock (same semantics, waiting goes through the scheduler)", "time.sleep, CLOCK_REALTIME and CLOCK_MONOTONIC (virtual)",
    "kernel entropy (seeded stream)", "joblib worker pools and concurrent.futures executors (simulated pool)", "core count",
]
_A = ["library code runs under CPython with the GIL; preemption points are library lines or instructions"]
_N = "Seeded search, not exhaustive: no violation in the runs recorded in the evidence file. Trusts CPython, NumPy, pandas, SciPy and the simulator; the oracle is the same library code run alone in a fresh process, so it decides independence from schedule, history, faults and environment, not numerical correctness."


def m(quick, thorough, rule, how, level="exploration", assumptions=None, note=_N):
    return {"runs": {"quick": quick, "thorough": thorough}, "rule": rule, "how": how, "note": note, "real": REAL, "stub": STUB, "level": level, "assumptions": (assumptions or []) + _A}


META = {
    "C01": m(2000, 60000, "a run counts when at least one context switch happened inside library code; distinct by schedule and operation kinds",
             "seeded thread schedules over random concurrent calls, answers compared with solo runs, inputs watched at every switch"),
    "C02": m(1050, 60000, "a run counts when it has at least two calls; distinct by event log (calls, faults fired, answers)",
             "seeded call histories with injected failures and in-place edits, every answer compared with a fresh process"),
    "C07": m(2500, 60000, "a run counts when an answer was compared after at least one edit, refit or overwrite; distinct by event log",
             "seeded histories of edits by the caller, answers compared with an undisturbed object in a fresh process"),
    "C03": m(1150, 60000, "a run counts when at least one call was judged; distinct by event log",
             "calls and imports cut short at seeded points and interleaved with an application thread, process-wide state compared before and after"),
    "C04": m(2300, 60000, "a run counts when at least two simulations were compared; distinct by schedule and event log",
             "seeded schedules of seeded and unseeded simulations over threads, forks, reseeding, a stopped clock and a simulated entropy source"),
    "C05": m(2300, 60000, "a run counts when the model was fitted at least once; distinct by schedule and event log",
             "seeded histories and schedules of fit, score and simulate on one model against a model that saw only the latest fit"),
    "C06": m(2700, 60000, "a run counts when at least one fit failed; distinct by event log (faults fired, outcomes)",
             "fits failed at seeded points (numerical failure, memory, interrupt, warning as error), model compared before and after"),
    "C08": m(4000, 100000, "a run counts when splits of at least two iterations were compared or a context switch happened; distinct by event log or schedule",
             "seeded interleavings of starting, advancing, abandoning, failing and restarting iterations over shared splitters, in one thread and in several"),
    "C09": m(2400, 80000, "a run counts when at least two batches were delivered or a context switch happened; distinct by event log (delivery order, faults, outcome)",
             "simulated worker pool under real joblib: seeded worker counts, batching, delays, delivery order, worker deaths and errors; judged window by window"),
    "C10": m(1550, 60000, "a run counts when a storage fault fired, a context switch happened or an earlier result was edited; distinct by event log (outcome and fault counters per load) or schedule",
             "seeded storage faults at libc level (stat, open and read errors, early end of file, altered and lost bytes, short and interrupted reads) and faults in library code, over histories of loads and edits in one and several threads; judged against an independent parse of the packaged files"),
    "C11": m(3100, 60000, "a run counts when the delivery of at least one record was judged; distinct by event log or schedule",
             "seeded histories of configuring, importing, logging and library calls in one thread, and seeded interleavings of configuring and logging threads that also switch inside the standard library's logging; every record counted in every sink"),
    "C12": m(3100, 60000, "a run counts when a sink fault or failing configuration was injected; distinct by event log",
             "seeded write faults on console and log file at libc level, failing configurations of several kinds, between logging and library calls; results compared with the same calls alone, records counted in the working sinks"),
    "C13": m(1750, 50000, "a run counts when at least one object was saved and restored or a job was resumed; distinct by event log (saved states and answers, crash points and surviving files)",
             "seeded lives of objects saved at arbitrary points (every pickle protocol, copy, deepcopy) and restored in fresh processes and another interpreter; seeded crashes of checkpointed jobs on a simulated disk with torn and lost writes; answers compared with the original and with an uninterrupted job"),
    "C14": m(1950, 80000, "a run counts when at least one answer obtained in other surroundings was compared; distinct by event log (operations, answers and surroundings)",
             "seeded clock (frozen, jumping, backwards, epoch limits), time zone, locale, working directory, environment and core count around each call in one process, and the same calls in interpreters with another hash seed, zone, locale and directory; answers compared with the usual surroundings"),
    "C15": m(3000, 100000, "a run counts when a callback raised, re-entered, was slow, or threads switched; distinct by event log or schedule",
             "seeded misbehaviour of user callbacks at the k-th call (22 kinds of exception, re-entry into other functions and the same object, delays that let other threads run); the exception object, the outer and inner results and the indicator's arguments are checked"),
}
_L = "Seeded search, not exhaustive: no violation in the runs recorded in the evidence file. The oracle is a small independent predicate over the splits handed out and the times of the observations; trusts CPython, NumPy, pandas and the simulator."
META["C22"] = m(7000, 120000, "a run counts when at least two splits were judged; distinct by schedule and event log",
                "a simulated data feed (gaps, holidays, several observations per time) and a research application that starts, interleaves, abandons and fails iterations as data arrive, in one and several threads; every split judged when handed out, and against the splits of longer histories", note=_L)
META["C23"] = m(7000, 120000, "a run counts when at least two splits were judged; distinct by schedule and event log",
                "the same simulated feed and application; the test sets of each iteration judged as a whole when it completes, is abandoned or fails", note=_L)
META["C21"] = m(7000, 100000, "a run counts when at least two publications with a common history were compared; distinct by schedule and event log",
                "a simulated market data feed (delayed, late, corrected and repeated bars, appended while computations run) and an application that recomputes and records what it published; every publication compared with every later one", note="Seeded search, not exhaustive: no violation in the runs recorded in the evidence file. The oracle is the recorded history of published values itself (relative tolerance 1e-6); it decides that values do not depend on later data, not that they are the right values.")
_L25 = "Seeded search, not exhaustive: no violation in the runs recorded in the evidence file. The law is restated independently in sim/lawsim.py; statistical tests have an error probability below 1e-11 each and are deterministic for a seed; deviations smaller than the sampling error of a run are not seen. Trusts CPython, NumPy, SciPy and the simulator."
META["C25"] = m(5000, 120000, "a run counts when at least 100 innovations were judged; distinct by schedule and event log",
                "a simulated desk of threads and forked processes that simulates paths under a seeded schedule and a seeded entropy source, some calls interrupted and repeated; every path turned back into innovations and tested against the law, across calls too", note=_L25)
META["C26"] = m(5500, 120000, "a run counts when at least one score was compared; distinct by schedule and event log",
                "the same desk calibrating paths of known parameters, some calibrations interrupted and repeated, and scoring them with own and shared models from several threads; estimates compared with the parameters simulated and the most likely ones, scores with an independent density", note=_L25)
_L24 = "Seeded search, not exhaustive: no violation in the runs recorded in the evidence file. The oracle restates the definitions independently in sim/replsim.py; trusts CPython, NumPy, pandas, SciPy and the simulator."
META["C24"] = m(4000, 80000, "a run counts when at least one distance was compared with its definition; distinct by schedule and event log",
                "replicas fed by a network that delays, repeats and reorders observations, crashing and coming back from checkpoints, each with its own container and order of rows and columns; every published distance compared with its definition and with the other replicas", note=_L24)
META["C28"] = m(4000, 80000, "a run counts when at least one answer was compared across two containers; distinct by schedule and event log",
                "replicas of an application that hold the same data in different containers (memory orders, views, read-only arrays, Series and frames under twelve kinds of index, restored from checkpoints), computing under a seeded schedule with interrupted and repeated calls; numbers compared across replicas, containers with the data's", note=_L24)
META["C29"] = m(4000, 80000, "a run counts when at least one partition or score was compared; distinct by schedule and event log",
                "the same replicas clustering their items, whose order is the order of arrival, several threads sharing each clustering object; labels, nesting and partitions compared with an independent agglomeration", note=_L24)
META["C30"] = m(4500, 100000, "a run counts when at least one frequency, time step or label was compared; distinct by schedule and event log",
                "recorders driven by simulated clocks in several time zones, some down at a tick, receiving observations late or twice and restarting from checkpoints, asked by several threads for the frequency of what they recorded so far; answers, time steps of fits and labels of paths compared with calendar arithmetic of the simulator's own", note="Seeded search, not exhaustive: no violation in the runs recorded in the evidence file. The schedules are restated independently in sim/freqsim.py; trusts CPython, NumPy, pandas and the simulator.")
