"""C02: a call's answer depends only on its arguments, never on what happened before."""
from .. import core, hist, jobs
from .. import util as U
from .. import values as V

ID = "C02"
V.exact()


def gen(rng, tier, idx):
    return hist.gen(rng, idx)


def run(plan):
    res = U.Res()
    exp = hist.expectations(plan, res)
    jobs.reset(seed=plan["seed"], **plan["hub"])
    core.monitor(core.E.LINE | core.E.CALL)
    app = hist.App(plan)
    core.SERIAL = True
    hop = core.Hop()
    kept = []
    ncall = 0
    for i, st in enumerate(plan["steps"]):
        if st["t"] != "call":
            app.edit(st)
            res.fault("in-place edit of a caller's array" if st["t"] == "edit" else "array replaced by another")
            res.event(i, st["t"])
            continue
        want, counts, op = exp[i]
        th, own = app.prepare(st)
        jobs.elapse((0, 0.5, 0, 3600, 90_000)[i % 5])

        def call():
            with app.injector(st, counts) as inj:
                return inj, *U.outcome(th)

        who = st.get("thr")
        if who:
            res.stat("calls from other threads of the application")
            inj, raw, got = hop.run(who, call, last=who == "new")
        else:
            inj, raw, got = call()
        res.event(i, inj.fired, V.digest(got))
        ncall += 1
        if inj.fired:
            res.fault(inj.fired.split("@")[0])
            continue
        d = V.diff(want, got)
        if d:
            res.bad("answer", f"call {i} of the history, {U.brief(op)}: fresh process vs after this history {d}")
            break
        if U.is_exc(got):
            res.stat("rejected calls")
        if st.get("scribble"):
            if raw is not None and V.scribble(raw):
                res.fault("result overwritten by caller")
        elif raw is not None:
            kept.append((i, raw, got))
    if res.viol is None:
        for i, raw, got in kept:
            d = V.diff(got, V.canon(raw))
            if d:
                res.bad("result-reused", f"the result of call {i} ({U.brief(plan['steps'][i]['op'])}) was changed by later calls: {d}")
                break
    res.stat("calls", ncall)
    res.nontrivial = ncall > 1
    res.sigs = [res.log]
    return res.out()


shrinks = hist.shrinks
