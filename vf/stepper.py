"""Trace of the time stepper: every call of the nonlinear solver and every
accepted step, checked against the documented stepping rules."""
import numpy as np
import fenics as f


class CallCap(Exception):
    pass


class SpySolver(f.NewtonSolver):
    """a user-supplied Newton solver (documented customisation point): runs the
    real solver, records each call, and can be told to report another iteration
    count or a failure that leaves garbage in the unknowns"""

    def __init__(self, like, script=None, cap=600, garbage="noise"):
        f.NewtonSolver.__init__(self)
        self.parameters.update(like.parameters)
        self.script = script or {}
        self.calls = []
        self.cap = cap
        self.garbage = garbage

    def solve(self, problem, x):
        k = len(self.calls)
        if k >= self.cap:
            raise CallCap("solver called %d times" % k)
        act = self.script.get(k, self.script.get(str(k)))
        if act == "fail":
            v = x.get_local()
            rng = np.random.RandomState(k + 7)
            if self.garbage == "nan":
                v[:] = np.nan
            elif self.garbage == "noise":
                v += rng.uniform(-5, 5, v.shape)
            x.set_local(v)
            x.apply("insert")
            self.calls.append((int(self.parameters["maximum_iterations"]), False, True))
            return self.calls[-1][0], False
        it, ok = f.NewtonSolver.solve(self, problem, x)
        if isinstance(act, int) and ok:
            it = act
        self.calls.append((int(it), bool(ok), False))
        return it, ok


def install(r, script=None, cap=600, garbage="noise"):
    hp = r.model.h_transport_problem
    spy = SpySolver(hp.newton_solver, script, cap, garbage)
    hp.newton_solver = spy
    r.spy = spy


def dt_max(d, t):
    if "ratio" not in d:
        return None
    if d.get("t_stop") or d.get("stop_max"):
        return d["stop_max"] if t >= d["t_stop"] else None
    mx = d.get("max")
    if mx is None or isinstance(mx, (int, float)):
        return mx
    v = None
    for ti, vi in mx:
        if t >= ti:
            v = vi
    return v


def must_pass(spec, txt_times=()):
    ms = set(float(m) for m in spec["dt"].get("milestones", []) or []) | set(float(q) for q in txt_times)
    return sorted(ms)


def check(rep, r, txt_times=(), raised=None):
    """the whole stepping history of run r"""
    spec, d = r.spec, r.spec["dt"]
    ft = float(spec["settings"]["final_time"])
    ms = must_pass(spec, txt_times)
    calls, times = r.spy.calls, [float(t) for t in r.times]
    ratio = d.get("ratio")
    init = float(d["value"])

    def bad(mech, what, **kw):
        rep.findings.append(dict(what=what, mech="step:" + mech, times=times[-5:], **kw))

    if raised is not None and len([c for c in calls if c[1]]) == len(times) + 1:
        calls = calls[:-1]      # stopped after the solve, before the step was recorded
    acc = [c for c in calls if c[1]]
    rep.see("steps", len(times))
    rep.see("solver_calls", len(calls))
    rep.see("failed_solves", len(calls) - len(acc))
    if len(acc) != len(times):
        bad("exports", "%d converged steps but %d recorded times%s" % (
            len(acc), len(times), "" if raised is None else ", stopped with %s: %s" % (type(raised).__name__, str(raised)[-300:])))
        return
    t, prev, k = 0.0, None, 0          # prev: (dt of the previous try, iterations, converged)
    expect_error = None
    for it, ok, inj in calls:
        if expect_error:
            bad("goes_on", "the run goes on although %s" % expect_error, call=k)
            return
        # --- stepsizes the rules allow for this try
        if prev is None:
            base = [init]
        elif ratio is None:
            base = [init]
        else:
            if not prev[2]:
                base = [prev[0] / ratio]
            else:
                base = [prev[0] * ratio] if prev[1] < 5 else [prev[0] / ratio]
        lim = [ft - t]
        mx = dt_max(d, t)
        if mx is not None:
            lim.append(mx)
        opts = []
        amb = [m for m in ms if m > t and abs(m - t) <= 1.05e-5 * abs(m)]
        sure = [m for m in ms if m - t > 0.95e-5 * abs(m) and m not in amb]
        for b in base:
            o = min([b] + lim + ([sure[0] - t] if sure else []))
            opts.append(o)
            for m in amb:
                opts.append(min(o, m - t))
        tol = lambda o: 1e-7 * o + 4e-15 * max(t, ft) * 50
        if ok:
            got = times[k] - t
            rep.see("stepsizes_judged")
            if not any(abs(got - o) <= tol(o) for o in opts):
                bad("stepsize", "step of %.12g taken from t=%.12g, the stepping rules give %s" % (
                    got, t, ["%.12g" % o for o in opts]), step=k, previous=prev, limits=lim)
                return
            t = times[k]
            k += 1
            prev = (got, it, True)
        else:
            # a failed try: its stepsize is not observable; the smallest rule value is
            o = opts[0]
            prev = (o, it, False)
            if ratio is None:
                expect_error = "a solve with a fixed stepsize failed"
            elif d.get("dt_min") is None:
                expect_error = "a solve failed and no minimum stepsize is set"
            elif o / ratio < d["dt_min"] * (1 - 1e-9):
                expect_error = "the stepsize fell below its minimum"
            elif o / ratio < d["dt_min"] * (1 + 1e-9) and not d.get("exact"):
                rep.see("dt_min_tie")
    if expect_error:
        rep.see("must_stop")
        if raised is None:
            bad("silent", "the run ended normally although %s" % expect_error)
        return
    if raised is not None:
        if isinstance(raised, CallCap) or type(raised).__name__ == "StepCap":
            # every step so far followed the rules; a fixed stepsize bounds their number
            if ratio is None and len(times) > ft / init + len(ms) + 5:
                bad("endless", "the run did not end: %s" % raised)
            else:
                rep.see("cut_short")
        elif rep.obs.get("dt_min_tie"):
            return
        else:
            bad("spurious", "the run stopped with %s: %s" % (type(raised).__name__, " ".join(str(raised).split())[-300:]), calls=calls[-4:])
        return
    # --- complete history
    if any(b <= a for a, b in zip([0.0] + times, times)):
        bad("monotone", "times do not increase")
    if not times or abs(times[-1] - ft) > 1.01e-5 * ft:
        bad("end", "the run ended at t=%r instead of %r" % (times[-1:] or None, ft))
    if times and times[-1] > ft * (1 + 1e-9):
        bad("overshoot", "the run went past the final time: %r > %r" % (times[-1], ft))
    for m in ms:
        if 0 < m < ft * (1 - 2e-5):
            rep.see("milestones")
            if not any(abs(q - m) <= 1.01e-5 * m for q in times):
                bad("milestone", "the simulation did not stop at %r" % m)
