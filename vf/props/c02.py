import warnings
from ..build import build, collect, StepCap
from ..oracle import Report, monitor
from .common import result, expect_times
from . import c01

EQS = ("mobile", "trap", "heat", "density", "surf", "dirichlet", "T")


def run(case, wd):
    kind = case.get("kind", "script")
    if kind == "script":
        r, rep = c01.stepping(case, wd)
        leftovers(case, wd, r, rep)
        if not rep.findings and r.times:
            # what was accepted is a solution of the step that led to it
            monitor(r, eqs=EQS, tol=2e-5, rep=rep, floor=case.get("floor", {}))
            r.rep = rep
        return c01.outcome(case, r, rep)
    return must_raise(case, wd)


def leftovers(case, wd, r, rep):
    """a retry that fails on its own after a failure that left garbage behind:
    the same history without garbage tells whose fault it is"""
    def natural(calls):
        return [k for k, (it, ok, inj) in enumerate(calls) if not ok and not inj]

    calls = r.spy.calls
    bad = natural(calls)
    if case.get("garbage") == "none" or not bad or not any(c[2] for c in calls[:bad[0]]):
        return
    twin, _ = c01.stepping(dict(case, garbage="none"), wd)
    rep.see("twins")
    if bad[0] not in natural(twin.spy.calls):
        rep.findings.append(dict(what="try %d fails only because of what the failed try before it left in the unknowns" % (bad[0] + 1),
                                 mech="leftover:retry", calls=calls[max(0, bad[0] - 2):bad[0] + 2]))


def must_raise(case, wd):
    """a solve that cannot converge: the run has to stop with an error"""
    rep = Report()
    spec = case["spec"]
    r = build(spec, workdir=wd, cap=60)
    raised = None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            r.model.initialise()
            if case.get("script"):
                from .. import stepper
                stepper.install(r, case["script"], cap=60)
            r.model.run()
        except StepCap:
            pass
        except Exception as e:
            raised = e
    rep.see("must_stop")
    rep.see("must_stop:" + case["why"])
    if raised is None:
        rep.findings.append(dict(what="the run ended normally although %s" % case["why"], mech="silent:" + case["why"]))
    if case.get("max_steps") is not None:
        n = len(r.dq.t)
        if n > case["max_steps"]:
            rep.findings.append(dict(what="%d unconverged steps were exported" % n, mech="exported:" + case["why"]))
    return result(rep, None, ["%s=%s" % q for q in case.get("tags", {}).items()])
