import warnings
import hashlib
import festim as F
from ..build import build, collect, StepCap
from ..oracle import Report
from .. import stepper
from .common import result


def stepping(case, wd):
    """one run with a spied solver"""
    spec = case["spec"]
    rep = Report()
    tx = case.get("txt", [])

    def exports(r):
        return [F.TXTExport(field="solute", filename="out%d.txt" % i, times=list(t)) for i, t in enumerate(tx)]

    r = build(spec, workdir=wd, exports=exports, cap=500)
    if case.get("plain_dt"):
        r.model.dt = spec["dt"]["value"]
    raised = None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r.model.initialise()
        stepper.install(r, case.get("script"), cap=case.get("cap", 600), garbage=case.get("garbage", "noise"))
        try:
            r.model.run()
        except (stepper.CallCap, StepCap) as e:
            raised = e
        except Exception as e:
            raised = e
            if not case.get("may_raise", True):
                raise
    collect(r)
    r.raised = raised
    r.rep = rep
    stepper.check(rep, r, [q for l in tx for q in l], raised)
    return r, rep


def outcome(case, r, rep):
    out = result(rep, r, ["%s=%s" % (k, v) for k, v in case.get("tags", {}).items()])
    out["digest"] = hashlib.sha1(repr([(c[0], c[1]) for c in r.spy.calls] + [round(t, 9) for t in r.times]).encode()).hexdigest()
    return out


def run(case, wd):
    r, rep = stepping(case, wd)
    return outcome(case, r, rep)
