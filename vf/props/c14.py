"""a run restarted from what an earlier run exported continues it"""
import re
import copy
import os
import warnings
import numpy as np
import festim as F
from ..build import execute, build, collect
from ..oracle import Report, compare
from .common import result, cover_of, expect_times


def shift(o, t0):
    """the same inputs seen from a clock that starts t0 later"""
    if isinstance(o, dict):
        return {k: shift(v, t0) for k, v in o.items()}
    if isinstance(o, list):
        return [shift(v, t0) for v in o]
    if isinstance(o, str):
        return re.sub(r"\bt\b", "(t + %r)" % t0, o)
    return o


def run(case, wd):
    spec = case["spec"]
    mode = case["mode"]
    labs = [t.get("id", i) for i, t in enumerate(spec.get("traps", []), 1)]
    heat = spec["T"]["kind"] == "heat" and spec["T"].get("transient", True)
    names = {"solute": "c"}
    names.update({str(l): "t%d" % i for i, l in enumerate(labs, 1)})
    fields = list(names) + (["T"] if heat or case.get("T_file") else [])

    def exports(r):
        return [F.XDMFExport(field=q, label="ck_" + q, filename="ck_%s.xdmf" % q, mode=mode, folder=case.get("folder"))
                for q in fields]

    rep = Report()
    a = execute(spec, workdir=wd, cap=400, exports=exports)
    if not expect_times(rep, a):
        return result(rep, a, cover_of(case))
    n = len(a.times)
    steps = [i for i in range(n) if i % mode == 0]
    k = min(case["k"], len(steps) - 1) if case["k"] >= 0 else case["k"]
    i0 = steps[k]
    t0 = float(a.times[i0])
    at = lambda q: os.path.join(case["folder"], "ck_%s.xdmf" % q) if case.get("folder") else "ck_%s.xdmf" % q
    s2 = shift(copy.deepcopy(spec), t0)
    if spec["T"]["kind"] == "heat" and not heat:
        # a steady heat problem is solved once, with its data at t=0
        for i, q in enumerate(spec["bcs"]):
            if q.get("field") == "T" or q["kind"] == "convective":
                s2["bcs"][i] = copy.deepcopy(q)
        for i, q in enumerate(spec.get("sources", [])):
            if q.get("field") == "T":
                s2["sources"][i] = copy.deepcopy(q)
    s2["ics"] = [dict(field=case["solute_as"], file=at("solute"), label="ck_solute", time_step=k)]
    for j, l in enumerate(labs):
        s2["ics"].append(dict(field=l if j % 2 else str(l), file=at(str(l)), label="ck_%s" % l, time_step=k))
    if heat:
        s2["T"]["ic"] = dict(file=at("T"), label="ck_T", time_step=k)
    for b in s2["bcs"]:
        if b["kind"] == "surfkin":
            ss = b["surfaces"] if isinstance(b["surfaces"], list) else [b["surfaces"]]
            b["ic"] = float(a.rec["s%d" % ss[0]][i0])
    left = spec["settings"]["final_time"] - t0
    dt = spec["dt"]["value"]
    tail = n - 1 - i0
    if tail <= 0:
        return result(rep, a, cover_of(case))
    s2["settings"]["final_time"] = left
    s2["dt"] = dict(value=dt)
    os.makedirs("second", exist_ok=True)
    b = execute(s2, workdir=os.path.join(wd, "second"), cap=400)
    if not expect_times(rep, b):
        return result(rep, a, cover_of(case))
    rep.see("steps", n + len(b.times))
    rep.see("restarts")
    if len(b.times) != tail or not np.allclose([t0 + t for t in b.times], a.times[i0 + 1:], rtol=1e-6, atol=0):
        rep.findings.append(dict(what="restarted run took steps %s, the original %s" % (b.times[:5], a.times[i0 + 1:][:5]), mech="restart:steps"))
        return result(rep, a, cover_of(case))
    chem = spec["settings"].get("chemical_pot")
    for j in range(tail):
        for key in ["c", "T"] + ["t%d" % i for i in range(1, len(labs) + 1)] + [q for q in a.rec if q[0] == "s" and q[1:].isdigit()]:
            w, g = np.asarray(a.rec[key][i0 + 1 + j]), np.asarray(b.rec[key][j])
            # with conservation of chemical potential the exported
            # concentration is a projection: the restart is approximate
            tol = 2e-3 if chem and key != "T" else 1e-6
            scale = float(np.max(np.abs(w))) + 1e-300
            rep.see("fields")
            err = float(np.max(np.abs(w - g))) / (tol * scale)
            rep.max[key[0]] = max(rep.max.get(key[0], 0), err)
            if not err <= 1:
                rep.findings.append(dict(what="restarted from stored step %d (t=%.6g): %s at t=%.6g differs from the uninterrupted run by %.3g of its size"
                                         % (k, t0, {"c": "solute"}.get(key, key), a.times[i0 + 1 + j], err * tol), mech="restart:" + key[0]))
                return result(rep, a, cover_of(case))
    if case.get("T_file"):
        # a third run takes the temperature the first one left in the file
        s3 = shift(copy.deepcopy(spec), t0)
        s3["bcs"] = [q for q in s3["bcs"] if q.get("field") != "T" and q["kind"] != "convective"]
        s3["sources"] = [q for q in s3.get("sources", []) if q.get("field") != "T"]
        s3["T"] = dict(kind="expr", value=500.0)
        r = build(s3, workdir=wd, cap=400)
        r.model.T = F.TemperatureFromXDMF(at("T"), "ck_T")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r.model.initialise()
            r.model.run()
        collect(r)
        w = np.asarray(a.rec["T"][steps[-1]])
        for g in r.rec["T"]:
            rep.see("fields")
            if not np.max(np.abs(w - g)) <= 1e-8 * np.max(np.abs(w)):
                rep.findings.append(dict(what="temperature taken from the exported file differs from the last exported one by %.3g" %
                                         float(np.max(np.abs(w - g))), mech="restart:T-file"))
                break
    return result(rep, a, cover_of(case))
