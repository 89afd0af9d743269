"""a model run again, edited and run again, or run next to another one behaves
like a model built from scratch in a process of its own"""
import os
import re
import copy
import shutil
import warnings
import numpy as np
import festim as F
from ..build import build, collect, StepCap
from ..oracle import Report
from .common import result, cover_of, expect_times
from .c13 import make_export, read


def with_exports(case):
    def exports(r):
        return [make_export(copy.deepcopy(e), r) for e in case.get("exports", [])]
    return exports


def disk(case):
    """what the run left behind"""
    out = {}
    for e in case.get("exports", []):
        p = e["filename"]
        txt = read(p)
        if e["kind"] == "xdmf" and txt is not None:
            txt = re.findall(r'<Time Value="([^"]+)"', txt)
        out[p] = txt
    return out


def wipe(case):
    for e in case.get("exports", []):
        for p in (e["filename"], e["filename"][:-5] + ".h5"):
            if os.path.exists(p):
                os.remove(p)


def go(r, init=True):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if init:
            r.model.initialise()
        try:
            r.model.run()
        except StepCap:
            pass
    collect(r)
    out = dict(times=list(r.times), rec={k: [None if v is None else np.array(v) for v in vs] for k, vs in r.rec.items()})
    return out


def clear(r):
    for p in r.probe.values():
        if hasattr(p, "records"):
            p.records = []


def same(rep, what, got, want, gd, wd_, tol=1e-7):
    rep.see("comparisons")
    if len(got["times"]) != len(want["times"]) or not np.allclose(got["times"], want["times"], rtol=1e-9, atol=0):
        rep.findings.append(dict(what="%s: steps %s, a fresh model takes %s" % (what, got["times"][:6], want["times"][:6]), mech="isolation:times"))
        return False
    for k in want["rec"]:
        if k not in got["rec"] or len(got["rec"][k]) != len(want["rec"][k]):
            rep.findings.append(dict(what="%s: %s has %d records, a fresh model %d" % (what, k, len(got["rec"].get(k, [])), len(want["rec"][k])), mech="isolation:records"))
            return False
        for i, (a, b) in enumerate(zip(got["rec"][k], want["rec"][k])):
            if (a is None) != (b is None):
                rep.findings.append(dict(what="%s: %s missing at step %d" % (what, k, i + 1), mech="isolation:missing"))
                return False
            if a is None:
                continue
            rep.see("fields")
            a, b = np.asarray(a, float), np.asarray(b, float)
            if a.shape != b.shape:
                rep.findings.append(dict(what="%s: %s has shape %s, expected %s" % (what, k, a.shape, b.shape), mech="isolation:shape"))
                return False
            s = float(np.max(np.abs(b))) + 1e-300
            e = float(np.max(np.abs(a - b))) / s
            rep.max["field"] = max(rep.max.get("field", 0), e / tol)
            if not e <= tol:
                rep.findings.append(dict(what="%s: %s at t=%.6g differs from a fresh model by %.3g of its size" % (what, k, want["times"][i], e), mech="isolation:field"))
                return False
    for p in wd_:
        a, b = gd.get(p), wd_[p]
        rep.see("files")
        if (a is None) != (b is None) or not same_text(a, b):
            rep.findings.append(dict(what="%s: file %s differs from the one of a fresh model" % (what, p), mech="isolation:file",
                                     got=str(a)[:300], want=str(b)[:300]))
            return False
    return True


NUM = re.compile(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)")


def same_text(a, b):
    if a == b:
        return True
    if isinstance(a, list) or a is None or b is None:
        return a is not None and b is not None and len(a) == len(b) and np.allclose([float(x) for x in a], [float(x) for x in b], rtol=1e-9, atol=0)
    if NUM.sub("#", a) != NUM.sub("#", b):
        return False
    x, y = [float(v) for v in NUM.findall(a)], [float(v) for v in NUM.findall(b)]
    return len(x) == len(y) and np.allclose(x, y, rtol=1e-6, atol=1e-6 * (max(map(abs, y), default=0) * 1e-3))


def transplant(live, donor, mods):
    m, d = live.model, donor.model
    for q in mods:
        if q == "materials":
            m.materials = d.materials
        elif q == "traps":
            m.traps = d.traps
            for k, pr in donor.probe.items():
                if k[0] == "n" and k[1:].isdigit() and k in live.probe:
                    live.probe[k].fn = pr.fn
        else:
            setattr(m, {"bcs": "boundary_conditions", "ics": "initial_conditions"}.get(q, q),
                    getattr(d, {"bcs": "boundary_conditions", "ics": "initial_conditions"}.get(q, q)))


def run(case, wd):
    rep = Report()
    specs = case["specs"]
    ex = with_exports(case)
    rec = None
    # reference: each specification in a model of its own
    fresh = []
    for s in specs:
        wipe(case)
        r = build(s, workdir=wd, exports=ex, cap=300)
        fresh.append((go(r), disk(case)))
        rep.see("runs")
    r0 = fresh[0][0]
    ok = True
    if case["how"] == "sequence":
        # one live model, edited between runs
        wipe(case)
        live = build(specs[0], workdir=wd, exports=ex, cap=300)
        for j, mods in enumerate([[]] + case["mods"]):
            if mods and mods[0] == "init-twice":
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    live.model.initialise()
            elif mods and mods[0] != "again":
                donor = build(specs[case["which"][j]], workdir=wd, exports=None, cap=300)
                transplant(live, donor, mods)
            clear(live)
            got = go(live)
            w = fresh[case["which"][j]]
            rep.see("runs")
            rep.see("steps", len(got["times"]))
            ok = same(rep, "run %d of one model (changed before it: %s)" % (j + 1, mods), got, w[0], disk(case), w[1])
            if not ok:
                break
    elif case["how"] == "interleave":
        wipe(case)
        a = build(specs[0], workdir=wd, exports=None, cap=300)
        b = build(specs[1], workdir=wd, exports=None, cap=300)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for x in case["order"]:
                (a if x == "a" else b).model.initialise()
            res = {}
            for x in case["run_order"]:
                q = a if x == "a" else b
                res[x] = go(q, init=False)
        rep.see("runs", 2)
        rep.see("steps", len(res["a"]["times"]) + len(res["b"]["times"]))
        for x, i in (("a", 0), ("b", 1)):
            ok = ok and same(rep, "two models initialised %s and run %s: model %s" % (case["order"], case["run_order"], x),
                             res[x], fresh[i][0], {}, {})
    elif case["how"] == "share":
        # a second model built around the first one's objects, after it ran
        wipe(case)
        a = build(specs[0], workdir=wd, exports=ex, cap=300)
        go(a)
        b = build(specs[1], workdir=wd, exports=ex, cap=300)
        wipe(case)
        transplant(b, a, case["mods"][0])
        got = go(b)
        rep.see("runs", 2)
        rep.see("steps", len(got["times"]))
        ok = same(rep, "model reusing %s of an earlier model" % case["mods"][0], got, fresh[1][0], disk(case), fresh[1][1])
    return result(rep, None, cover_of(case) + ["how=" + case["how"]] + ["mod=" + q for m in case.get("mods", []) for q in m])
