"""Subprocess: one JSON case per line in, one JSON result per line out."""
import sys
import os
import json
import time
import tempfile
import shutil
import traceback
import warnings
import importlib


NUMERIC = ("diverged", "stepsize reached minimal", "did not converge", "PETSc", "unable to successfully call PETSc",
           "Newton solver")


def numeric_failure(e):
    s = str(e)
    return any(q in s for q in NUMERIC)


def main():
    prop = sys.argv[1]
    out = os.fdopen(os.dup(1), "w", buffering=1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    if os.environ.get("VF_KEEP_STDERR") != "1":
        os.dup2(null, 2)
    sys.stdout = open(os.devnull, "w")
    warnings.simplefilter("ignore")
    dump = watch_lines(os.environ["VF_COV"]) if os.environ.get("VF_COV") else None
    try:
        from . import jitlite
        if os.environ.get("VF_JITLITE", "1") != "0":
            jitlite.install()
        mod = importlib.import_module("vf.props." + prop.lower())
    except BaseException:
        out.write(json.dumps({"fatal": traceback.format_exc()[-3000:]}) + "\n")
        return
    out.write(json.dumps({"ready": True}) + "\n")
    top = tempfile.mkdtemp(prefix="vf_", dir=os.environ.get("VF_SCRATCH"))
    try:
        for line in sys.stdin:
            msg = json.loads(line)
            if msg.get("stop"):
                break
            wd = os.path.join(top, "case")
            os.makedirs(wd, exist_ok=True)
            os.chdir(wd)
            t0 = time.time()
            res = confirmed(mod, msg["case"], wd)
            res["wall"] = time.time() - t0
            if dump:
                dump()
            res["id"] = msg["id"]
            os.chdir(top)
            shutil.rmtree(wd, ignore_errors=True)
            out.write(json.dumps(clean(res)) + "\n")
    finally:
        shutil.rmtree(top, ignore_errors=True)


def watch_lines(path):
    """optional: which lines of FESTIM this process executed (VF_COV=directory)"""
    hit = set()
    mon = sys.monitoring
    mon.use_tool_id(3, "vf")

    def line(code, no):
        if "/festim/" in code.co_filename:
            hit.add((code.co_filename.split("/festim/", 1)[1], no))
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
    name = os.path.join(path, "%s_%d.json" % (sys.argv[1], os.getpid()))

    def dump():
        with open(name, "w") as fh:
            json.dump(sorted(hit), fh)
    return dump


SEEN = set()        # mechanisms already confirmed by this process


def confirmed(mod, case, wd):
    """cases are deterministic: what is only seen once (a full disk, a failed
    compilation under load...) is the environment, not FESTIM"""
    res = run_one(mod, case, wd)
    mechs = set(q.get("mech") for q in res.get("findings", []))
    if not res.get("harness_error") and not mechs - SEEN:
        return res
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd, exist_ok=True)
    os.chdir(wd)
    again = run_one(mod, case, wd)
    if not again.get("findings") and not again.get("harness_error"):
        again["unconfirmed"] = (res.get("harness_error") or json.dumps(clean(res["findings"][0])))[-600:]
        return again
    SEEN.update(q.get("mech") for q in again.get("findings", []))
    return again


def run_one(mod, case, wd):
    try:
        return mod.run(case, wd)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        in_repo = [fr for fr in tb if "/festim/" in fr.filename and "/verif/" not in fr.filename]
        txt = traceback.format_exc()[-2500:]
        if numeric_failure(e) and not case.get("core"):
            return {"invalid": "numeric: " + str(e)[:200], "findings": [], "obs": {}}
        if not in_repo:
            return {"harness_error": txt, "findings": [], "obs": {}}
        where = os.path.basename(in_repo[-1].filename) + ":" + in_repo[-1].name
        return {"findings": [dict(what="a valid model raised %s: %s" % (type(e).__name__, str(e)[:300]),
                                  mech="raised:" + where, trace=txt)], "obs": {}}


def clean(o):
    import math
    try:
        import numpy as np
    except ImportError:
        np = None
    if isinstance(o, dict):
        return {str(k): clean(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [clean(v) for v in o]
    if isinstance(o, (set, frozenset)):
        return sorted(clean(v) for v in o)
    if np is not None and isinstance(o, np.ndarray):
        return clean(o.tolist())
    if np is not None and isinstance(o, np.generic):
        o = o.item()
    if isinstance(o, float) and not math.isfinite(o):
        return repr(o)
    return o


if __name__ == "__main__":
    main()
