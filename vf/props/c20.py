"""several processes give what one process gives"""
import os
import sys
import json
import signal
import subprocess
import numpy as np
import fenics as f
from ..oracle import Report
from ..build import cell_values
from ..mpi_main import model_run
from .common import result, cover_of
from .c13 import read

TOL = 1e-6
HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def launch(n, src, dst, wd, cap=90):
    env = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMP_NUM_THREADS="1", TMPDIR=wd,
               OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_hwloc_base_binding_policy="none",
               OMPI_MCA_mpi_yield_when_idle="1",
               PYTHONPATH=os.pathsep.join([HERE, os.environ.get("VF_REPO", "/repo"), os.environ.get("PYTHONPATH", "")]))
    p = subprocess.Popen(["mpirun", "--oversubscribe", "-n", str(n), sys.executable, "-W", "ignore", "-m", "vf.mpi_main", src, dst],
                         cwd=wd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=open(os.path.join(wd, "mpi.err"), "w"),
                         start_new_session=True)
    try:
        p.wait(cap)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return None
    return p.returncode


def table(p):
    txt = read(p)
    if txt is None:
        return None
    rows = [q.split(",") for q in txt.strip().split("\n")]
    return rows[0], np.array([[float(v) for v in q] for q in rows[1:]])


def run(case, wd):
    rep = Report()
    spec, n = case["spec"], case["procs"]
    ser, r = model_run(case, wd, "ser")
    src, dst = os.path.join(wd, "case.json"), os.path.join(wd, "out.json")
    json.dump(dict(spec=spec, quantities=case["quantities"], wd=wd), open(src, "w"))
    code = launch(n, src, dst, wd)
    cov = cover_of(case) + ["procs=%d" % n]
    outs = []
    for k in range(n):
        try:
            outs.append(json.load(open("%s.%d" % (dst, k))))
        except (OSError, ValueError):
            outs.append(None)

    def bad(what, mech):
        rep.findings.append(dict(what="on %d processes: %s" % (n, what), mech=mech))
    errs = [o for o in outs if o and "error" in o]
    if errs:
        bad("the run that works on one process fails: %s" % errs[0]["error"], "error:" + errs[0]["error"].split(":")[0])
        return result(rep, None, cov)
    if code != 0 or any(o is None for o in outs):
        txt = open(os.path.join(wd, "mpi.err")).read()[-1500:]
        if code is None or all(o is None for o in outs):
            raise RuntimeError("mpirun gave no answer (%s): %s" % (code, txt))
        bad("some processes gave no answer (%s)" % code, "lost")
        return result(rep, None, cov)
    if any(o["size"] != n for o in outs):
        raise RuntimeError("mpirun did not start %d connected processes" % n)
    rep.see("runs")
    rep.see("procs", n)

    def close(a, b, scale=None):
        a, b = np.asarray(a, float), np.asarray(b, float)
        if a.shape != b.shape:
            return np.inf
        s = max(np.abs(a).max(initial=0), 1e-9) if scale is None else scale
        return float(np.abs(a - b).max(initial=0) / s)
    for o in outs:
        if close(ser["times"], o["times"]) > 1e-12:
            bad("steps at %s instead of %s" % (o["times"][:6], ser["times"][:6]), "times")
            return result(rep, None, cov)
    for q, a in zip(case["quantities"], ser["q"]):
        pos = case["quantities"].index(q)
        for o in outs:
            flux = "Flux" in q["kind"]
            e = close(a, o["q"][pos], max(np.abs(a).max(), 1e-3) if flux else None)
            rep.mx("quantity", e / TOL)
            rep.see("quantities", len(a))
            rep.see("q:" + q["kind"])
            if not e < TOL:
                bad("%s of %s is %s instead of %s" % (q["kind"], q.get("field"), o["q"][pos][:4], a[:4]), "quantity:" + q["kind"])
                break
    labs = [str(t.get("id", i)) for i, t in enumerate(spec.get("traps", []), 1)]
    names = ["%s.csv"]
    if spec["mesh"]["kind"] == "1d":
        names += ["%s_" + fl + ".txt" for fl in ["solute", "T"] + labs]
    for nm in names:
        a, b = table(nm % "ser"), table(nm % "par")
        rep.see("files")
        if b is None or a[0] != b[0] or a[1].shape != b[1].shape:
            bad("file %s has %s instead of %s" % (nm % "...", None if b is None else b[1].shape, a[1].shape), "file:" + nm[-3:])
            continue
        if nm.endswith(".txt") and (spec["settings"].get("chemical_pot") or spec["settings"].get("traps_element_type") == "DG"):
            # discontinuous profiles: which of the values at one place comes first depends on the partition
            a, b = (a[0], a[1][:, :1]), (b[0], b[1][:, :1])
        cols = np.abs(a[1]).max(axis=0)
        cols[cols < 1e-3] = 1e-3
        e = float((np.abs(a[1] - b[1]) / cols).max())
        rep.mx("file", e / TOL)
        if not e < TOL:
            bad("file %s holds other values" % (nm % "..."), "file:" + nm[-3:])
    S = spec["settings"]
    chem, dgt = S.get("chemical_pot"), S.get("traps_element_type", "CG") == "DG"
    for fl in ["solute", "T", "retention"] + labs:
        dg = False if fl == "T" else bool(labs or chem) if fl == "retention" else bool(chem) if fl == "solute" else dgt
        V = f.FunctionSpace(r.model.mesh.mesh, "DG" if dg else "CG", 1)
        for k in range(len(ser["times"])):
            vals = []
            for tag in ("ser", "par"):
                fn = f.Function(V)
                try:
                    with f.XDMFFile("%s_%s.xdmf" % (tag, fl)) as fh:
                        fh.read_checkpoint(fn, "f" + fl, k)
                except RuntimeError as err:
                    if tag == "ser":
                        raise
                    bad("step %d of field %s cannot be read back" % (k, fl), "xdmf")
                    break
                vals.append(cell_values(fn))
            if len(vals) < 2:
                break
            e = close(vals[0], vals[1])
            rep.mx("field", e / TOL)
            rep.see("fields")
            if not e < TOL:
                bad("field %s at t=%g differs by %.2g" % (fl, ser["times"][k], e), "field:" + ("trap" if fl in labs else fl))
                break
    return result(rep, None, cov)
