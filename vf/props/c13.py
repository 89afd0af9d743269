"""what is on disk after every step against the fields reported at that step"""
import os
import re
import warnings
import numpy as np
import fenics as f
import festim as F
from ..build import build, collect, CallProbe, cell_values
from ..oracle import Report, states, mesh_arrays
from ..ref import Model, as_list
from ..expr import ev
from .common import result, cover_of, expect_times
from .c12 import make_quantity, pick, title


def make_export(e, r):
    k = e["kind"]
    if k == "csv":
        e["_objs"] = [make_quantity(q) for q in e["quantities"]]
        kw = {}
        if "compute" in e:
            kw["nb_iterations_between_compute"] = e["compute"]
        if "every" in e:
            kw["nb_iterations_between_exports"] = e["every"]
        return F.DerivedQuantities(e["_objs"], filename=e["filename"], show_units=e.get("show_units", True), **kw)
    if k == "txt":
        kw = {q: e[q] for q in ("filter", "write_at_last", "header_format") if q in e}
        if "times" in e:
            kw["times"] = list(e["times"])
        return F.TXTExport(field=e["field"], filename=e["filename"], **kw)
    kw = {q: e[q] for q in ("label", "filename", "mode", "checkpoint", "folder") if q in e}
    if k == "xdmf":
        return F.XDMFExport(field=e["field"], **kw)
    if k == "density":
        return F.TrapDensityXDMF(trap=r.traps[e["trap"]], **kw)
    raise ValueError(k)


LABELS = {"solute": "mobile_concentration", "T": "temperature", "retention": "retention"}


def label_of(e):
    if "label" in e:
        return e["label"]
    return LABELS.get(e["field"]) or "trap_%s_concentration" % e["field"]


def path_of(e):
    fn = e.get("filename") or label_of(e) + ".xdmf"
    return os.path.join(e["folder"], fn) if e.get("folder") else fn


def read(p):
    try:
        with open(p, "rb") as fh:
            return fh.read().decode()
    except OSError:
        return None


def bad(rep, e, what, mech, **kw):
    rep.findings.append(dict(what="%s export %s: %s" % (e["kind"], e.get("filename") or e.get("label") or e.get("field"), what),
                             mech="%s:%s" % (e["kind"], mech), **kw))


def close(a, b):
    return np.isclose(a, b, rtol=1e-5, atol=0)


def run(case, wd):
    spec = case["spec"]
    watched = sorted({e["filename"] for e in case["exports"] if e["kind"] in ("csv", "txt")})
    holder = {}

    def exports(r):
        out = [make_export(e, r) for e in case["exports"]]
        # observes the disk after everything else was written at this step
        holder["snap"] = CallProbe(lambda: {p: read(p) for p in watched})
        out.append(F.DerivedQuantities([holder["snap"]]))
        holder["objs"] = out
        return out

    r = build(spec, workdir=wd, exports=exports, cap=400)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for d in case.get("mkdirs", []):
            os.makedirs(d, exist_ok=True)
        for p in case.get("stale", []):
            with open(p, "w") as fh:
                fh.write("stale\n1,2\n")
        r.model.initialise()
        if not spec["settings"].get("transient", True) and case.get("warm_exports"):
            pass
        r.model.run()
    collect(r)
    rep = Report()
    if not expect_times(rep, r):
        return result(rep, r, cover_of(case))
    X, cells = mesh_arrays(r)
    mod = Model(spec, X, cells)
    S = states(r, mod)[1:]
    rep.see("steps", len(S))
    snaps = holder["snap"].records
    stale = set(case.get("stale", []))
    for e, o in zip(case["exports"], holder["objs"]):
        if e["kind"] == "csv":
            csv(rep, e, o, S, mod, spec, snaps, stale)
        elif e["kind"] == "txt":
            txt(rep, e, S, mod, spec, snaps, stale)
        else:
            xdmf(rep, e, S, mod, spec, r)
    return result(rep, r, cover_of(case) + ["export=" + e["kind"] for e in case["exports"]])


def last_step(S, spec, i):
    ft = spec["settings"].get("final_time")
    return ft is None or close(S[i].t, ft)


def csv(rep, e, o, S, mod, spec, snaps, stale):
    steady = not spec["settings"].get("transient", True)
    nc, ne = e.get("compute", 1), e.get("every")
    comp = [i for i in range(len(S)) if i % nc == 0]
    if list(o.t) != [S[i].t for i in comp]:
        bad(rep, e, "computed at %s, expected %s" % (list(o.t)[:8], [S[i].t for i in comp][:8]), "cadence")
        return
    heads = ["t(s)"] + [title(q, mod.m.dim, e.get("show_units", True)) for q in e["quantities"]]
    table = [heads] + [[S[i].t] + [q.data[j] for q in e["_objs"]] for j, i in enumerate(comp)]
    for j, q in enumerate(e["_objs"]):
        if len(q.data) != len(comp) or list(q.t) != list(o.t):
            bad(rep, e, "quantity %d holds %d values, %d steps computed" % (j, len(q.data), len(comp)), "history")
            return
    on_disk = None
    for i in range(len(S)):
        exp = last_step(S, spec, i) if ne is None or steady else i % ne == 0
        if exp:
            on_disk = [heads] + [row for row, c in zip(table[1:], comp) if c <= i]
        rep.see("snapshots")
        got = snaps[i][e["filename"]]
        if on_disk is None:
            if got is not None and e["filename"] not in stale:
                bad(rep, e, "file exists at step %d, before its first export" % (i + 1), "early")
                return
            continue
        if got is None:
            bad(rep, e, "no file after step %d" % (i + 1), "missing", t=S[i].t)
            return
        lines = got.strip("\n").split("\n")
        rows = [l.split(",") for l in lines]
        if lines[0] != ",".join(heads):
            bad(rep, e, "header %r instead of %r" % (lines[0], ",".join(heads)), "header")
            return
        if len(lines) != len(on_disk):
            bad(rep, e, "%d rows after step %d, expected %d" % (len(lines) - 1, i + 1, len(on_disk) - 1), "rows", t=S[i].t)
            return
        for a, b in zip(rows[1:], on_disk[1:]):
            v = [float(x) for x in a]
            rep.see("cells", len(v))
            if len(v) != len(b) or not np.allclose(v, [float(x) for x in b], rtol=1e-9, atol=0):
                bad(rep, e, "row %s on disk, computed %s" % (a, b), "value", t=S[i].t)
                return


def txt(rep, e, S, mod, spec, snaps, stale):
    m = mod.m
    steady = not spec["settings"].get("transient", True)
    ft = spec["settings"].get("final_time")
    times = sorted(e["times"]) if e.get("times") else None
    dg = spec["settings"].get("chemical_pot") or spec["settings"].get("traps_element_type", "CG") == "DG"
    # expected abscissae
    xs, owner = [], []
    borders = set()
    for mt in spec["materials"]:
        b = mt.get("borders")
        if b:
            for bb in (b if isinstance(b[0], list) else [b]):
                borders |= set(bb)
    order = np.argsort(m.X[:, 0])
    size = float(np.ptp(m.X[:, 0]))
    for a in order:
        x = float(m.X[a, 0])
        cs = [tuple(q) for q in np.argwhere(m.cells == a)]
        dup = dg and len(cs) > 1 and (not e.get("filter", True) or any(abs(x - b) < 1e-9 * size for b in borders))
        for _ in range(2 if dup else 1):
            xs.append(x)
        owner.append((x, 2 if dup else 1, cs))
    cols, on_disk = [], None
    for t in times or []:
        if not steady and not any(close(t, st.t) for st in S):
            bad(rep, e, "no step at the requested time %.9g (final time %.9g)" % (t, ft), "times")
            return
    for i, st in enumerate(S):
        due = times is None or steady or any(close(t, st.t) for t in times)
        if times is not None and steady:
            due = any(close(t, st.t) for t in times)
        if due:
            cols.append(st)
            last = steady or (close(st.t, ft) if times is None else close(st.t, times[-1]))
            if not e.get("write_at_last") or last:
                on_disk = list(cols)
        got = snaps[i][e["filename"]]
        rep.see("snapshots")
        if on_disk is None:
            if got is not None and e["filename"] not in stale:
                bad(rep, e, "file exists at step %d, before its first export" % (i + 1), "early", t=st.t)
                return
            continue
        if got is None:
            bad(rep, e, "no file after step %d" % (i + 1), "missing", t=st.t)
            return
        lines = got.strip("\n").split("\n")
        fmt = e.get("header_format", ".2e")
        head = ",".join(["x"] + (["t=steady"] if steady else ["t=%ss" % format(c.t, fmt) for c in on_disk]))
        if lines[0] != head:
            bad(rep, e, "header %r, expected %r" % (lines[0], head), "header", t=st.t)
            return
        A = np.array([[float(v) for v in l.split(",")] for l in lines[1:]])
        if A.shape != (len(xs), 1 + len(on_disk)):
            bad(rep, e, "table of shape %s, expected %s" % (A.shape, (len(xs), 1 + len(on_disk))), "shape", t=st.t)
            return
        if not np.allclose(A[:, 0], xs, rtol=1e-12, atol=1e-12 * size):
            bad(rep, e, "abscissae differ from the mesh vertices in increasing order", "x")
            return
        for j, c in enumerate(on_disk):
            fv = pick(c, mod, e["field"])
            tol = 1e-7 * float(np.max(np.abs(fv))) + 1e-300
            k = 0
            for x, n, cs in owner:
                v = sorted(A[k:k + n, 1 + j])
                w = [fv[q] for q in cs]
                k += n
                rep.see("cells", n)
                ok = (any(abs(v[0] - q) <= tol for q in w) if n == 1 else
                      max(abs(a - b) for a, b in zip(v, sorted(w))) <= tol)
                if not ok:
                    bad(rep, e, "%s at x=%.6g in the column of t=%.6g is %s, reported %s" % (e["field"], x, c.t, v, w), "value")
                    return


def want_density(mod, ti, st, dg):
    """L2 projection of the density (zero outside the trap's materials)"""
    m = mod.m
    nq = np.zeros((m.nc, len(m.w)))
    for mi, k0, Ek, p0, Ep, d in mod.trap_params(ti):
        sel = mod.cells_of(mi)
        if d is None:
            nq[sel] = m.q(st.n[ti])[sel]
        else:
            # the user's expression, quadratic per cell, at the current time
            nq[sel] = ev(d, m.Xq[sel], st.t)
    b = mod.vol_rows(nq)
    if dg:
        M = np.einsum("q,qa,qb->ab", m.w, m.bary, m.bary)
        return np.linalg.solve(M, (b / m.vol[:, None]).T).T
    M = np.zeros((m.nv, m.nv))
    loc = np.einsum("cq,qa,qb->cab", m.wq, m.bary, m.bary)
    for c, cell in enumerate(m.cells):
        M[np.ix_(cell, cell)] += loc[c]
    return np.linalg.solve(M, m.rows_cg(b))[m.cells]


def xdmf(rep, e, S, mod, spec, r):
    m = mod.m
    mode = e.get("mode", 1)
    steps = [i for i in range(len(S)) if (last_step(S, spec, i) if mode == "last" else i % mode == 0)]
    p = path_of(e)
    xml = read(p)
    if xml is None:
        bad(rep, e, "no file %s" % p, "missing")
        return
    lab = label_of(e)
    ts = [float(v) for v in re.findall(r'<Time Value="([^"]+)"', xml)]
    want = [S[i].t for i in steps]
    rep.see("xdmf_steps", len(want))
    if len(ts) != len(want) or not np.allclose(ts, want, rtol=1e-9, atol=0):
        bad(rep, e, "holds times %s, expected %s" % (ts[:8], want[:8]), "times")
        return
    if e.get("checkpoint", True):
        # the helpers a user has to look into a file
        if not np.allclose(F.extract_xdmf_times(p), want, rtol=1e-9, atol=0) or F.extract_xdmf_labels(p) != [lab]:
            bad(rep, e, "extract_xdmf_times and extract_xdmf_labels give %s and %s" % (F.extract_xdmf_times(p)[:8], F.extract_xdmf_labels(p)), "helpers")
            return
        rep.see("files_inspected")
    if lab not in xml:
        bad(rep, e, "label %r not in the file" % lab, "label")
        return
    chem = spec["settings"].get("chemical_pot")
    dgt = spec["settings"].get("traps_element_type", "CG") == "DG"
    fld = e.get("field")
    if e["kind"] == "density":
        dg = dgt
    elif fld == "T":
        dg = False
    elif fld == "retention":
        dg = True if (len(mod.traps) or chem) else False
    elif fld in ("solute", "0", 0):
        dg = bool(chem)
    else:
        dg = dgt
    for k, i in enumerate(steps):
        st = S[i]
        fv = want_density(mod, e["trap"], st, dg) if e["kind"] == "density" else pick(st, mod, fld)
        tol = (1e-5 if e["kind"] == "density" else 1e-7) * float(np.max(np.abs(fv))) + 1e-300
        rep.see("xdmf_fields")
        if e.get("checkpoint", True):
            fn = f.Function(f.FunctionSpace(r.model.mesh.mesh, "DG" if dg else "CG", 1))
            try:
                with f.XDMFFile(p) as fh:
                    fh.read_checkpoint(fn, lab, k)
            except RuntimeError as err:
                bad(rep, e, "step %d cannot be read back: %s" % (k, str(err)[-200:]), "unreadable")
                return
            got = cell_values(fn)
            err = float(np.max(np.abs(got - fv)))
        else:
            h5 = f.HDF5File(f.MPI.comm_world, p[:-5] + ".h5", "r")
            v = f.Vector()
            h5.read(v, "/VisualisationVector/%d" % k, False)
            got = v.get_local()
            h5.close()
            err = 0.0
            if len(got) != m.nv:
                bad(rep, e, "%d values for %d vertices" % (len(got), m.nv), "shape")
                return
            for a in range(m.nv):
                w = [fv[tuple(q)] for q in np.argwhere(m.cells == a)]
                err = max(err, min(abs(got[a] - q) for q in w))
        if not err <= tol:
            bad(rep, e, "stored field at t=%.6g differs from the reported one by %.3g" % (st.t, err), "value", tolerance=tol)
            return
