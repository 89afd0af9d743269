"""every derived quantity against its documented functional of the reported fields"""
import numpy as np
import festim as F
from ..build import execute
from ..oracle import Report, states, mesh_arrays, monitor
from ..ref import Model, K_B, as_list
from ..expr import prop_np
from .common import result, cover_of, expect_times

PI = np.pi


def make_quantity(q):
    k, fld = q["kind"], q.get("field")
    kw = {}
    for n in ("azimuth_range", "polar_range"):
        if n in q:
            kw[n] = tuple(q[n])
    if k == "PointValue":
        x = q["x"]
        return F.PointValue(field=fld, x=x if q.get("as", "list") == "list" else (x[0] if q["as"] == "scalar" else tuple(x)))
    if k in ("HydrogenFlux", "ThermalFlux", "AdsorbedHydrogen"):
        return getattr(F, k)(surface=q["surface"])
    cls = getattr(F, k)
    if "volume" in q:
        return cls(field=fld, volume=q["volume"], **kw)
    return cls(field=fld, surface=q["surface"], **kw)


def pick(st, mod, fld):
    if fld == "T":
        return st.T
    if fld in (0, "0", "solute"):
        return st.c
    if fld == "retention":
        return st.c + sum(st.ct)
    for i, t in enumerate(mod.traps, 1):
        lab = t.get("id", i)
        if fld in (lab, str(lab)):
            return st.ct[i - 1]
    raise KeyError(fld)


def angular(q):
    k = q["kind"]
    if "Average" in k:
        return 1.0
    if "Cylindrical" in k:
        a = q.get("azimuth_range", (0, 2 * PI))
        return a[1] - a[0]
    if "Spherical" in k:
        if k.startswith("SurfaceFlux"):
            # documented: phi (azimuth) in [0, pi], theta (polar) in [-pi, pi]
            a = q.get("azimuth_range", (0, PI))
            p = q.get("polar_range", (-PI, PI))
            return (p[1] - p[0]) * (np.cos(a[0]) - np.cos(a[1]))
        a = q.get("azimuth_range", (0, 2 * PI))
        p = q.get("polar_range", (0, PI))
        return (a[1] - a[0]) * (np.cos(p[0]) - np.cos(p[1]))
    return 1.0


def power(k):
    return 1 if "Cylindrical" in k else 2 if "Spherical" in k else 0


def reference(q, st, mod):
    """-> (value, magnitude)"""
    m = mod.m
    k = q["kind"]
    if k == "AdsorbedHydrogen":
        v = st.s[q["surface"]]
        return v, abs(v)
    fld = {"HydrogenFlux": "solute", "ThermalFlux": "T"}.get(k, q.get("field"))
    fv = pick(st, mod, fld)
    gm = float(np.max(np.abs(fv)))
    far = 1e-6 * gm          # what a field is worth where it vanishes (rounding)
    if k == "PointValue":
        x = np.array(q["x"], float)
        P = m.X[m.cells]
        lam = np.einsum("cad,cd->ca", m.grad, x[None] - P[:, 0])
        lam[:, 0] += 1
        c = int(np.argmax(lam.min(1)))
        return float(lam[c] @ fv[c]), float(np.max(np.abs(fv[c]))) + far
    pw = power(k)
    if "volume" in q:
        sel = m.vid == q["volume"]
        if k.startswith("Max"):
            v = float(np.max(fv[sel]))
            return v, gm
        if k.startswith("Min"):
            v = float(np.min(fv[sel]))
            return v, gm
        W = m.wq[sel] * m.Xq[sel][..., 0] ** pw
        fq = m.q(fv)[sel]
        I, A, N = float(np.sum(W * fq)), float(np.sum(W * (np.abs(fq) + far))), float(np.sum(W))
        if k.startswith("Average"):
            return I / N, A / N
        return I * angular(q), A * abs(angular(q))
    I = A = N = 0.0
    ext = []
    extent = float(np.ptp(m.X, axis=0).max())
    for c, loc, meas, n, xq in m.bfacets.get(q["surface"], []):
        w = m.fw * meas * xq[:, 0] ** pw
        fq = m.fb @ fv[c, loc]
        ext += list(fv[c, loc])
        if "Flux" in k:
            mt = mod.mats[mod.mat_of_cell[c]]
            T = m.fb @ st.T[c, loc]
            eps = 1e-5 * float(np.linalg.norm(m.grad[c], axis=1).sum())     # rounding of a gradient
            if fld == "T":
                pr = prop_np(mt["thermal_cond"], T)
                A += float(np.sum(w * np.abs(pr))) * eps * float(np.max(np.abs(fv[c])))
                J = pr * float(m.grad[c].T @ fv[c] @ n)
            else:
                D = mt["D_0"] * np.exp(-mt["E_D"] / K_B / T)
                J = D * float(m.grad[c].T @ fv[c] @ n)
                A += float(np.sum(w * np.abs(D))) * (1e-2 / extent + eps) * (float(np.max(np.abs(fv[c]))) + far)
                if mod.set.get("soret"):
                    A += float(np.sum(w * np.abs(D * prop_np(mt["Q"], T) * fq / (K_B * T ** 2)))) * eps * float(np.max(np.abs(st.T[c])))
                    J = J + D * prop_np(mt["Q"], T) * fq / (K_B * T ** 2) * float(m.grad[c].T @ st.T[c] @ n)
            I += float(np.sum(w * J))
            A += float(np.sum(w * np.abs(J)))
        else:
            I += float(np.sum(w * fq))
            A += float(np.sum(w * (np.abs(fq) + far)))
        N += float(np.sum(w))
    if k.startswith("Max"):
        return max(ext), max(abs(e) for e in ext) + far
    if k.startswith("Min"):
        return min(ext), max(abs(e) for e in ext) + far
    if k.startswith("Average"):
        return I / N, A / N
    return I * angular(q), A * abs(angular(q))


def unit(q, dim):
    """documented units"""
    k = q["kind"]
    fld = {"HydrogenFlux": "solute", "ThermalFlux": "T"}.get(k, q.get("field"))
    T = fld == "T"

    def m_(base, p, tail=""):
        s = base + ("" if p == 0 else " m" if p == 1 else " m%d" % p)
        return s + tail
    if k == "AdsorbedHydrogen":
        return "H m-2"
    if k == "PointValue" or k.startswith(("Max", "Min", "Average")):
        return "K" if T else "H m-3"
    pw = power(k)
    if "Flux" in k:
        p = 0 if pw == 2 else dim - 3 + pw
        return m_("W", p) if T else m_("H", p, " s-1")
    if k.startswith("TotalVolume"):
        return m_("K", 3 if pw == 2 else dim + pw) if T else m_("H", 0 if pw == 2 else dim - 3 + pw)
    return m_("K", 2 if pw == 2 else dim - 1 + pw) if T else m_("H", 0 if pw == 2 else dim - 3 + pw)


def title(q, dim, units=True):
    k = q["kind"]
    fld = {"HydrogenFlux": "solute", "ThermalFlux": "T"}.get(k, q.get("field"))
    if k == "AdsorbedHydrogen":
        t = "Adsorbed H on surface %s" % q["surface"]
    elif k == "PointValue":
        x = q["x"] if q.get("as", "list") != "tuple" else tuple(q["x"])
        t = "%s value at %s" % (fld, x)
    elif "Flux" in k:
        t = ("Heat flux surface %s" % q["surface"]) if fld == "T" else "%s flux surface %s" % (fld, q["surface"])
    else:
        w = [p for p in ("Total", "Average", "Maximum", "Minimum") if k.startswith(p)][0]
        t = "%s %s %s" % (w, fld, "volume %s" % q["volume"] if "volume" in q else "surface %s" % q["surface"])
    return t + " (%s)" % unit(q, dim) if units else t


def run(case, wd):
    spec, qs = case["spec"], case["quantities"]
    objs = [make_quantity(q) for q in qs]
    cut = case.get("split", len(objs))
    dqs = []

    def exports(r):
        out = []
        for part in (objs[:cut], objs[cut:]):
            if part:
                out.append(F.DerivedQuantities(part, show_units=case.get("show_units", True)))
        dqs.extend(out)
        return out

    r = execute(spec, workdir=wd, cap=400, exports=exports)
    rep = Report()
    if not expect_times(rep, r):
        return result(rep, r, cover_of(case))
    X, cells = mesh_arrays(r)
    mod = Model(spec, X, cells)
    S = states(r, mod)[1:]
    rep.see("steps", len(S))
    dim = mod.m.dim
    heads = [h for d in dqs for h in (d.data[0][1:] if d.data else [])]
    for i, (q, o) in enumerate(zip(qs, objs)):
        name = "%s(%s)" % (q["kind"], ", ".join("%s=%s" % (a, b) for a, b in q.items() if a != "kind"))
        want_t = title(q, dim, case.get("show_units", True))
        got_t = heads[i] if i < len(heads) else None
        rep.see("titles")
        if got_t != want_t:
            rep.findings.append(dict(what="column of %s is titled %r instead of %r" % (name, got_t, want_t), mech="title:" + q["kind"]))
        if len(o.data) != len(S) or list(o.t) != list(r.times):
            rep.findings.append(dict(what="%s has %d values at times %s; the run had %d steps" % (name, len(o.data), list(o.t)[:6], len(S)),
                                     mech="history:" + q["kind"]))
            continue
        for kk, st in enumerate(S):
            want, mag = reference(q, st, mod)
            tol = 1e-5 * mag + 1e-300
            got = float(o.data[kk])
            err = abs(got - want) / tol
            rep.see("values")
            rep.see("q:" + q["kind"])
            rep.max[q["kind"]] = max(rep.max.get(q["kind"], 0.0), err)
            if not err <= 1:
                rep.findings.append(dict(what="%s at t=%.6g is %.9g; the reported fields give %.9g" % (name, st.t, got, want),
                                         mech="value:" + q["kind"], step=kk + 1, ratio_to_tolerance=err))
                break
    if any(q["kind"] == "AdsorbedHydrogen" for q in qs):
        # the adsorbed amount of a surface is only known through the quantity: it has to obey that surface's balance
        monitor(r, eqs=("surf",), rep=rep)
    for d, part in zip(dqs, [p for p in (list(zip(qs, objs))[:cut], list(zip(qs, objs))[cut:]) if p]):
        selections(rep, d, part)
    return result(rep, r, cover_of(case) + ["q=" + q["kind"] for q in qs])


def selections(rep, d, part):
    """DerivedQuantities.filter finds exactly the quantities asked for"""
    def values(key):
        return sorted({q[key] for q, _ in part if key in q}, key=str)

    def fld(q):
        return {"HydrogenFlux": "solute", "ThermalFlux": "T"}.get(q["kind"], q.get("field"))
    S, V, Fd, K = values("surface"), values("volume"), sorted({fld(q) for q, _ in part if fld(q) is not None}, key=str), values("kind")
    asks = [dict()]
    asks += [dict(surfaces=v) for v in S + ([S] if S else [])] + [dict(volumes=v) for v in V + ([V] if V else [])]
    asks += [dict(fields=v) for v in Fd + [Fd[:2]] if Fd] + [dict(instances=v) for v in K] + [dict(instances=K[:2])]
    asks += [dict(surfaces=S[0], volumes=V[0])] if S and V else []
    asks += [dict(surfaces=v, fields=Fd[-1]) for v in S[:2] if Fd] + [dict(volumes=v, instances=K[:3]) for v in V[:2]]
    asks += [dict(surfaces=max(S + V + [0]) + 5)]

    def has(want, got):
        return got in (want if isinstance(want, list) else [want])
    for a in asks:
        want = []
        for q, o in part:
            if "fields" in a and fld(q) is None:    # adsorbed hydrogen: no field is documented for it
                continue
            ok = ("surfaces" not in a or "surface" in q and has(a["surfaces"], q["surface"])) and \
                 ("volumes" not in a or "volume" in q and has(a["volumes"], q["volume"])) and \
                 ("fields" not in a or has(a["fields"], fld(q)))
            if "instances" in a:
                ok = ok and isinstance(o, tuple(getattr(F, k) for k in as_list(a["instances"])))
            if ok:
                want.append(o)
        kw = dict(a)
        if "instances" in kw:
            c = [getattr(F, k) for k in as_list(a["instances"])]
            kw["instances"] = c if isinstance(a["instances"], list) else c[0]
        got = d.filter(**kw)
        rep.see("selections")
        gl = got if isinstance(got, list) else [got]
        if "fields" in a:
            gl = [o for o in gl if not isinstance(o, F.AdsorbedHydrogen)]
        if len(gl) != len(want) or any(x is not y for x, y in zip(gl, want)) or (len(want) == 1 and isinstance(got, list) and len(got) == 1):
            rep.findings.append(dict(what="filter(%s) gives %s; the quantities asked for are %s" % (
                a, [type(o).__name__ for o in gl], [type(o).__name__ for o in want]), mech="filter"))
            return
