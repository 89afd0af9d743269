"""hydrogen inventory, as FESTIM itself reports it, against what entered and left"""
import numpy as np
import festim as F
from ..build import execute
from ..oracle import Report, states, mesh_arrays
from ..ref import Model, as_list
from .common import result, cover_of, expect_times


def run(case, wd):
    spec = case["spec"]
    typ = spec["mesh"].get("type", "cartesian")
    vols = [v for m in spec["materials"] for v in as_list(m["id"])]
    cls = {"cartesian": F.TotalVolume, "cylindrical": F.TotalVolumeCylindrical}[typ]
    pw = {"cartesian": 0, "cylindrical": 1}[typ]
    labs = [t.get("id", i) for i, t in enumerate(spec.get("traps", []), 1)]
    tot = [cls("retention", v) for v in vols]
    sol = [cls("solute", v) for v in vols]
    trp = {l: [cls(l, v) for v in vols] for l in labs}
    if pw:
        for q in tot + sol + [x for l in trp.values() for x in l]:
            q.azimuth_range = (0, 1)
    ads = [F.AdsorbedHydrogen(surface=s) for b in spec["bcs"] if b["kind"] == "surfkin" for s in as_list(b["surfaces"])]
    lam = [(b["lambda_IS"], s) for b in spec["bcs"] if b["kind"] == "surfkin" for s in as_list(b["surfaces"])]
    extra = tot + sol + [x for l in trp.values() for x in l] + ads
    r = execute(spec, workdir=wd, cap=600, extra_quantities=extra)
    rep = Report()
    if not expect_times(rep, r):
        return result(rep, r, cover_of(case))
    X, cells = mesh_arrays(r)
    mod = Model(spec, X, cells)
    m = mod.m
    S = states(r, mod)
    W = m.wq * m.Xq[..., 0] ** pw

    def surf_c(st, sid):
        c, loc, *_ = m.bfacets[sid][0]
        return float(np.mean(mod.surf_conc(st, c, loc)))

    def inventory0(st):
        cq, _ = mod.conc_q(st)
        v = float(np.sum(W * cq)) + sum(float(np.sum(W * m.q(ct))) for ct in st.ct)
        for l, s in lam:
            v += st.s[s] + l * surf_c(st, s)
        return v

    I = [inventory0(S[0])]
    for k in range(len(r.times)):
        v = sum(float(q.data[k]) for q in tot) + sum(float(q.data[k]) for q in ads)
        v += sum(l * surf_c(S[k + 1], s) for l, s in lam)
        I.append(v)
        # retention is what is mobile plus what is in every trap
        parts = sum(float(q.data[k]) for q in sol) + sum(float(q.data[k]) for l in trp.values() for q in l)
        rt = sum(float(q.data[k]) for q in tot)
        rep.see("sums")
        if abs(parts - rt) > 1e-8 * (abs(rt) + abs(parts)):
            rep.findings.append(dict(what="retention %.10g at t=%.6g is not mobile + trapped = %.10g" % (rt, S[k + 1].t, parts), mech="retention"))
            return result(rep, r, cover_of(case))
    entered = gross = 0.0
    slack = 0.0
    U = case.get("units", dict(N=1.0, L=1.0))
    floor = 1e-12 * U["N"] * U["L"] ** m.dim
    for k in range(1, len(S)):
        st, dt = S[k], S[k].t - S[k - 1].t
        J = A = 0.0
        for b in spec["bcs"]:
            if b["kind"] in ("flux", "recomb", "dissoc", "mass", "custom_flux") and b.get("field", 0) in (0, "0", "solute"):
                for sid in as_list(b["surfaces"]):
                    for c, loc, meas, n, xq in m.bfacets.get(sid, []):
                        v = mod.flux_value(b, m.fb @ st.T[c, loc], mod.surf_conc(st, c, loc), xq, st.t)
                        w = m.fw * meas * xq[:, 0] ** pw
                        J += float(np.sum(w * v))
                        A += float(np.sum(w * np.abs(v)))
            elif b["kind"] == "surfkin":
                for sid in as_list(b["surfaces"]):
                    v = mod.sk(b, sid, st)["vs"]
                    J += v
                    A += abs(v)
        cq, _ = mod.conc_q(st)
        for tgt, conc in [("0", cq)] + [(i + 1, m.q(ct)) for i, ct in enumerate(st.ct)]:
            for s in mod.source_list(tgt):
                v = mod.source_q(s, st.t, conc)
                J += float(np.sum(W * v))
                A += float(np.sum(W * np.abs(v)))
                if s.get("kind") == "implantation":
                    slack += dt * float(np.sum(W * mod.interp_err(s, st.t)))
        entered += J * dt
        gross += A * dt
        rep.see("steps")
        rep.see("balances")
        tol = case.get("tol", 3e-7) * (abs(I[0]) + gross) + 3 * slack + floor
        d = I[k] - I[0] - entered
        rep.max["inventory"] = max(rep.max.get("inventory", 0), abs(d) / tol)
        rep.sig["exchange"] = max(rep.sig.get("exchange", 0), abs(entered) / (abs(I[0]) + floor))
        if not abs(d) <= tol:
            rep.findings.append(dict(what="inventory at t=%.6g is %.9g; initial %.9g plus what entered %.9g: off by %.3g" %
                                     (st.t, I[k], I[0], entered, d), mech="inventory", step=k, tolerance=tol))
            break
    return result(rep, r, cover_of(case))
