import numpy as np
from .common import rows_case, result, cover_of
from ..oracle import compare
from ..ref import K_B


def run(case, wd):
    r, rep = rows_case(case, wd, eqs=("mobile", "trap"))
    if hasattr(r, "states"):
        concentration(r, rep)
    return result(rep, r, cover_of(case))


def concentration(r, rep):
    """what the user is shown is potential x solubility of the cell's own
    material and temperature (square for Henry), and the potential implied by
    the reported concentrations is the same on both sides of an interface"""
    mod, m = r.ref, r.ref.m
    M = np.einsum("q,qa,qb->ab", m.w, m.bary, m.bary)
    Mi = np.linalg.inv(M)
    steady_T = r.spec["T"]["kind"] == "expr" and "t" not in str(r.spec["T"]["value"]) or (
        r.spec["T"]["kind"] == "xdmf") or (
        r.spec["T"]["kind"] == "heat" and not r.spec["T"].get("transient", True))
    for k, st in enumerate(r.states[1:], 1):
        Tq = m.q(st.T)
        S = mod.S_q(Tq)
        if steady_T:
            # a time-independent solubility is itself projected (DG1) once
            S = np.einsum("qa,ab,qb,cq,q->cq", m.bary, Mi, m.bary, S, m.w) if False else m.q(
                np.einsum("ab,qb,cq,q->ca", Mi, m.bary, S, m.w))
        th = m.q(st.theta)
        henry = np.array([mod.mats[i].get("solubility_law", "sievert") == "henry" for i in mod.mat_of_cell])[:, None]
        c = np.where(henry, th ** 2, th) * S
        want = np.einsum("ab,qb,cq,q->ca", Mi, m.bary, c, m.w)
        # interpolation of a time-dependent solubility (degree 2) costs a little
        compare(rep, "concentration", st.c, want, 3e-4, k, st.t, scale=1e-3 * float(np.max(np.abs(want))))
        # potential recovered from reported concentrations only
        T, cc = st.T, st.c
        for a in range(m.nv):
            cs = np.argwhere(m.cells == a)
            mats = set(int(mod.mat_of_cell[c_]) for c_, _ in cs)
            if len(mats) < 2:
                continue
            pot = []
            for c_, l in cs:
                mt = mod.mats[mod.mat_of_cell[c_]]
                Sv = mt["S_0"] * np.exp(-mt["E_S"] / K_B / T[c_, l])
                v = cc[c_, l] / Sv
                # projection error on a coarse mesh: bounded by the cell's own
                # variation of S and theta
                pot.append(np.sqrt(max(v, 0)) if mt.get("solubility_law", "sievert") == "henry" else v)
            rep.see("interfaces")
            spread = max(pot) - min(pot)
            ref = max(abs(p) for p in pot)
            var = max(float(np.ptp(st.theta[c_])) + abs(ref) * 0.1 * float(np.ptp(T[c_])) / 50 for c_, _ in cs)
            # squares are projected per cell: off by up to 0.3 of the squared variation
            if spread > 1.3 * var + 1e-3 * ref:
                rep.findings.append(dict(what="chemical potential jumps across a material interface", mech="potential:jump",
                                         step=k, t=st.t, node=int(a), potentials=[float(p) for p in pot], allowed=float(1.3 * var)))
