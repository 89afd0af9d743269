"""Reference semantics in numpy: the documented equations, discretised as
backward Euler + P1 Galerkin, written from the documentation and the user's
inputs only.  `Residual` evaluates, for two successive recorded states, what is
left over in every equation row.  No FESTIM object is consulted."""
import numpy as np
from .expr import ev, prop_np, np_fun

K_B = 8.6173303e-5


def as_list(v):
    return v if isinstance(v, list) else [v]


class P1:
    def __init__(self, X, cells, spec):
        self.X = np.asarray(X, float)
        self.cells = np.asarray(cells, int)
        self.dim = d = self.X.shape[1]
        self.nv = len(self.X)
        self.nc = len(self.cells)
        self.spec = spec
        P = self.X[self.cells]  # (nc, d+1, d)
        J = np.transpose(P[:, 1:] - P[:, :1], (0, 2, 1))
        det = np.linalg.det(J)
        fact = {1: 1, 2: 2, 3: 6}[d]
        self.vol = np.abs(det) / fact
        G = np.linalg.inv(J)  # rows: grad of barycentric 1..d
        self.grad = np.concatenate([-G.sum(1, keepdims=True), G], axis=1)  # (nc, d+1, d)
        self.bary, self.w = simplex_rule(d)
        self.Xq = np.einsum("qa,cad->cqd", self.bary, P)
        self.wq = self.w[None, :] * self.vol[:, None]
        mid = P.mean(1)
        self.mid = mid
        self.vid = np.array([expected_volume(spec, m) for m in mid])
        self.facets()

    def facets(self):
        from itertools import combinations
        d = self.dim
        seen = {}
        for c, cell in enumerate(self.cells):
            for loc in combinations(range(d + 1), d):
                key = tuple(sorted(cell[list(loc)]))
                seen.setdefault(key, []).append((c, loc))
        self.bfacets = {}
        fb, fw = simplex_rule(d - 1) if d > 1 else (np.ones((1, 1)), np.ones(1))
        self.fb, self.fw = fb, fw
        for key, l in seen.items():
            if len(l) != 1:
                continue
            c, loc = l[0]
            pts = self.X[list(self.cells[c][list(loc)])]
            mid = pts.mean(0)
            opp = [a for a in range(d + 1) if a not in loc][0]
            g = self.grad[c, opp]
            n = -g / np.linalg.norm(g)
            if d == 1:
                meas = 1.0
            elif d == 2:
                meas = np.linalg.norm(pts[1] - pts[0])
            else:
                meas = 0.5 * np.linalg.norm(np.cross(pts[1] - pts[0], pts[2] - pts[0]))
            sid = expected_surface(self.spec, mid)
            xq = np.einsum("qa,ad->qd", fb, pts)
            self.bfacets.setdefault(sid, []).append((c, list(loc), meas, n, xq))

    def q(self, f):
        return np.einsum("qa,ca->cq", self.bary, f)

    def g(self, f):
        return np.einsum("cad,ca->cd", self.grad, f)

    def nodal(self, expr, t):
        return ev(expr, self.X, t)[self.cells]

    def rows_cg(self, contrib):
        """(nc, d+1) element vectors -> nodal rows"""
        out = np.zeros(self.nv)
        np.add.at(out, self.cells, contrib)
        return out

    def surface_nodes(self, sid):
        s = set()
        for c, loc, *_ in self.bfacets.get(sid, []):
            s |= set(self.cells[c][loc])
        return sorted(s)


def simplex_rule(d):
    if d == 1:
        x, w = np.polynomial.legendre.leggauss(6)
        x = 0.5 * (x + 1)
        return np.stack([1 - x, x], 1), 0.5 * w
    x, w = np.polynomial.legendre.leggauss(5)
    x = 0.5 * (x + 1)
    w = 0.5 * w
    if d == 2:
        B, W = [], []
        for i in range(5):
            for j in range(5):
                a = x[i]
                b = x[j] * (1 - a)
                B.append([1 - a - b, a, b])
                W.append(w[i] * w[j] * (1 - a) * 2)
        return np.array(B), np.array(W)
    B, W = [], []
    x, w = np.polynomial.legendre.leggauss(4)
    x = 0.5 * (x + 1)
    w = 0.5 * w
    for i in range(4):
        for j in range(4):
            for k in range(4):
                a = x[i]
                b = x[j] * (1 - a)
                c = x[k] * (1 - a - b)
                B.append([1 - a - b - c, a, b, c])
                W.append(w[i] * w[j] * w[k] * (1 - a) * (1 - a - b) * 6)
    return np.array(B), np.array(W)


def expected_volume(spec, mid):
    """which subdomain the user's description puts this point in"""
    m = spec["mesh"]
    if m["kind"] != "1d":
        from .build import nd_volume
        return nd_volume(m, mid)
    x = mid[0]
    for mat in spec["materials"]:
        b = mat.get("borders")
        if b is None:
            return mat["id"] if not isinstance(mat["id"], list) else mat["id"][0]
        bl = b if isinstance(b[0], list) else [b]
        ids = mat["id"] if isinstance(mat["id"], list) else [mat["id"]] * len(bl)
        for (a, e), i in zip(bl, ids):
            if a <= x <= e:
                return i
    return 0


def expected_surface(spec, mid):
    m = spec["mesh"]
    if m["kind"] != "1d":
        from .build import nd_surface
        return nd_surface(m, mid)
    if "vertices" in m:
        a, b = min(m["vertices"]), max(m["vertices"])
    else:
        a, b = m.get("x0", 0.0), m["x1"]
    return 1 if abs(mid[0] - a) < abs(mid[0] - b) else 2


class Rows:
    """Signed residual and magnitude scale per row, with the term breakdown."""

    def __init__(self, shape):
        self.R = np.zeros(shape)
        self.scale = np.zeros(shape)
        self.terms = {}

    def add(self, name, val, mag=None):
        mag = np.abs(val) if mag is None else mag
        self.R = self.R + val
        self.scale = self.scale + mag
        self.terms[name] = self.terms.get(name, 0) + val

    def signif(self):
        s = self.scale + 1e-300
        return {k: float(np.max(np.abs(v) / s)) for k, v in self.terms.items()}


class State:
    """t, c (cell-wise conc), theta (cell-wise primary unknown), ct list, T,
    n (extrinsic densities), s (adsorbed, by surface id)"""
    pass


class Model:
    """the user's model, interpreted"""

    def __init__(self, spec, X, cells):
        self.spec = spec
        self.m = P1(X, cells, spec)
        self.typ = spec["mesh"].get("type", "cartesian")
        self.set = spec["settings"]
        self.transient = self.set.get("transient", True)
        self.chem = self.set.get("chemical_pot", False)
        self.mats = spec["materials"]
        self.mat_of_cell = np.array([self._mat_index(v) for v in self.m.vid])
        self.traps = spec.get("traps", [])

    def _mat_index(self, vid):
        for i, mt in enumerate(self.mats):
            if vid in as_list(mt["id"]):
                return i
        return -1

    def cells_of(self, mi):
        return self.mat_of_cell == mi

    def per_cell(self, key):
        return np.array([self.mats[i][key] for i in self.mat_of_cell])

    # ---- test-function gradient including the coordinate weight
    def gradtest(self):
        """(nc, q, a, d): r^k grad(v / r^k)"""
        m = self.m
        g = np.broadcast_to(m.grad[:, None], (m.nc, len(m.w), m.dim + 1, m.dim)).copy()
        k = {"cartesian": 0, "cylindrical": 1, "spherical": 2}[self.typ]
        if k:
            r = m.Xq[..., 0]
            g[..., 0] -= k * m.bary[None] / r[..., None]
        return g

    def rounding(self, coef, uq, gv):
        """1e-7 of a gradient term before anything cancels in it (times the
        relative row tolerance: far below any effect, above rounding)"""
        m = self.m
        G = np.linalg.norm(m.grad, axis=2).sum(axis=1)
        return 1e-7 * m.rows_cg(np.einsum("cq,cq,c,cqa->ca", np.abs(coef * uq), np.abs(m.wq), G, np.linalg.norm(gv, axis=3)))

    def S_q(self, Tq):
        S0 = self.per_cell("S_0")[:, None]
        ES = self.per_cell("E_S")[:, None]
        return S0 * np.exp(-ES / K_B / Tq)

    def conc_q(self, st):
        """concentration and its gradient at quadrature points"""
        m = self.m
        if not self.chem:
            return m.q(st.c), np.broadcast_to(m.g(st.c)[:, None], (m.nc, len(m.w), m.dim))
        th, gth = m.q(st.theta), m.g(st.theta)
        Tq, gT = m.q(st.T), m.g(st.T)
        S = self.S_q(Tq)
        ES = self.per_cell("E_S")[:, None]
        dS = S * ES / K_B / Tq ** 2
        henry = np.array([self.mats[i].get("solubility_law", "sievert") == "henry" for i in self.mat_of_cell])[:, None]
        c = np.where(henry, th ** 2 * S, th * S)
        gc = np.where(henry[..., None], 2 * th[..., None] * S[..., None] * gth[:, None] + (th ** 2 * dS)[..., None] * gT[:, None],
                      S[..., None] * gth[:, None] + (th * dS)[..., None] * gT[:, None])
        return c, gc

    def surf_conc(self, st, c, loc):
        """concentration at the facet quadrature points of cell c"""
        m = self.m
        if not self.chem:
            return m.fb @ st.c[c, loc]
        mt = self.mats[self.mat_of_cell[c]]
        T = m.fb @ st.T[c, loc]
        S = mt["S_0"] * np.exp(-mt["E_S"] / K_B / T)
        th = m.fb @ st.theta[c, loc]
        return th ** 2 * S if mt.get("solubility_law", "sievert") == "henry" else th * S

    # ---- trap parameters
    def trap_params(self, ti):
        """list of (material index, k0, Ek, p0, Ep, density spec)"""
        t = self.traps[ti]
        ml = as_list(t["materials"])
        out = []
        for j, mi in enumerate(ml):
            pk = lambda key: t[key][j] if isinstance(t[key], list) else t[key]
            d = None
            if t.get("kind", "trap") == "trap":
                dd = t["density"]
                if isinstance(t["k_0"], list):
                    d = dd[j]
                else:
                    d = dd[0] if isinstance(dd, list) else dd
            out.append((mi, pk("k_0"), pk("E_k"), pk("p_0"), pk("E_p"), d))
        return out

    def reaction_q(self, ti, st, cq, Tq, nq_ext=None):
        """net trapping rate k c (n - ct) - p ct at quadrature points (0 outside)"""
        m = self.m
        out_k = np.zeros((m.nc, len(m.w)))
        out_p = np.zeros((m.nc, len(m.w)))
        ctq = m.q(st.ct[ti])
        for mi, k0, Ek, p0, Ep, d in self.trap_params(ti):
            sel = self.cells_of(mi)
            if d is None:
                nq = m.q(nq_ext)[sel]
            else:
                nq = ev(d, m.Xq[sel], st.t)
            k = k0 * np.exp(-Ek / K_B / Tq[sel])
            p = p0 * np.exp(-Ep / K_B / Tq[sel])
            out_k[sel] = k * cq[sel] * (nq - ctq[sel])
            out_p[sel] = p * ctq[sel]
        return out_k, out_p

    def vol_rows(self, fq):
        """int f v over cells -> (nc, a)"""
        return np.einsum("cq,cq,qa->ca", fq, self.m.wq, self.m.bary)

    def source_list(self, target):
        """user's sources acting on `target` ('0', trap position >=1, 'T')"""
        for s in self.spec.get("sources", []):
            k = s.get("kind", "source")
            if k == "decay":
                fld = s.get("field", "all")
            elif k == "implantation":
                fld = "0"
            else:
                fld = s["field"]
            if isinstance(target, int):
                lab = self.traps[target - 1].get("id", target)
                names = (lab, str(lab))
            else:
                names = {"0": ("0", 0, "solute", "mobile"), "T": ("T",)}[target]
            if fld in names or (k == "decay" and fld == "all" and target != "T"):
                yield s

    def source_q(self, s, t, conc_q=None):
        m = self.m
        vols = as_list(s["volume"])
        sel = np.isin(m.vid, vols)
        out = np.zeros((m.nc, len(m.w)))
        k = s.get("kind", "source")
        if k == "decay":
            out[sel] = -s["lambda"] * conc_q[sel]
        elif k == "implantation":
            X = m.Xq[sel]
            fl, de, wi = ev(s["flux"], X, t), ev(s["depth"], X, t), ev(s["width"], X, t)
            out[sel] = fl / (wi * np.sqrt(2 * np.pi)) * np.exp(-0.5 * ((X[..., 0] - de) / wi) ** 2)
        else:
            out[sel] = ev(s["value"], m.Xq[sel], t)
        # a volume listed twice would be applied twice
        return out

    def interp_err(self, s, t):
        """|g - P2 interpolant of g| at the quadrature points"""
        m = self.m
        sel = np.isin(m.vid, as_list(s["volume"]))

        def g(X):
            fl, de, wi = ev(s["flux"], X, t), ev(s["depth"], X, t), ev(s["width"], X, t)
            return fl / (wi * np.sqrt(2 * np.pi)) * np.exp(-0.5 * ((X[..., 0] - de) / wi) ** 2)

        V = m.X[m.cells]
        n = V.shape[1]
        gq = g(m.Xq)
        p2 = np.zeros_like(gq)
        for a in range(n):
            p2 += g(V[:, a])[:, None] * (m.bary[:, a] * (2 * m.bary[:, a] - 1))[None]
            for b in range(a + 1, n):
                p2 += g((V[:, a] + V[:, b]) / 2)[:, None] * (4 * m.bary[:, a] * m.bary[:, b])[None]
        return np.abs(gq - p2) * sel[:, None]

    # ---- mobile rows
    def mobile(self, prev, st, dt, n_ext=None):
        m = self.m
        A = lambda e: m.rows_cg(e)
        rows = Rows(m.nv)
        cq, gc = self.conc_q(st)
        Tq, gT = m.q(st.T), m.g(st.T)
        if self.transient:
            cqn, _ = self.conc_q(prev)
            e1, e2 = self.vol_rows(cq) / dt, self.vol_rows(cqn) / dt
            rows.add("transient", A(e1 - e2), A(np.abs(self.vol_rows((cq - cqn) / dt))) + 1e-3 * A(np.abs(e1)))
        D = self.per_cell("D_0")[:, None] * np.exp(-self.per_cell("E_D")[:, None] / K_B / Tq)
        gv = self.gradtest()
        dif = np.einsum("cq,cq,cqd,cqad->ca", D, m.wq, gc, gv)
        rows.add("diffusion", A(dif), A(np.abs(dif)) + self.rounding(D, cq, gv))
        if self.set.get("soret", False):
            Q = np.zeros_like(Tq)
            for i, mt in enumerate(self.mats):
                sel = self.cells_of(i)
                Q[sel] = prop_np(mt["Q"], Tq[sel])
            so = np.einsum("cq,cq,cd,cqad->ca", D * Q * cq / (K_B * Tq ** 2), m.wq, gT, gv)
            rows.add("soret", A(so), A(np.abs(so)))
        for ti in range(len(self.traps)):
            k, p = self.reaction_q(ti, st, cq, Tq, None if n_ext is None else n_ext.get(ti))
            rows.add("trapping", A(self.vol_rows(k)), A(np.abs(self.vol_rows(k))))
            rows.add("detrapping", -A(self.vol_rows(p)), A(np.abs(self.vol_rows(p))))
        for s in self.source_list("0"):
            e = self.vol_rows(self.source_q(s, st.t, cq))
            rows.add("source:" + s.get("kind", "source"), -A(e), A(np.abs(e)))
            if s.get("kind") == "implantation":
                # the profile is a gaussian: it reaches the form through a
                # quadratic interpolation on each cell
                rows.slack = getattr(rows, "slack", 0.0) + 3 * A(self.vol_rows(self.interp_err(s, st.t)))
        self.surface_terms(rows, prev, st, dt)
        return rows

    def flux_value(self, b, T, c, xq, t):
        """inward flux density of a flux boundary condition"""
        k = b["kind"]
        g = lambda v: ev(v, xq, t)
        if k == "flux":
            return g(b["value"])
        if k == "recomb":
            return -g(b["Kr_0"]) * np.exp(-g(b["E_Kr"]) / K_B / T) * c ** b["order"]
        if k == "dissoc":
            return g(b["Kd_0"]) * np.exp(-g(b["E_Kd"]) / K_B / T) * g(b["P"])
        if k == "mass":
            return -g(b["h"]) * (c - g(b["c_ext"]))
        if k == "convective":
            return -g(b["h"]) * (T - g(b["T_ext"]))
        if k == "custom_flux":
            prm = {q: g(v) for q, v in b.get("prms", {}).items()}
            return np_fun(b["function"])(T=T, solute=c, **prm) + 0 * T
        raise ValueError(k)

    def surface_terms(self, rows, prev, st, dt):
        m = self.m
        for b in self.spec.get("bcs", []):
            if b["kind"] in ("flux", "custom_flux") and b.get("field", 0) not in (0, "0", "solute"):
                continue
            if b["kind"] in ("flux", "recomb", "dissoc", "mass", "custom_flux"):
                for sid in as_list(b["surfaces"]):
                    out = np.zeros(m.nv)
                    for c, loc, meas, n, xq in m.bfacets.get(sid, []):
                        T = m.fb @ st.T[c, loc]
                        cc = self.surf_conc(st, c, loc)
                        J = self.flux_value(b, T, cc, xq, st.t)
                        out[m.cells[c][loc]] += np.einsum("q,q,qa->a", J, m.fw, m.fb) * meas
                    rows.add("bc:" + b["kind"], -out)
            elif b["kind"] == "surfkin":
                for sid in as_list(b["surfaces"]):
                    J = self.sk(b, sid, st)
                    for c, loc, meas, n, xq in m.bfacets.get(sid, []):
                        out = np.zeros(m.nv)
                        cc = self.surf_conc(st, c, loc)
                        out[m.cells[c][loc]] += J["bs"] - J["sb"]
                        rows.add("bc:surfkin", out)
                        if self.transient:
                            cn = self.surf_conc(prev, c, loc)
                            o2 = np.zeros(m.nv)
                            o2[m.cells[c][loc]] += b["lambda_IS"] * (cc - cn)[0] / dt
                            rows.add("bc:surfkin_lambda", o2)

    def sk(self, b, sid, st):
        m = self.m
        c, loc, meas, n, xq = m.bfacets[sid][0]
        T = (m.fb @ st.T[c, loc])[0]
        cm = self.surf_conc(st, c, loc)[0]
        cs = st.s[sid]
        prm = {q: ev(v, xq, st.t)[0] for q, v in b.get("prms", {}).items()}

        def rate(v):
            return np_fun(v)(T=T, cs=cs, cm=cm, **prm) if isinstance(v, str) else v

        return {"vs": rate(b["J_vs"]), "sb": rate(b["k_sb"]) * cs * (1 - cm / b["n_IS"]),
                "bs": rate(b["k_bs"]) * cm * (1 - cs / b["n_surf"])}

    def surf_rows(self, prev, st, dt):
        out = {}
        for b in self.spec.get("bcs", []):
            if b["kind"] != "surfkin":
                continue
            for sid in as_list(b["surfaces"]):
                r = Rows(1)
                J = self.sk(b, sid, st)
                if self.transient:
                    r.add("transient", np.array([(st.s[sid] - prev.s[sid]) / dt]),
                          np.array([abs(st.s[sid] - prev.s[sid]) / dt + 1e-3 * abs(st.s[sid]) / dt]))
                r.add("J_vs", np.array([-J["vs"]]))
                r.add("J_bs", np.array([-J["bs"]]))
                r.add("J_sb", np.array([J["sb"]]))
                out[sid] = r
        return out

    # ---- trap rows
    def trap(self, ti, prev, st, dt, n_ext=None):
        m = self.m
        dg = self.set.get("traps_element_type", "CG") == "DG"
        A = (lambda e: e) if dg else m.rows_cg
        shape = (m.nc, m.dim + 1) if dg else m.nv
        rows = Rows(shape)
        cq, _ = self.conc_q(st)
        Tq = m.q(st.T)
        ctq = m.q(st.ct[ti])
        if self.transient:
            ctn = m.q(prev.ct[ti])
            rows.add("transient", A(self.vol_rows((ctq - ctn) / dt)),
                     A(np.abs(self.vol_rows((ctq - ctn) / dt))) + 1e-3 * A(np.abs(self.vol_rows(ctq / dt))))
        else:
            mine = [p[0] for p in self.trap_params(ti)]
            out = ~np.isin(self.mat_of_cell, mine)
            e = self.vol_rows(np.where(out[:, None], ctq, 0.0))
            rows.add("zero_outside", A(e), A(np.abs(e)))
        k, p = self.reaction_q(ti, st, cq, Tq, None if n_ext is None else n_ext.get(ti))
        rows.add("trapping", -A(self.vol_rows(k)), A(np.abs(self.vol_rows(k))))
        rows.add("detrapping", A(self.vol_rows(p)), A(np.abs(self.vol_rows(p))))
        for s in self.source_list(ti + 1):
            e = self.vol_rows(self.source_q(s, st.t, ctq))
            rows.add("source:" + s.get("kind", "source"), -A(e), A(np.abs(e)))
        return rows

    # ---- heat rows
    def heat(self, prev, st, dt):
        m = self.m
        A = m.rows_cg
        rows = Rows(m.nv)
        Tq, gT = m.q(st.T), m.g(st.T)
        lam = np.zeros_like(Tq)
        rc = np.zeros_like(Tq)
        tr = self.spec["T"].get("transient", True)
        for i, mt in enumerate(self.mats):
            sel = self.cells_of(i)
            lam[sel] = prop_np(mt["thermal_cond"], Tq[sel])
            if tr:
                rc[sel] = prop_np(mt["rho"], Tq[sel]) * prop_np(mt["heat_capacity"], Tq[sel])
        if tr:
            e = self.vol_rows(rc * (Tq - m.q(prev.T)) / dt)
            rows.add("transient", A(e), A(np.abs(e)) + 1e-7 * A(np.abs(self.vol_rows(rc * Tq / dt))))
        gv = self.gradtest()
        dif = np.einsum("cq,cq,cd,cqad->ca", lam, m.wq, gT, gv)
        rows.add("conduction", A(dif), A(np.abs(dif)) + self.rounding(lam, Tq, gv))
        tt = st.t if tr else 0.0
        for s in self.source_list("T"):
            e = self.vol_rows(self.source_q(s, tt))
            rows.add("source", -A(e), A(np.abs(e)))
        for b in self.spec.get("bcs", []):
            if b["kind"] == "convective" or (b["kind"] in ("flux", "custom_flux") and b.get("field") == "T"):
                for sid in as_list(b["surfaces"]):
                    out = np.zeros(m.nv)
                    for c, loc, meas, n, xq in m.bfacets.get(sid, []):
                        T = m.fb @ st.T[c, loc]
                        J = self.flux_value(b, T, None, xq, tt)
                        out[m.cells[c][loc]] += np.einsum("q,q,qa->a", J, m.fw, m.fb) * meas
                    rows.add("bc:" + b["kind"], -out)
        return rows

    # ---- Dirichlet data
    def dirichlet(self, field_names, st, surf_T=True):
        """-> {node: [expected values]}: one per user condition on that node
        (several at a corner shared by two surfaces)"""
        m = self.m
        out = {}
        for b in self.spec.get("bcs", []):
            k = b["kind"]
            if k in ("dirichlet", "custom_dirichlet"):
                if b.get("field", 0) not in field_names:
                    continue
            elif k in ("sieverts", "henrys", "implantation"):
                if 0 not in field_names:
                    continue
            else:
                continue
            for sid in as_list(b["surfaces"]):
                for node in m.surface_nodes(sid):
                    x = m.X[node][None]
                    c, a = np.argwhere(m.cells == node)[0]
                    T = st.T[c, a] if st.T is not None else None
                    steady_T = "T" in field_names and not self.spec["T"].get("transient", True)
                    g = lambda v: ev(v, x, 0.0 if steady_T or not self.transient else st.t)[0]
                    if k == "dirichlet":
                        val = g(b["value"])
                    elif k == "sieverts":
                        val = b["S_0"] * np.exp(-b["E_S"] / K_B / T) * np.sqrt(g(b["pressure"]))
                    elif k == "henrys":
                        val = b["H_0"] * np.exp(-b["E_H"] / K_B / T) * g(b["pressure"])
                    elif k == "implantation":
                        D = b["D_0"] * np.exp(-b["E_D"] / K_B / T)
                        val = g(b["phi"]) * g(b["R_p"]) / D
                        if "Kr_0" in b:
                            Kr = b["Kr_0"] * np.exp(-b["E_Kr"] / K_B / T)
                            num = g(b["phi"])
                            if "Kd_0" in b:
                                num += b["Kd_0"] * np.exp(-b["E_Kd"] / K_B / T) * g(b["P"])
                            val += np.sqrt(num / Kr)
                    else:
                        prm = {q: g(v) for q, v in b.get("prms", {}).items()}
                        val = np_fun(b["function"])(T=T, **prm)
                    out.setdefault(node, []).append(float(val))
        return out

    # ---- initial state
    def initial(self, T0=None):
        m = self.m
        st = State()
        st.t = 0.0
        st.T = T0
        if T0 is None:
            Ts = self.spec["T"]
            if Ts["kind"] == "expr":
                st.T = m.nodal(Ts["value"], 0.0)
            elif Ts["kind"] == "heat" and Ts.get("transient", True):
                st.T = m.nodal(Ts["ic"], 0.0)
        ic = {}
        for i in self.spec.get("ics", []):
            ic[i["field"]] = i["value"]

        def get(*names):
            for n in names:
                if n in ic:
                    return ic[n]
            return 0.0

        c0 = get(0, "0", "solute")
        st.c = m.nodal(c0, 0.0)
        st.theta = None
        if self.chem:
            # L2 projection of c/S (sqrt for henry) on the P1 space
            Tq = m.q(st.T)
            S = self.S_q(Tq)
            henry = np.array([self.mats[i].get("solubility_law", "sievert") == "henry" for i in self.mat_of_cell])[:, None]
            cq = ev(c0, m.Xq, 0.0)
            fq = np.where(henry, np.sqrt(np.maximum(cq / S, 0)), cq / S)
            M = np.zeros((m.nv, m.nv))
            loc = np.einsum("cq,qa,qb->cab", m.wq, m.bary, m.bary)
            for c, cell in enumerate(m.cells):
                M[np.ix_(cell, cell)] += loc[c]
            st.theta = np.linalg.solve(M, m.rows_cg(self.vol_rows(fq)))[m.cells]
        st.ct = []
        for i, t in enumerate(self.traps, 1):
            lab = t.get("id", i)
            st.ct.append(m.nodal(get(lab, str(lab)), 0.0))
        st.n = {i: np.zeros((m.nc, m.dim + 1)) for i, t in enumerate(self.traps) if t.get("kind", "trap") != "trap"}
        st.s = {}
        for b in self.spec.get("bcs", []):
            if b["kind"] == "surfkin":
                for sid in as_list(b["surfaces"]):
                    st.s[sid] = float(b["ic"])
        return st

    # ---- extrinsic trap density ODE rows (nodal)
    def density(self, ti, nprev, n, T, dt, t):
        m = self.m
        tr = self.traps[ti]
        rows = Rows(m.nv)
        A = m.rows_cg
        nq, npq = m.q(n), m.q(nprev)
        g = lambda v: ev(v, m.Xq, t)
        e = self.vol_rows((nq - npq) / dt)
        rows.add("transient", A(e), A(np.abs(e)) + 1e-3 * A(np.abs(self.vol_rows(nq / dt))))
        if tr["kind"] == "extrinsic":
            ca = g(tr["phi_0"]) * (1 - nq / g(tr["n_amax"])) * g(tr["eta_a"]) * g(tr["f_a"])
            cb = g(tr["phi_0"]) * (1 - nq / g(tr["n_bmax"])) * g(tr["eta_b"]) * g(tr["f_b"])
            rows.add("create_a", -A(self.vol_rows(ca)), A(np.abs(self.vol_rows(ca))))
            rows.add("create_b", -A(self.vol_rows(cb)), A(np.abs(self.vol_rows(cb))))
        else:
            cr = g(tr["phi"]) * g(tr["K"]) * (1 - nq / g(tr["n_max"]))
            an = g(tr["A_0"]) * np.exp(-g(tr["E_A"]) / K_B / m.q(T)) * nq
            rows.add("create", -A(self.vol_rows(cr)), A(np.abs(self.vol_rows(cr))))
            rows.add("anneal", A(self.vol_rows(an)), A(np.abs(self.vol_rows(an))))
        return rows
