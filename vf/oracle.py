"""Online/offline monitors over a recorded run: replay every accepted step
through the reference semantics and report what is left over."""
import numpy as np
from .ref import Model, State, as_list, K_B


def mesh_arrays(r):
    m = r.model.mesh.mesh
    return m.coordinates().copy(), m.cells().copy()


def states(r, mod):
    """[initial, step 1, ...] as State objects (from the recorded probes)"""
    n = len(r.times)
    out = []
    for k in range(n):
        st = State()
        st.t = r.times[k]
        st.T = r.rec["T"][k]
        st.c = r.rec["c"][k]
        st.theta = r.rec["theta"][k] if mod.chem else None
        st.ct = [r.rec["t%d" % (i + 1)][k] for i in range(len(mod.traps))]
        st.n = {i: r.rec["n%d" % (i + 1)][k] for i, t in enumerate(mod.traps)
                if t.get("kind", "trap") != "trap"}
        st.s = {int(q[1:]): v[k] for q, v in r.rec.items() if q[0] == "s" and q[1:].isdigit()}
        out.append(st)
    T0 = None
    Ts = r.spec["T"]
    if Ts["kind"] == "xdmf" or (Ts["kind"] == "heat" and not Ts.get("transient", True)) or not mod.transient:
        T0 = out[0].T
    init = mod.initial(T0)
    return [init] + out


class Finding:
    def __init__(self, what, mech, **kw):
        self.d = dict(what=what, mech=mech, **kw)


def row_findings(name, rows, mask, tol, k, t, floor=0.0, slack=None):
    """compare |R| with tol*scale on unmasked rows"""
    R, S = np.abs(rows.R), rows.scale
    bad_tol = tol * S + floor + 1e-9 * float(np.max(S, initial=0.0)) + 1e-13 + (0 if slack is None else slack)
    ratio = np.where(mask, R / (bad_tol + 1e-300), 0.0)
    i = int(np.argmax(ratio))
    out = []
    mx = float(np.max(ratio)) if ratio.size else 0.0
    if mx > 1 or not np.isfinite(mx):
        out.append(dict(what="%s: equation row not satisfied" % name, mech="row:" + name.split("[")[0],
                        step=k, t=t, row=int(i), residual=float(rows.R.flat[i]), scale=float(S.flat[i]),
                        ratio_to_tolerance=mx,
                        terms={q: float(np.ravel(v)[i]) for q, v in rows.terms.items() if np.ndim(v)}))
    return mx, out


def coord_mask(mod):
    """rows that do not touch r=0 in curvilinear coordinates"""
    m = mod.m
    if mod.typ == "cartesian":
        return np.ones(m.nv, bool)
    bad_cells = (m.X[m.cells][:, :, 0] < 1e-12 * np.abs(m.X).max()).any(1)
    ok = np.ones(m.nv, bool)
    ok[np.unique(m.cells[bad_cells])] = False
    return ok


class Report:
    def __init__(self):
        self.findings = []
        self.obs = {}
        self.max = {}
        self.sig = {}

    def see(self, key, n=1):
        self.obs[key] = self.obs.get(key, 0) + n

    def mx(self, key, v):
        self.max[key] = max(self.max.get(key, 0.0), float(v))

    def rows(self, name, rows, mask, tol, k, t, floor=0.0, slack=None):
        mx, fs = row_findings(name, rows, mask, tol, k, t, floor, slack)
        base = name.split("[")[0]
        self.max[base] = max(self.max.get(base, 0.0), mx)
        self.see("rows:" + base, int(np.sum(mask)))
        for q, v in rows.signif().items():
            key = base + "/" + q
            self.sig[key] = max(self.sig.get(key, 0.0), v)
        self.findings += fs
        return mx


def dirichlet_mask(mod, names):
    ok = np.ones(mod.m.nv, bool)
    for b in mod.spec.get("bcs", []):
        k = b["kind"]
        if k in ("dirichlet", "custom_dirichlet"):
            if b.get("field", 0) not in names:
                continue
        elif k in ("sieverts", "henrys", "implantation"):
            if 0 not in names:
                continue
        else:
            continue
        for sid in as_list(b["surfaces"]):
            ok[mod.m.surface_nodes(sid)] = False
    return ok


MOB = (0, "0", "solute")


def nodal_of(m, cellv):
    out = np.zeros(m.nv)
    out[m.cells] = cellv
    return out


def monitor(r, eqs=("mobile", "trap", "heat", "density", "surf", "dirichlet", "T"),
            tol=2e-5, floor=None, rep=None):
    """run every requested monitor on every accepted step"""
    rep = rep or Report()
    floor = floor or {}
    X, cells = mesh_arrays(r)
    mod = Model(r.spec, X, cells)
    r.ref = mod
    S = states(r, mod)
    r.states = S
    m = mod.m
    cm = coord_mask(mod)
    mob_mask = dirichlet_mask(mod, MOB) & cm
    heat_mask = dirichlet_mask(mod, ("T",)) & cm
    heat = r.spec["T"]["kind"] == "heat"
    for k in range(1, len(S)):
        prev, st = S[k - 1], S[k]
        dt = st.t - prev.t if mod.transient else None
        # density seen by solve k is the one known after step k-1
        n_used = prev.n if mod.transient else st.n
        rep.see("steps")
        if "mobile" in eqs:
            rows = mod.mobile(prev, st, dt, n_used)
            rep.rows("mobile", rows, mob_mask, tol, k, st.t, floor.get("mobile", 0), getattr(rows, "slack", None))
        if "trap" in eqs:
            for ti in range(len(mod.traps)):
                rows = mod.trap(ti, prev, st, dt, n_used)
                lab = mod.traps[ti].get("id", ti + 1)
                mask = np.ones(rows.R.shape, bool)
                if rows.R.ndim == 1:
                    mask = dirichlet_mask(mod, (lab, str(lab)))
                rep.rows("trap[%d]" % (ti + 1), rows, mask, tol, k, st.t, floor.get("trap", 0), getattr(rows, "slack", None))
        if "heat" in eqs and heat:
            if mod.spec["T"].get("transient", True) or k == 1:
                rows = mod.heat(prev, st, dt)
                rep.rows("heat", rows, heat_mask, tol, k, st.t, floor.get("heat", 0))
        if "density" in eqs and mod.transient:
            for ti in st.n:
                rows = mod.density(ti, prev.n[ti], st.n[ti], st.T, dt, st.t)
                rep.rows("density[%d]" % (ti + 1), rows, np.ones(m.nv, bool), tol, k, st.t, floor.get("density", 0))
        if "surf" in eqs:
            for sid, rows in mod.surf_rows(prev, st, dt).items():
                rep.rows("surf[%d]" % sid, rows, np.ones(1, bool), tol, k, st.t, floor.get("surf", 0))
        if "T" in eqs:
            Ts = r.spec["T"]
            if Ts["kind"] == "expr":
                want = m.nodal(Ts["value"], st.t if mod.transient else 0.0)
                compare(rep, "temperature", st.T, want, 1e-9, k, st.t)
            elif Ts["kind"] == "xdmf":
                compare(rep, "temperature", st.T, m.nodal(Ts["fields"][-1], 0.0), 1e-9, k, st.t)
            elif not Ts.get("transient", True) and k > 1:
                compare(rep, "temperature", st.T, S[1].T, 1e-9, k, st.t)
        if "dirichlet" in eqs:
            check_dirichlet(rep, mod, st, k, tol)
    return rep


def compare(rep, name, got, want, tol, k, t, scale=None):
    rep.see("values:" + name, int(np.size(want)))
    s = np.maximum(np.abs(want), 0 if scale is None else scale)
    err = np.abs(np.asarray(got) - np.asarray(want))
    ratio = err / (tol * s + 1e-300)
    mx = float(np.max(ratio)) if np.size(ratio) else 0.0
    rep.max[name] = max(rep.max.get(name, 0.0), mx)
    if not np.isfinite(mx) or mx > 1:
        i = int(np.argmax(ratio))
        rep.findings.append(dict(what="%s: wrong value" % name, mech="value:" + name.split("[")[0], step=k, t=t,
                                 index=i, got=float(np.ravel(got)[i]), want=float(np.ravel(want)[i]),
                                 ratio_to_tolerance=mx))
    return mx


def check_dirichlet(rep, mod, st, k, tol):
    m = mod.m
    groups = [("c", MOB, None)]
    for i, t in enumerate(mod.traps):
        lab = t.get("id", i + 1)
        groups.append(("t", (lab, str(lab)), i))
    if mod.spec["T"]["kind"] == "heat":
        groups.append(("T", ("T",), None))
    for kind, names, i in groups:
        want = mod.dirichlet(names, st)
        if not want:
            continue
        for node, w in want.items():
            cs = np.argwhere(m.cells == node)
            got = []
            if kind == "c" and mod.chem:
                # each cell of the surface carries its own concentration; where
                # two materials meet at the surface the single unknown can only
                # match one of them
                on = _facet_cells(mod, node)
                by_mat = {}
                for c, a in cs:
                    if c not in on:
                        continue
                    mt = mod.mats[mod.mat_of_cell[c]]
                    Sv = mt["S_0"] * np.exp(-mt["E_S"] / K_B / st.T[c, a])
                    th = st.theta[c, a]
                    v = th ** 2 * Sv if mt.get("solubility_law", "sievert") == "henry" else th * Sv
                    by_mat.setdefault(int(mod.mat_of_cell[c]), []).append(v)
                cand = [max(v, key=lambda q: min(abs(q - e) for e in w)) for v in by_mat.values()]
                got = [min(cand, key=lambda q: min(abs(q - e) for e in w))] if cand else []
            else:
                arr = {"c": st.c, "t": None if i is None else st.ct[i], "T": st.T}[kind]
                got = [arr[c, a] for c, a in cs]
            for gv in got:
                best = min(w, key=lambda v: abs(v - gv))
                compare(rep, "dirichlet_" + kind, np.array([gv]), np.array([best]), max(tol, 1e-7), k, st.t, scale=1e-12 * max(abs(v) for v in w) + 1e-300)


def _facet_cells(mod, node):
    m = mod.m
    if not hasattr(m, "_fc"):
        m._fc = {}
        for sid, l in m.bfacets.items():
            for c, loc, *_ in l:
                for nd in m.cells[c][loc]:
                    m._fc.setdefault(nd, set()).add(c)
    return m._fc.get(node, ())
