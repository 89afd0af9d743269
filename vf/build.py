"""Spec (JSON) -> real FESTIM model, plus the probes that record its run."""
import os
import copy
import warnings
import numpy as np
import fenics as f
import festim as F
from .expr import to_festim as E, of_T, vec_fun, ev

f.set_log_level(40)


class StepCap(Exception):
    pass


class FieldProbe(F.DerivedQuantity):
    """A user-defined derived quantity: FESTIM calls compute() at every accepted
    step; it records a private copy of the field's cell-wise vertex values."""

    def __init__(self, field, cap=2000):
        super().__init__(field)
        self.title = "probe " + str(field)
        self.records = []
        self.cap = cap

    def compute(self):
        if len(self.records) >= self.cap:
            raise StepCap("more than %d steps" % self.cap)
        self.records.append(cell_values(self.function))
        return 0.0


class CallProbe(F.DerivedQuantity):
    """records fn() at each accepted step (trap densities, solver calls...)."""

    def __init__(self, fn, field="solute", cap=2000):
        super().__init__(field)
        self.title = "callprobe"
        self.fn = fn
        self.records = []
        self.cap = cap

    def compute(self):
        if len(self.records) >= self.cap:
            raise StepCap("more than %d steps" % self.cap)
        self.records.append(self.fn())
        return 0.0


def cell_values(fn):
    if not isinstance(fn, f.Function):
        return None
    V = fn.function_space()
    vec = fn.vector().get_local()
    dm = V.dofmap()
    n = V.mesh().num_cells()
    return np.array([vec[dm.cell_dofs(c)] for c in range(n)])


# ---------------------------------------------------------------- mesh
def mesh_1d(spec):
    m = spec["mesh"]
    if "vertices" in m:
        return np.array(sorted(set(m["vertices"])))
    a, b, n = m.get("x0", 0.0), m["x1"], m["n"]
    v = np.linspace(a, b, n + 1)
    g = m.get("grade", 0.0)
    if g:
        s = (v - a) / (b - a)
        v = a + (b - a) * (s + g * np.sin(np.pi * s) / np.pi)
    extra = []
    for mat in spec["materials"]:
        bs = mat.get("borders")
        if bs is not None:
            for bb in (bs if isinstance(bs[0], list) else [bs]):
                extra += list(bb)
    v = np.unique(np.concatenate([v, np.array(extra, dtype=float)])) if extra else v
    # drop vertices nearly coincident with a border
    keep = [v[0]]
    ex = set(float(e) for e in extra) | {float(a), float(b)}
    h = (b - a) / n
    for w in v[1:]:
        if w - keep[-1] < 0.2 * h:
            if float(w) in ex and float(keep[-1]) not in ex:
                keep[-1] = w
            elif float(w) in ex:
                keep.append(w)
            continue
        keep.append(w)
    return np.array(keep)


def build_mesh(spec, workdir=None):
    m = spec["mesh"]
    typ = m.get("type", "cartesian")
    kind = m["kind"]
    if kind == "1d":
        v = mesh_1d(spec)
        if m.get("messy"):
            rng = np.random.default_rng(m["messy"])
            v = rng.permutation(np.concatenate([v, rng.choice(v, 3)]))
        return F.MeshFromVertices(list(v) if m.get("as_list", True) else v, type=typ)
    if kind == "rect":
        x0, y0 = m.get("x0", 0.0), m.get("y0", 0.0)
        mesh = f.RectangleMesh(f.Point(x0, y0), f.Point(x0 + m["lx"], y0 + m["ly"]),
                               m["nx"], m["ny"], m.get("diag", "right"))
    elif kind == "box":
        x0 = y0 = 0.0
        mesh = f.BoxMesh(f.Point(0, 0, 0), f.Point(m["lx"], m["ly"], m["lz"]), m["nx"], m["ny"], m["nz"])
    else:
        raise ValueError(kind)
    vm, sm = nd_markers(mesh, m)
    if m.get("via_xdmf"):
        vf = os.path.join(workdir, "vol.xdmf")
        sf = os.path.join(workdir, "surf.xdmf")
        if f.MPI.comm_world.size == 1:   # in parallel the files are those the serial twin has read
            vm.rename("f", "f")
            sm.rename("f", "f")
            with f.XDMFFile(vf) as fh:
                fh.write(vm)
            with f.XDMFFile(sf) as fh:
                fh.write(sm)
        return F.MeshFromXDMF(volume_file=vf, boundary_file=sf, type=typ)
    return F.Mesh(mesh=mesh, volume_markers=vm, surface_markers=sm, type=typ)


def nd_volume(m, X):
    """volume id of the cell with midpoint X (the user's own marking rule)"""
    x0, y0 = m.get("x0", 0.0), m.get("y0", 0.0)
    ids = m.get("vol_ids", [1])
    if len(ids) == 1:
        return ids[0]
    sx = x0 + m["lx"] * m.get("split_x", 0.5)
    if len(ids) == 2:
        return ids[0] if X[0] < sx else ids[1]
    sy = y0 + m["ly"] * m.get("split_y", 0.5)
    return ids[0] if X[0] < sx else (ids[1] if X[1] < sy else ids[2])


def nd_surface(m, X):
    x0, y0 = m.get("x0", 0.0), m.get("y0", 0.0)
    ids = m.get("surf_ids", [1, 2, 3, 4])
    eps = 1e-9 * (m["lx"] + m["ly"])
    if abs(X[0] - x0) < eps:
        return ids[0]
    if abs(X[0] - x0 - m["lx"]) < eps:
        return ids[1]
    if abs(X[1] - y0) < eps:
        return ids[2]
    if abs(X[1] - y0 - m["ly"]) < eps:
        return ids[3]
    return 0


def nd_markers(mesh, m):
    d = mesh.topology().dim()
    mesh.init(d - 1, d)
    vm = f.MeshFunction("size_t", mesh, d, 0)
    sm = f.MeshFunction("size_t", mesh, d - 1, 0)
    for c in f.cells(mesh):
        p = c.midpoint()
        vm[c] = nd_volume(m, [p.x(), p.y()])
    for ft in f.facets(mesh):
        p = ft.midpoint()
        if ft.exterior():
            sm[ft] = nd_surface(m, [p.x(), p.y()])
    return vm, sm


# ---------------------------------------------------------------- pieces
def build_material(ms):
    kw = {k: ms[k] for k in ("id", "D_0", "E_D", "S_0", "E_S", "borders", "solubility_law", "name") if k in ms}
    if "borders" in kw:
        kw["borders"] = copy.deepcopy(kw["borders"])
    for k in ("thermal_cond", "heat_capacity", "rho", "Q"):
        if k in ms:
            kw[k] = of_T(ms[k])
    return F.Material(**kw)


def build_bc(b):
    k = b["kind"]
    s = b["surfaces"]
    if k == "dirichlet":
        return F.DirichletBC(surfaces=s, value=E(b["value"]), field=b.get("field", 0))
    if k == "sieverts":
        return F.SievertsBC(surfaces=s, S_0=b["S_0"], E_S=b["E_S"], pressure=E(b["pressure"]))
    if k == "henrys":
        return F.HenrysBC(surfaces=s, H_0=b["H_0"], E_H=b["E_H"], pressure=E(b["pressure"]))
    if k == "implantation":
        kw = {q: b[q] for q in ("D_0", "E_D", "Kr_0", "E_Kr", "Kd_0", "E_Kd") if q in b}
        if "P" in b:
            kw["P"] = E(b["P"])
        return F.ImplantationDirichlet(surfaces=s, phi=E(b["phi"]), R_p=E(b["R_p"]), **kw)
    if k == "custom_dirichlet":
        fun = vec_fun(b["function"], ["T"])
        return F.CustomDirichlet(surfaces=s, function=fun, field=b.get("field", 0),
                                 **{q: E(v) for q, v in b.get("prms", {}).items()})
    if k == "flux":
        return F.FluxBC(surfaces=s, value=E(b["value"]), field=b.get("field", 0))
    if k == "recomb":
        return F.RecombinationFlux(Kr_0=E(b["Kr_0"]), E_Kr=E(b["E_Kr"]), order=b["order"], surfaces=s)
    if k == "dissoc":
        return F.DissociationFlux(Kd_0=E(b["Kd_0"]), E_Kd=E(b["E_Kd"]), P=E(b["P"]), surfaces=s)
    if k == "mass":
        return F.MassFlux(h_coeff=E(b["h"]), c_ext=E(b["c_ext"]), surfaces=s)
    if k == "convective":
        return F.ConvectiveFlux(h_coeff=E(b["h"]), T_ext=E(b["T_ext"]), surfaces=s)
    if k == "custom_flux":
        fun = vec_fun(b["function"], ["T", "solute"])
        return F.CustomFlux(surfaces=s, function=fun, field=b.get("field", 0),
                            **{q: E(v) for q, v in b.get("prms", {}).items()})
    if k == "surfkin":
        def rate(v):
            if isinstance(v, str):
                return vec_fun(v, ["T", "cs", "cm"])
            return v
        return F.SurfaceKinetics(k_sb=rate(b["k_sb"]), k_bs=rate(b["k_bs"]), lambda_IS=b["lambda_IS"],
                                 n_surf=b["n_surf"], n_IS=b["n_IS"], J_vs=rate(b["J_vs"]), surfaces=s,
                                 initial_condition=b["ic"],
                                 **{q: E(v) for q, v in b.get("prms", {}).items()})
    raise ValueError(k)


class Own(f.UserExpression):
    """a value the user computes in Python"""

    def __init__(self, v, dim, **kw):
        super().__init__(**kw)
        self.v, self.dim, self.t = v, dim, 0

    def eval(self, value, x):
        value[0] = float(ev(self.v, np.array([x[:self.dim]], float), self.t)[0])

    def value_shape(self):
        return ()


def as_object(v, how, mesh):
    """the value as an object of FEniCS instead of a number or sympy expression"""
    if how == "number" or not how:
        return E(v)
    if how == "function" and not (isinstance(v, str) and "t" in v):
        V = f.FunctionSpace(mesh, "CG", 2)
        fn = f.Function(V)
        fn.interpolate(Own(v, mesh.geometry().dim(), degree=2))
        return fn
    if how == "expression":
        import sympy as sp
        return f.Expression(sp.printing.ccode(E(v)), degree=2, t=0)
    return Own(v, mesh.geometry().dim(), degree=2)


def build_source(s, mesh=None):
    k = s.get("kind", "source")
    if k == "source":
        return F.Source(value=as_object(s["value"], s.get("as"), mesh), volume=s["volume"], field=s["field"])
    if k == "implantation":
        return F.ImplantationFlux(flux=E(s["flux"]), imp_depth=E(s["depth"]), width=E(s["width"]), volume=s["volume"])
    if k == "decay":
        kw = {"field": s["field"]} if "field" in s else {}
        return F.RadioactiveDecay(decay_constant=s["lambda"], volume=s["volume"], **kw)
    raise ValueError(k)


def build_trap(t, mats, mesh=None):
    def E_(v):
        return as_object(v, t.get("as"), mesh)
    def pick(i):
        m = mats[i]
        return m.name if t.get("by_name") else m
    ml = t["materials"]
    materials = [pick(i) for i in ml] if isinstance(ml, list) else pick(ml)
    kw = dict(k_0=copy.copy(t["k_0"]), E_k=copy.copy(t["E_k"]), p_0=copy.copy(t["p_0"]),
              E_p=copy.copy(t["E_p"]), materials=materials)
    if "id" in t:
        kw["id"] = t["id"]
    k = t.get("kind", "trap")
    if k == "trap":
        d = t["density"]
        kw["density"] = [E_(v) for v in d] if isinstance(d, list) else E_(d)
        return F.Trap(**kw)
    if k == "extrinsic":
        for q in ("phi_0", "n_amax", "n_bmax", "eta_a", "eta_b", "f_a", "f_b"):
            kw[q] = E_(t[q])
        for q in ("absolute_tolerance", "relative_tolerance", "maximum_iterations", "linear_solver"):
            if q in t:
                kw[q] = t[q]
        return F.ExtrinsicTrap(**kw)
    if k == "neutron":
        for q in ("phi", "K", "n_max", "A_0", "E_A"):
            kw[q] = E_(t[q])
        for q in ("absolute_tolerance", "relative_tolerance", "maximum_iterations", "linear_solver"):
            if q in t:
                kw[q] = t[q]
        return F.NeutronInducedTrap(**kw)
    raise ValueError(k)


def build_T(T):
    k = T["kind"]
    if k == "expr":
        v = E(T["value"])
        return F.Temperature(v) if T.get("wrap", True) else v
    if k == "heat":
        kw = {}
        for q in ("absolute_tolerance", "relative_tolerance", "maximum_iterations", "linear_solver"):
            if q in T:
                kw[q] = T[q]
        if isinstance(T.get("ic"), dict):
            i = T["ic"]
            kw["initial_condition"] = F.InitialCondition(field="T", value=i["file"], label=i["label"], time_step=i["time_step"])
        elif "ic" in T:
            kw["initial_condition"] = E(T["ic"]) if T.get("ic_plain", True) else F.InitialCondition(field="T", value=E(T["ic"]))
        h = F.HeatTransferProblem(transient=T.get("transient", True), **kw)
        if T.get("own_solver"):
            ns = f.NewtonSolver(f.MPI.comm_world)
            ns.parameters["error_on_nonconvergence"] = True
            for q, d in (("absolute_tolerance", 1e-3), ("relative_tolerance", 1e-10), ("maximum_iterations", 30)):
                ns.parameters[q] = T.get(q, d)
            h.newton_solver = ns
        return h
    if k == "xdmf":
        return F.TemperatureFromXDMF(T["path"], T["label"])
    raise ValueError(k)


def write_T_file(T, mesh, workdir):
    """the temperature history another code left in a file"""
    T["path"] = os.path.join(workdir or ".", "T_input.xdmf")
    V = f.FunctionSpace(mesh, "CG", 1)
    with f.XDMFFile(T["path"]) as fh:
        for i, v in enumerate(T["fields"]):
            fn = f.Function(V)
            X = V.tabulate_dof_coordinates().reshape(-1, mesh.geometry().dim())
            fn.vector().set_local(np.array(ev(v, X, 0.0), dtype=float))
            fn.vector().apply("insert")
            fh.write_checkpoint(fn, T["label"], float(i), f.XDMFFile.Encoding.HDF5, append=i > 0)


def build_dt(d):
    kw = {}
    for q, r in (("ratio", "stepsize_change_ratio"), ("dt_min", "dt_min"),
                 ("t_stop", "t_stop"), ("stop_max", "stepsize_stop_max")):
        if q in d:
            kw[r] = d[q]
    if "milestones" in d:
        kw["milestones"] = list(d["milestones"])
    if "max" in d:
        mx = d["max"]
        if isinstance(mx, (int, float)):
            kw["max_stepsize"] = mx
        else:  # [[t0, v0], [t1, v1]...]: value from t_i on (None = unlimited)
            def fn(t, mx=mx):
                v = None
                for ti, vi in mx:
                    if t >= ti:
                        v = vi
                return v
            kw["max_stepsize"] = fn
    return F.Stepsize(d["value"], **kw)


def build_settings(s):
    kw = {"absolute_tolerance": s.get("atol", 1e-10), "relative_tolerance": s.get("rtol", 1e-10)}
    for q in ("maximum_iterations", "transient", "final_time", "chemical_pot", "soret",
              "traps_element_type", "update_jacobian", "linear_solver", "preconditioner"):
        if q in s:
            kw[q] = s[q]
    return F.Settings(**kw)


class Run:
    pass


def build(spec, workdir=None, exports=None, probes=True, cap=2000, extra_quantities=()):
    """-> Run with .model and probes"""
    r = Run()
    r.spec = spec
    model = F.Simulation(log_level=40)
    r.model = model
    r.workdir = workdir
    r.mats = [build_material(m) for m in spec["materials"]]
    model.materials = r.mats if spec.get("materials_as", "list") == "list" else F.Materials(r.mats)
    model.mesh = build_mesh(spec, workdir)
    if spec["T"]["kind"] == "xdmf":
        write_T_file(spec["T"], model.mesh.mesh, workdir)
    model.T = build_T(spec["T"])
    r.traps = [build_trap(t, r.mats, model.mesh.mesh) for t in spec.get("traps", [])]
    model.traps = r.traps
    r.bcs = [build_bc(b) for b in spec.get("bcs", [])]
    if spec.get("assign") == "append":
        # the other documented way: fill the lists of the model in place
        model.boundary_conditions.extend(r.bcs)
    else:
        model.boundary_conditions = r.bcs
    r.sources = [build_source(s, model.mesh.mesh) for s in spec.get("sources", [])]
    ics = [
        F.InitialCondition(field=i["field"], value=i["file"], label=i["label"], time_step=i["time_step"]) if "file" in i
        else F.InitialCondition(field=i["field"], value=E(i["value"])) for i in spec.get("ics", [])]
    if spec.get("assign") == "append":
        for q in r.sources:
            model.sources.append(q)
        for q in ics:
            model.initial_conditions.append(q)
    else:
        model.sources, model.initial_conditions = r.sources, ics
    model.settings = build_settings(spec["settings"])
    if "dt" in spec:
        model.dt = build_dt(spec["dt"])
    ex = []
    r.probe = {}
    if probes:
        r.probe["T"] = FieldProbe("T", cap)
        r.probe["c"] = FieldProbe(spec.get("solute_label", "solute"), cap)
        for i, t in enumerate(spec.get("traps", []), 1):
            lab = t.get("id", i)
            r.probe["t%d" % i] = FieldProbe(lab if i % 2 else str(lab), cap)
            if t.get("kind", "trap") != "trap":
                tr = r.traps[i - 1]
                r.probe["n%d" % i] = CallProbe(lambda tr=tr: cell_values(tr.density[0]), "solute", cap)
        r.probe["theta"] = CallProbe(lambda: theta_values(model), "solute", cap)
        for bi, b in enumerate(spec.get("bcs", [])):
            if b["kind"] == "surfkin":
                ss = b["surfaces"] if isinstance(b["surfaces"], list) else [b["surfaces"]]
                for s_ in ss:
                    r.probe["s%d" % s_] = F.AdsorbedHydrogen(surface=s_)
        r.dq = F.DerivedQuantities(list(r.probe.values()) + list(extra_quantities))
        ex.append(r.dq)
    r.user_exports = exports(r) if callable(exports) else (exports or [])
    model.exports = ex + r.user_exports
    return r


def theta_values(model):
    """cell-wise values of the primary mobile unknown (c or c/S), if reachable"""
    try:
        u = model.h_transport_problem.u
        V = u.function_space()
        if V.num_sub_spaces() == 0:
            return cell_values(u)
        return cell_values(u.split()[0])
    except AttributeError:
        return None


def execute(spec, **kw):
    """initialise + run.  The outcome is recorded, never raised."""
    r = build(spec, **kw)
    r.error = None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r.model.initialise()
        after = spec.get("_after_init")
        if after is not None:
            after(r)
        try:
            r.model.run()
        except StepCap as e:
            r.error = e
    return collect(r)


def collect(r):
    r.times = list(r.dq.t)
    r.rec = {}
    for k, p in r.probe.items():
        r.rec[k] = p.data if k[0] == "s" and k[1:].isdigit() else p.records
    return r
