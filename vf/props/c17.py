"""contradictory or incomplete models are refused before anything is computed"""
import copy
import random
import warnings
import numpy as np
import fenics as f
import festim as F
from ..build import build, build_material, build_T
from ..oracle import Report
from .common import result, cover_of

V, T_, A, K, N = ValueError, TypeError, AttributeError, KeyError, NotImplementedError
ACTS = {}


class NotApplicable(Exception):
    pass


class Refused(Exception):
    pass


def act(*exc, when=None):
    def deco(fn):
        ACTS[fn.__name__] = (fn, exc)
        return fn
    return deco


def need(c):
    if not c:
        raise NotApplicable


# ---------------------------------------------------------------- time, temperature
@act(A)
def no_dt(r, g):
    need(r.model.settings.transient)
    r.model.dt = None


@act(A)
def dt_in_steady(r, g):
    need(not r.model.settings.transient)
    r.model.dt = g.choice([1, 0.5, F.Stepsize(.1)])


@act(A)
def no_final_time(r, g):
    need(r.model.settings.transient)
    r.model.settings.final_time = None


@act(A)
def no_temperature(r, g):
    r.model.T = None


@act(A)
def heat_without_start(r, g):
    need(isinstance(r.model.T, F.HeatTransferProblem) and r.model.T.transient)
    r.model.T.initial_condition = None


@act(T_)
def wrong_temperature_type(r, g):
    r.model.T = g.choice(["500", [500], "coucou", lambda t: 500])


@act(T_)
def wrong_dt_type(r, g):
    r.model.dt = g.choice(["1", [1], "coucou"])


# ---------------------------------------------------------------- boundary conditions
def new_bc(*a):
    """any condition on the same field; it is valid by itself"""
    try:
        return _new_bc(*a)
    except Exception as e:
        raise Refused("a valid boundary condition is refused: %r" % e)


def _new_bc(g, field, surfaces, one_d):
    if field == "T":
        return g.choice([
            lambda: F.DirichletBC(surfaces, 400, "T"), lambda: F.FluxBC(surfaces, value=1, field="T"),
            lambda: F.ConvectiveFlux(h_coeff=1, T_ext=300, surfaces=surfaces),
            lambda: F.CustomDirichlet(surfaces, lambda T: 400, field="T"),
            lambda: F.CustomFlux(surfaces, lambda T, solute: 1, field="T")])()
    opts = [
        lambda: F.DirichletBC(surfaces, 1, g.choice([0, "0"])), lambda: F.FluxBC(surfaces, value=1, field=g.choice([0, "0"])),
        lambda: F.RecombinationFlux(1, 0, 2, surfaces), lambda: F.DissociationFlux(1, 0, 1, surfaces),
        lambda: F.MassFlux(1, 1, surfaces), lambda: F.SievertsBC(surfaces, 1, 0, 1), lambda: F.HenrysBC(surfaces, 1, 0, 1),
        lambda: F.ImplantationDirichlet(surfaces, phi=1, R_p=1, D_0=1, E_D=0),
        lambda: F.CustomDirichlet(surfaces, lambda T: 1, field=g.choice([0, "0"])),
        lambda: F.CustomFlux(surfaces, lambda T, solute: 1, field=0)]
    if one_d:
        opts.append(lambda: F.SurfaceKinetics(1, 1, 1, 1, 1, 1, surfaces, 0))
    return g.choice(opts)()


@act(V)
def two_conditions_on_a_surface(r, g):
    strong = [b for b in r.bcs if isinstance(b, (F.DirichletBC, F.SurfaceKinetics))]
    need(strong)
    b = g.choice(strong)
    s = g.choice(list(b.surfaces))
    others = [q for q in (1, 2, 3, 4) if q not in b.surfaces][:1]
    surf = g.choice([s, [s], others + [s], [s] + others])
    c = new_bc(g, "T" if b.field == "T" else 0, surf, r.spec["mesh"]["kind"] == "1d")
    if str(b.field) not in ("T", "0"):
        c = F.DirichletBC(surf, 1, g.choice([int(b.field), str(b.field)]))
    bs = list(r.model.boundary_conditions)
    bs.insert(g.randint(0, len(bs)), c)
    r.model.boundary_conditions = bs


@act(V)
def dirichlet_twice_on_a_trap(r, g):
    need(r.traps)
    i = g.randint(1, len(r.traps))
    r.model.boundary_conditions = list(r.model.boundary_conditions) + [
        F.DirichletBC([1, 2], 1, g.choice([i, str(i)])), F.DirichletBC(g.choice([1, [2], [2, 1]]), 2, g.choice([i, str(i)]))]


@act(V)
def condition_on_unknown_field(r, g):
    n = len(r.traps)
    bad = g.choice(["coucou", n + 1, str(n + 1), n + 7, -1, "t", "2T", "retention"])
    c = g.choice([F.DirichletBC, F.FluxBC])(g.choice([1, [2]]), value=1, field=bad)
    bs = list(r.model.boundary_conditions)
    bs.insert(g.randint(0, len(bs)), c)
    r.model.boundary_conditions = bs


@act(V)
def surface_kinetics_not_1d(r, g):
    need(r.spec["mesh"]["kind"] != "1d")
    r.model.boundary_conditions = [b for b in r.model.boundary_conditions if b.field == "T"] + [
        F.SurfaceKinetics(1, 1, 1, 1, 1, 1, g.choice([1, [1, 2]]), 0)]


@act(T_)
def heat_condition_without_heat(r, g):
    need(not isinstance(r.model.T, F.HeatTransferProblem))
    bs = list(r.model.boundary_conditions)
    bs.insert(g.randint(0, len(bs)), new_bc(g, "T", g.choice([1, 2, [1, 2]]), True))
    r.model.boundary_conditions = bs


@act(T_)
def heat_source_without_heat(r, g):
    need(not isinstance(r.model.T, F.HeatTransferProblem))
    ss = list(r.model.sources)
    ss.insert(g.randint(0, len(ss)), F.Source(1, volume=first(r), field="T"))
    r.model.sources = ss


def first(r):
    i = r.mats[0].id
    return i[0] if isinstance(i, list) else i


@act(K, V)
def source_on_unknown_field(r, g):
    n = len(r.traps)
    r.model.sources = list(r.model.sources) + [F.Source(1, volume=first(r), field=g.choice(["coucou", "97", 98, "retention", "all"]))]


@act(K, V)
def start_of_unknown_field(r, g):
    r.model.initial_conditions = list(r.model.initial_conditions) + [F.InitialCondition(field=g.choice(["coucou", "97", 98]), value=1)]


# ---------------------------------------------------------------- materials, layout
@act(V)
def same_material_id(r, g):
    need(len(r.mats) > 1)
    a, b = g.sample(range(len(r.mats)), 2)
    ia, ib = r.mats[a].id, r.mats[b].id
    one = g.choice(ia) if isinstance(ia, list) else ia
    if isinstance(ib, list):
        k = g.randrange(len(ib))
        r.mats[b].id = ib[:k] + [one] + ib[k + 1:]
    else:
        r.mats[b].id = one


@act(V)
def property_missing_in_one_material(r, g):
    need(len(r.mats) > 1)
    m = g.choice(r.mats)
    props = [q for q in ("thermal_cond", "heat_capacity", "rho", "Q", "S_0", "E_S") if getattr(m, q) is not None]
    need(props)
    # with traps, transport or heat forms would need the value before the check: any refusal is a refusal
    q = g.choice(props)
    heat = isinstance(r.model.T, F.HeatTransferProblem)
    need(not (heat and q in ("thermal_cond", "heat_capacity", "rho")))
    setattr(m, q, None)


@act(V)
def extra_property_in_one_material(r, g):
    need(len(r.mats) > 1)
    m = g.choice(r.mats)
    props = [q for q in ("thermal_cond", "heat_capacity", "rho", "Q") if getattr(m, q) is None]
    need(props)
    setattr(m, g.choice(props), 1.0)


@act(V)
def borders_missing(r, g):
    need(r.spec["mesh"]["kind"] == "1d" and len(r.mats) > 1)
    g.choice(r.mats).borders = None


def flat(r):
    out = []
    for m in r.mats:
        for j, b in enumerate(m.borders if isinstance(m.borders[0], list) else [m.borders]):
            out.append((m, j, b))
    return sorted(out, key=lambda q: q[2][0])


def off(r, g, b, end, factors):
    """move one end of the interval b"""
    w = (b[1] - b[0]) * g.choice(factors)
    b[end] = b[0] + w


@act(V)
def borders_with_gap_or_overlap(r, g):
    need(r.spec["mesh"]["kind"] == "1d" and r.mats[0].borders is not None)
    fl = flat(r)
    need(len(fl) > 1)
    k = g.randrange(len(fl) - 1)
    b = fl[k][2]
    off(r, g, b, 1, [.5, 1.3, .999, 1.001])


@act(V)
def borders_not_to_the_end(r, g):
    need(r.spec["mesh"]["kind"] == "1d" and r.mats[0].borders is not None)
    b = flat(r)[-1][2]
    off(r, g, b, 1, [.5, .9, 1.1, 2, .999, 1.001])


@act(V)
def borders_not_from_zero(r, g):
    need(r.spec["mesh"]["kind"] == "1d" and r.mats[0].borders is not None)
    b = flat(r)[0][2]
    off(r, g, b, 0, [.5, .1, .001])


@act(A)
def coordinates_beyond_dimension(r, g):
    k = r.spec["mesh"]["kind"]
    need(k in ("rect", "box"))
    r.model.mesh.type = "spherical" if k == "rect" else g.choice(["spherical", "cylindrical"])


@act(V, A, T_)
def heat_without_conductivity(r, g):
    need(isinstance(r.model.T, F.HeatTransferProblem))
    for m in r.mats:
        m.thermal_cond = None


@act(V, A, T_)
def transient_heat_without_capacity(r, g):
    need(isinstance(r.model.T, F.HeatTransferProblem) and r.model.T.transient)
    q = g.choice(["heat_capacity", "rho"])
    for m in r.mats:
        setattr(m, q, None)


@act(V)
def half_a_solubility(r, g):
    F.Material(id=1, D_0=1, E_D=0, **g.choice([dict(S_0=1), dict(E_S=0)]))


@act(V)
def unknown_solubility_law(r, g):
    F.Material(id=1, D_0=1, E_D=0, S_0=1, E_S=0, solubility_law=g.choice(["Henry", "sieverts", "coucou", "", None]))


# ---------------------------------------------------------------- traps
@act(V)
def trap_in_unknown_material(r, g):
    need(r.traps)
    t = g.choice([q for q in r.traps if isinstance(q.k_0, (int, float))] or [None])
    need(t is not None)
    t.materials = g.choice(["coucou", ["coucou"]])


@act(V)
def trap_twice_in_a_material(r, g):
    need(r.traps)
    t = g.choice([q for q in r.traps if isinstance(q.k_0, (int, float))] or [None])
    need(t is not None)
    m = g.choice(r.mats)
    if m.name is None:
        m.name = "some material"
    t.materials = g.choice([[m, m], [m.name, m], [m.name, m.name]])


@act(T_)
def trap_material_of_wrong_type(r, g):
    F.Trap(1, 0, 1, 0, density=1, materials=g.choice([1, [1], 1.0, [None], [True, "a"]]))


@act(N)
def henry_with_traps(r, g):
    need(r.traps and r.model.settings.chemical_pot)
    m = g.choice(r.traps).materials[0]
    m = [q for q in r.mats if q is m or q.name == m][0]
    m.solubility_law = "henry"


# ---------------------------------------------------------------- containers
@act(T_)
def wrong_thing_in_a_list(r, g):
    c = {"t": F.Traps, "m": F.Materials, "e": F.Exports, "d": F.DerivedQuantities}[g.choice("tmed")]
    bad = g.choice(["coucou", 1, None, [1], F.Stepsize(1)])
    how = g.choice(["init", "append", "insert", "extend", "set", "notlist"])
    good = {F.Traps: lambda: F.Trap(1, 0, 1, 0, density=1, materials="a"), F.Materials: lambda: F.Material(1, 1, 0),
            F.Exports: lambda: F.TXTExport("T", "a.txt"), F.DerivedQuantities: lambda: F.TotalVolume("T", 1)}[c]
    if how == "init":
        c([good(), bad])
    elif how == "notlist":
        c(g.choice(["coucou", 1, good()]))
    else:
        l = c([good()])
        if how == "append":
            l.append(bad)
        elif how == "insert":
            l.insert(0, bad)
        elif how == "extend":
            l.extend([good(), bad])
        else:
            l[0] = bad


@act(T_)
def wrong_thing_in_the_model(r, g):
    setattr(r.model, g.choice(["traps", "materials", "exports"]), g.choice(["coucou", 1, ["coucou"], [1], F.Stepsize(1)]))


# ---------------------------------------------------------------- exports
@act(V, T_)
def bad_file_name(r, g):
    g.choice([lambda: F.XDMFExport("solute", label="a", filename=g.choice(["a", "a.txt", "a.xdmf.h5", 1, ["a.xdmf"]])),
              lambda: F.TXTExport("solute", g.choice(["a", "a.csv", "a.txt.gz", 1])),
              lambda: F.DerivedQuantities([], filename=g.choice(["a", "a.txt", "csv", 1]))])()


@act(V)
def bad_xdmf_mode(r, g):
    F.XDMFExport("solute", label="a", filename="a.xdmf", mode=g.choice([0, -1, "first", "Last", 1.5, None, [1]]))


@act(T_)
def bad_xdmf_option(r, g):
    g.choice([lambda: F.XDMFExport("solute", label="a", filename="a.xdmf", checkpoint=g.choice(["True", 2, 1, 0, None])),
              lambda: F.XDMFExport("solute", label="a", filename="a.xdmf", folder=g.choice([1, ["a"], 2.5]))])()


@act(T_)
def quantity_on_no_subdomain(r, g):
    bad = g.choice(["1", 1.0, None, [1], True])
    cs = g.choice([(F.TotalVolume, "v"), (F.AverageVolume, "v"), (F.MaximumVolume, "v"), (F.MinimumVolume, "v"), (F.TotalSurface, "v"),
                   (F.AverageSurface, "v"), (F.MaximumSurface, "v"), (F.MinimumSurface, "v"), (F.SurfaceFlux, "v"),
                   (F.HydrogenFlux, "s"), (F.ThermalFlux, "s"), (F.AdsorbedHydrogen, "s"), (F.TotalVolumeCylindrical, "v"),
                   (F.TotalVolumeSpherical, "v"), (F.TotalSurfaceCylindrical, "v"), (F.TotalSurfaceSpherical, "v"),
                   (F.SurfaceFluxCylindrical, "v"), (F.SurfaceFluxSpherical, "v"), (F.AverageVolumeCylindrical, "v"),
                   (F.AverageVolumeSpherical, "v"), (F.AverageSurfaceCylindrical, "v")])
    cs[0](bad) if cs[1] == "s" else cs[0]("solute", bad)


@act(V)
def angles_out_of_range(r, g):
    pi = np.pi
    full, half, sym = [(-.1, 1), (0, 2 * pi + .1), (1, 7)], [(-.1, 1), (0, pi + .1), (1, 4)], [(-pi - .1, 1), (0, pi + .1)]
    c, kw = g.choice([
        (F.TotalVolumeCylindrical, dict(azimuth_range=g.choice(full))), (F.TotalSurfaceCylindrical, dict(azimuth_range=g.choice(full))),
        (F.SurfaceFluxCylindrical, dict(azimuth_range=g.choice(full))),
        (F.TotalVolumeSpherical, dict(azimuth_range=g.choice(full))), (F.TotalVolumeSpherical, dict(polar_range=g.choice(half))),
        (F.TotalSurfaceSpherical, dict(azimuth_range=g.choice(full))), (F.TotalSurfaceSpherical, dict(polar_range=g.choice(half))),
        (F.SurfaceFluxSpherical, dict(azimuth_range=g.choice(half))), (F.SurfaceFluxSpherical, dict(polar_range=g.choice(sym)))])
    if g.random() < .5:
        c("solute", 1, **kw)
    else:
        q = c("solute", 1)
        for k, v in kw.items():
            setattr(q, k, v)


@act(A)
def adsorbed_without_surface_model(r, g):
    used = [s for b in r.bcs if isinstance(b, F.SurfaceKinetics) for s in b.surfaces]
    s = g.choice([q for q in (1, 2, 7) if q not in used])
    q = F.DerivedQuantities([F.AdsorbedHydrogen(u) for u in used] + [F.AdsorbedHydrogen(s)])
    r.model.exports = list(r.model.exports) + [q]


MESHES = {"cartesian": ["TotalVolume", "AverageVolume", "SurfaceFlux", "TotalSurface", "AverageSurface", "HydrogenFlux"],
          "cylindrical": ["TotalVolumeCylindrical", "AverageVolumeCylindrical", "SurfaceFluxCylindrical", "TotalSurfaceCylindrical",
                          "AverageSurfaceCylindrical"],
          "spherical": ["TotalVolumeSpherical", "AverageVolumeSpherical", "SurfaceFluxSpherical", "TotalSurfaceSpherical"]}


class Warned(Exception):
    pass


@act(Warned)
def quantity_of_other_coordinates(r, g):
    """not refused, but the user is told"""
    own = r.model.mesh.type
    n = g.choice([q for k, v in MESHES.items() if k != own for q in v])
    need(n != "AverageSurface" or own != "spherical")
    q = getattr(F, n)(1) if n == "HydrogenFlux" else getattr(F, n)("solute", first(r) if "Volume" in n else 1)
    fine = [getattr(F, k)("solute", 1) for k in MESHES[own] if "Surface" in k][:g.randint(0, 2)]
    r.model.exports = list(r.model.exports) + [F.DerivedQuantities(fine + [q])]
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        r.model.initialise()
    told = [w for w in ws if "may not work as intended" in str(w.message)]
    if len(told) == 1:
        raise Warned
    if len(told) > 1:
        raise Refused("a quantity made for these coordinates is said not to work")


# ---------------------------------------------------------------- files, sources
@act(V)
def restart_without_label_or_step(r, g):
    F.InitialCondition(field=0, value="a.xdmf", **g.choice([dict(label="a"), dict(time_step=-1), dict()]))


@act(V)
def temperature_file_without_label(r, g):
    V_ = f.FunctionSpace(r.model.mesh.mesh, "CG", 1)
    T = f.interpolate(f.Constant(500), V_)
    with f.XDMFFile("Tlab.xdmf") as fh:
        fh.write_checkpoint(T, "T", 0.0, f.XDMFFile.Encoding.HDF5, append=False)
    F.TemperatureFromXDMF("Tlab.xdmf", g.choice(["coucou", "t", "TT", ""]))


@act(V, T_)
def bad_decay_constant(r, g):
    F.RadioactiveDecay(g.choice([0, -1, -1e-9, "1", None, [1]]), volume=1)


@act(T_)
def wrong_newton_solver(r, g):
    o = r.model.T if isinstance(r.model.T, F.HeatTransferProblem) and g.random() < .5 else None
    if o is None:
        r.model.initialise()
        o = r.model.h_transport_problem
    o.newton_solver = g.choice(["newton", 1, [1], F.Stepsize(1)])


def valid_objects(g):
    """documented input that has to be accepted"""
    pi = np.pi
    yield lambda: F.XDMFExport("solute", label="a", filename="a.xdmf", mode=g.choice([1, 2, 7, 1000, "last"]), checkpoint=g.choice([True, False]),
                               folder=g.choice(["", "a", "a/b"]))
    yield lambda: F.XDMFExport("solute", folder="b")
    yield lambda: F.TXTExport(g.choice(["solute", "T", "1", "retention"]), "a.b.txt", times=g.choice([None, [1], [1, 2.5]]))
    yield lambda: F.DerivedQuantities([F.TotalVolume("T", 1)], filename=g.choice([None, "a.csv", "b/a.csv"]))
    yield lambda: F.TotalVolumeCylindrical("solute", 1, azimuth_range=g.choice([(0, 2 * pi), (0, pi), (1, 2), (0, 0.1)]))
    yield lambda: F.TotalVolumeSpherical("solute", 1, azimuth_range=g.choice([(0, 2 * pi), (0, 4)]), polar_range=g.choice([(0, pi), (1, 2)]))
    yield lambda: F.SurfaceFluxSpherical("solute", 1, azimuth_range=g.choice([(0, pi), (1, 2)]), polar_range=g.choice([(-pi, pi), (-1, 2)]))
    yield lambda: F.SurfaceFluxCylindrical("solute", 1, azimuth_range=g.choice([(0, 2 * pi), (3, 4)]))
    yield lambda: F.Material(id=g.choice([1, 7, [1, 2]]), D_0=1, E_D=0, S_0=1, E_S=0, solubility_law=g.choice(["henry", "sievert"]))
    yield lambda: F.Trap(1, 0, 1, 0, density=g.choice([1, 1 + F.x]), materials=g.choice(["a", ["a"], ["a"]]))
    yield lambda: F.RadioactiveDecay(g.choice([1, 1e-12, 2.5]), volume=1)
    yield lambda: F.InitialCondition(field=g.choice([0, "solute", "1", "T"]), value=g.choice([1, 1 + F.x, 0.0]))
    yield lambda: F.InitialCondition(field=0, value="a.xdmf", label="a", time_step=g.choice([0, -1, 3]))
    yield lambda: F.Temperature(g.choice([300, 300.0, 300 + F.x, 300 + F.t]))
    yield lambda: F.Settings(1e-6, 1e-6, final_time=g.choice([None, 1]), transient=g.choice([True, False]),
                             traps_element_type=g.choice(["CG", "DG"]))
    yield lambda: F.Stepsize(g.choice([1, 0.5]), stepsize_change_ratio=g.choice([None, 1.1]), max_stepsize=g.choice([None, 2, lambda t: 1 + t]))
    yield lambda: F.Traps([]) and F.Materials([]) and F.Exports([])


def run(case, wd):
    rep = Report()
    g = random.Random(case["seed"])
    name = case["act"]
    fn, exc = ACTS[name]

    def quiet(body):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            body()

    r = build(case["spec"], workdir=wd, exports=None, cap=5)
    try:
        if case.get("control", True):
            quiet(r.model.initialise)
            rep.see("accepted")
            for k, v in enumerate(valid_objects(g)):
                try:
                    v()
                except Exception as e:
                    rep.findings.append(dict(what="valid input is refused (%r)" % e, mech="refused:valid%d" % k))
            r = build(case["spec"], workdir=wd, exports=None, cap=5)
        try:
            def body():
                fn(r, g)
                r.model.initialise()
            quiet(body)
            rep.findings.append(dict(what="the model is accepted although it has: %s" % name.replace("_", " "), mech="accepted:" + name))
        except exc as e:
            rep.see("refused")
            rep.see("refused:" + name)
    except Refused as e:
        rep.findings.append(dict(what=str(e), mech="refused:bc"))
    except NotApplicable:
        rep.see("not_applicable")
    out = result(rep, None, cover_of(case) + ["act=" + name])
    return out
