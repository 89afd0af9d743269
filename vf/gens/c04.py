"""C04 mobile hydrogen transport equation"""
from .lib import *
from .compose import in_units

LEVEL = "exploration"
RULE = ("a case is one full FESTIM run of a generated model; non-trivial when at least one accepted step was replayed "
        "row by row through the reference equation; distinct by its full input specification")
ASSUMPTIONS = ["backward Euler / P1 Galerkin discretisation is the documented method; the residual is recomputed from "
               "recorded nodal fields with 1e-5-level relative tolerance",
               "rows touching r=0 in cylindrical/spherical coordinates are not judged"]
NEED = {"steps": 60, "rows:mobile": 500}
NEED_SIG = {"mobile/transient": 0.02, "mobile/diffusion": 0.02, "mobile/soret": 0.01, "mobile/trapping": 0.02,
            "mobile/detrapping": 0.02}


def fill(rng, st):
    dim, typ = st["dim"], st["typ"]
    chem, soret = st.get("chem", False), st.get("soret", False)
    heat = st.get("heat", None)
    kw = dict(chem=chem, soret=soret, heat=heat is not None, transient_heat=heat == "transient")
    if dim == 1:
        mesh = mesh1d(rng, typ)
        mats = materials_1d(rng, mesh, st["nmat"], ids=st.get("ids"), sandwich=st.get("sandwich", False), **kw)
        surf = [1, 2]
    elif dim == 2:
        mesh = rect2(rect(rng, st["nmat"], typ, st.get("via_xdmf", False)))
        mats = materials_nd(rng, mesh, **kw)
        surf = [1, 2, 3, 4]
    else:
        mesh = dict(kind="box", lx=1.0, ly=0.8, lz=0.6, nx=2, ny=2, nz=2, vol_ids=[1] if st["nmat"] == 1 else [1, 2])
        mats = materials_nd(rng, mesh, **kw)
        surf = [1, 2, 3, 4]
    nm = len(mats)
    spec = dict(mesh=mesh, materials=mats, T=temperature(rng, dim, st.get("T", "xt")),
                settings=settings(rng, chemical_pot=chem, soret=soret, traps_element_type=st.get("elt", "CG")),
                dt=dtspec(rng, kind=st.get("dt", "fixed")))
    if heat:
        spec["T"] = dict(kind="heat", transient=heat == "transient", absolute_tolerance=1e-10)
        if heat == "transient":
            spec["T"]["ic"] = "%s + %s*x" % (u(rng, 480, 540), u(rng, -20, 20))
    traps = []
    for q in st.get("traps", []):
        mt = [i for i in q if i < nm] or [0]
        traps.append(trap(rng, mt, dim, multi=st.get("multi", False)))
    spec["traps"] = traps
    bcs = []
    if st.get("bc", "dirichlet") == "dirichlet":
        bcs.append(dict(kind="dirichlet", surfaces=[1], value=val(rng, 1, dim), field=0))
        if st.get("bc2"):
            bcs.append(dict(kind="dirichlet", surfaces=[2], value=val(rng, 1, dim), field="solute"))
    if heat:
        bcs.append(dict(kind="dirichlet", surfaces=[1], value=rng.choice([u(rng, 480, 500), "%s*(0.94 + 0.05*%s)" % (u(rng, 480, 500), tshape(rng))]), field="T"))
        bcs.append(dict(kind="flux", surfaces=[2], value=u(rng, 5, 20), field="T"))
    spec["bcs"] = bcs
    spec["ics"] = [dict(field=rng.choice([0, "0", "solute"]), value=xpoly(rng, 2, dim))]
    for i in range(len(traps)):
        if rng.random() < 0.5:
            spec["ics"].append(dict(field=rng.choice([i + 1, str(i + 1)]), value=u(rng, 0.05, 0.3)))
    if st.get("steady"):
        if spec["T"]["kind"] == "expr":
            spec["T"] = temperature(rng, dim, "x")
        for t in spec["traps"]:
            t["density"] = [0.8 for _ in t["density"]] if isinstance(t["density"], list) else u(rng, 0.4, 1.2)
        spec = steady(spec)
    return spec


CORE = [
    dict(dim=1, typ="cartesian", nmat=2, traps=[[0], [0, 1]], T="xt"),
    dict(dim=1, typ="cartesian", nmat=3, traps=[[0, 2]], T="xt", multi=True, dt="adaptive", bc2=True),
    dict(dim=1, typ="cartesian", nmat=2, sandwich=True, soret=True, T="xt"),
    dict(dim=1, typ="cartesian", nmat=1, T="x", steady=True, bc2=True, soret=True, traps=[[0]]),
    dict(dim=1, typ="cylindrical", nmat=1, soret=True, T="xt", traps=[[0]]),
    dict(dim=1, typ="spherical", nmat=1, soret=True, T="xt"),
    dict(dim=1, typ="cartesian", nmat=2, T="xt", bc="none", elt="DG", traps=[[1]], dt="milestones"),
    dict(dim=1, typ="cartesian", nmat=2, heat="transient", T=None, soret=True),
    dict(dim=2, typ="cartesian", nmat=2, T="xt", traps=[[0]]),
    dict(dim=2, typ="cartesian", nmat=3, T="xt", soret=True, via_xdmf=True),
    dict(dim=2, typ="cylindrical", nmat=1, T="xt", soret=True),
    dict(dim=3, typ="cartesian", nmat=2, T="xt"),
    dict(dim=1, typ="cartesian", nmat=2, T="xt", chem=True, soret=True, traps=[[0]]),
    dict(dim=1, typ="cylindrical", nmat=1, T="xt", chem=True),
    dict(dim=1, typ="spherical", nmat=1, T="x", steady=True, bc2=True),
    dict(dim=1, typ="cartesian", nmat=3, ids=[7, 0, 12], traps=[[1]], T="xt"),
    dict(dim=1, typ="spherical", nmat=1, soret=True, T="xt", chem=True),
    dict(dim=1, typ="cartesian", nmat=6, ids=[12, 1, 21, 2, 10, 11], traps=[[0, 4], [5]], T="xt"),
]


def core(tier):
    out = []
    for i, st in enumerate(CORE):
        rng = random.Random("c04core%d" % i)
        out.append([in_units(rng, dict(label="core%d %s" % (i, st), st=st, spec=fill(rng, st)), k) for k in range(2)])
    return out


def structure(rng):
    dim = rng.choice([1, 1, 1, 1, 2, 2, 3])
    typ = {1: rng.choice(["cartesian"] * 3 + ["cylindrical", "spherical"]),
           2: rng.choice(["cartesian"] * 3 + ["cylindrical"]), 3: "cartesian"}[dim]
    nmat = rng.choice([1, 2, 3]) if typ == "cartesian" and dim < 3 else rng.choice([1, 1, 2]) if dim > 1 else 1
    st = dict(dim=dim, typ=typ, nmat=nmat, soret=rng.random() < 0.4, T=rng.choice(["x", "xt", "xt", "t"]),
              traps=[sorted(rng.sample(range(nmat), rng.randint(1, nmat))) for _ in range(rng.choice([0, 0, 1, 1, 2]))],
              multi=rng.random() < 0.4, dt=rng.choice(["fixed", "adaptive", "milestones"]),
              elt=rng.choice(["CG", "CG", "DG"]), bc=rng.choice(["dirichlet", "none"]), bc2=rng.random() < 0.3,
              chem=rng.random() < 0.2, via_xdmf=rng.random() < 0.2)
    if rng.random() < 0.15 and not st["chem"]:
        st["steady"] = True
        st["bc"], st["bc2"], st["soret"] = "dirichlet", True, st["soret"]
    elif rng.random() < 0.15 and not st["chem"]:
        st["heat"] = rng.choice(["transient", "steady"])
    if dim == 1 and nmat == 2 and rng.random() < 0.3:
        st["sandwich"] = True
    return st


def random_batches(rng, tier):
    while True:
        st = structure(rng)
        yield [in_units(rng, dict(st=st, spec=fill(rng, st)), .3) for _ in range(4)]
