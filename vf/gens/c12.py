"""C12 derived quantities"""
from .compose import *

LEVEL = "exploration"
RULE = ("a case is one full FESTIM run exporting a set of derived quantities; non-trivial when every value of every quantity was "
        "compared with its documented functional of the recorded fields; distinct by specification and quantity list")
ASSUMPTIONS = ["the reported fields are the cell-wise linear functions FESTIM hands to any derived quantity",
               "integrals of temperature-dependent properties are compared within 1e-5 of their absolute magnitude (quadrature)",
               "extrema of the reported field are judged at its nodal values (fields are linear per cell)"]
KINDS = ["TotalVolume", "AverageVolume", "MaximumVolume", "MinimumVolume", "TotalSurface", "AverageSurface", "MaximumSurface",
         "MinimumSurface", "SurfaceFlux", "PointValue", "TotalVolumeCylindrical", "TotalVolumeSpherical",
         "AverageVolumeCylindrical", "AverageVolumeSpherical", "TotalSurfaceCylindrical", "TotalSurfaceSpherical",
         "AverageSurfaceCylindrical", "SurfaceFluxCylindrical", "SurfaceFluxSpherical", "HydrogenFlux", "ThermalFlux"]
NEED = {"steps": 100, "values": 1500, "titles": 300, "selections": 200}
NEED.update({"q:" + k: 10 for k in KINDS})
BUDGET = {"quick": 45, "thorough": 480}

PI = math.pi
T_BCS = [["dirichlet", [1], dict(field="T")], ["flux", [2], dict(field="T")]]


def rangeof(rng, lo, hi):
    a, b = sorted([u(rng, lo, hi), u(rng, lo, hi)])
    return [a, b] if rng.random() < .7 else [lo, hi]


def quantities(rng, spec, st, n=14, kinds=None):
    mesh, typ = spec["mesh"], spec["mesh"].get("type", "cartesian")
    vols = []
    for mt in spec["materials"]:
        vols += mt["id"] if isinstance(mt["id"], list) else [mt["id"]]
    if mesh["kind"] == "1d":
        surfs, dim = [1, 2], 1
    else:
        surfs, dim = mesh.get("surf_ids", [1, 2, 3, 4]), 2 if mesh["kind"] == "rect" else 3
    labs = [t.get("id", i) for i, t in enumerate(spec.get("traps", []), 1)]
    fields = ["solute", 0, "0", "T", "retention"] + labs + [str(x) for x in labs]
    suf = {"cartesian": "", "cylindrical": "Cylindrical", "spherical": "Spherical"}[typ]
    cond = "thermal_cond" in spec["materials"][0]
    out = []
    base = ["TotalVolume" + suf, "AverageVolume" + suf, "MaximumVolume", "MinimumVolume", "TotalSurface" + suf,
            "AverageSurface" + ("" if typ == "spherical" else suf), "MaximumSurface", "MinimumSurface", "SurfaceFlux" + suf, "PointValue"]
    if not suf:
        base += ["HydrogenFlux"] + (["ThermalFlux"] if cond else [])
    order = list(kinds or base)
    rng.shuffle(order)
    while len(order) < n:
        order.append(rng.choice(base))
    for k in order[:max(n, len(base))]:
        q = dict(kind=k)
        if k == "PointValue":
            q["field"] = rng.choice([x for x in fields if x != "retention"] if rng.random() < .7 else fields)
            if dim == 1:
                x = [u(rng, mesh["x0"] + .02, mesh["x1"] - .02)]
                q["as"] = rng.choice(["list", "scalar", "tuple"])
            else:
                x = [r6(mesh.get("x0", 0) + mesh["lx"] * u(rng, .03, .97)), r6(mesh.get("y0", 0) + mesh["ly"] * u(rng, .03, .97))]
                if dim == 3:
                    x.append(r6(mesh["lz"] * u(rng, .03, .97)))
                q["as"] = rng.choice(["list", "tuple"])
            q["x"] = x
            if q["as"] == "scalar":
                q["x"] = x
        elif k in ("HydrogenFlux", "ThermalFlux"):
            q["surface"] = rng.choice(surfs)
        elif "Volume" in k:
            q["field"], q["volume"] = rng.choice(fields), rng.choice(vols)
        elif k.startswith("SurfaceFlux"):
            q["field"] = rng.choice(["solute", 0, "0"] + (["T", "T"] if cond else []))
            q["surface"] = rng.choice(surfs)
        else:
            q["field"], q["surface"] = rng.choice(fields), rng.choice(surfs)
        if ("Cyl" in k or "Sph" in k) and "Average" not in k and rng.random() < .7:
            if "Cyl" in k:
                q["azimuth_range"] = rangeof(rng, 0, 2 * PI)
            else:
                fl = k.startswith("SurfaceFlux")
                if rng.random() < .8:
                    q["azimuth_range"] = rangeof(rng, 0, PI if fl else 2 * PI)
                if rng.random() < .8:
                    q["polar_range"] = rangeof(rng, -PI if fl else 0, PI)
        out.append(q)
    return out


def make(rng, st, label=None, p=.3):
    spec = fill(rng, st)
    qs = quantities(rng, spec, st, n=rng.randint(10, 16))
    for b in spec["bcs"]:
        if b["kind"] == "surfkin":
            ss = b["surfaces"] if isinstance(b["surfaces"], list) else [b["surfaces"]]
            qs += [dict(kind="AdsorbedHydrogen", surface=x) for x in rng.sample(ss, rng.randint(1, len(ss)))]
    c = dict(st=st, spec=spec, quantities=qs, show_units=rng.random() < .7, split=rng.choice([len(qs), 3]))
    if label:
        c["label"] = label
    return other_units(rng, c, p)


def other_units(rng, c, p):
    in_units(rng, c, p)
    U = c.get("units")
    for q in [q for e in c.get("exports", [c]) for q in e.get("quantities", [])]:
        if U and q["kind"] == "PointValue":
            q["x"] = [v * U["L"] for v in q["x"]]
    for e in c.get("exports", []):
        if U and e.get("times"):
            e["times"] = [t * U["tau"] for t in e["times"]]
    return c


F1 = [["dirichlet", [1]], ["flux", [2]]]
CORE = [
    dict(nmat=1, bcs=F1, T="xt"),
    dict(nmat=2, traps=[dict(mats=[0, 1], multi=True), dict(mats=[1], id=7)], bcs=F1, T="xt", with_k=True),
    dict(nmat=2, sandwich=True, ids=[4, 9, 2], traps=[dict(mats=[0])], bcs=F1, T="x", soret=True),
    dict(nmat=3, ids=[9, 0, 6], elt="DG", traps=[dict(mats=[1])], bcs=F1, T="t"),
    dict(nmat=2, chem=True, traps=[dict(mats=[1], id=3), dict(mats=[0], id=1)], bcs=F1, T="xt", soret=True),
    dict(nmat=2, chem=True, laws=["henry", "sievert"], bcs=F1, T="xt"),
    dict(nmat=2, heat="transient", bcs=F1 + T_BCS, soret=True),
    dict(nmat=2, heat="steady", steady=True, bcs=F1 + T_BCS, traps=[dict(mats=[1])]),
    dict(dim=2, nmat=2, traps=[dict(mats=[0, 1])], bcs=F1 + [["flux", [3]]], T="xt", surf_ids=[5, 2, 9, 3], with_k=True),
    dict(dim=2, nmat=3, chem=True, bcs=[["dirichlet", [1]]], T="xt"),
    dict(dim=2, nmat=2, via_xdmf=True, soret=True, elt="DG", traps=[dict(mats=[1])], bcs=F1, T="x"),
    dict(dim=2, nmat=1, heat="transient", bcs=F1 + T_BCS),
    dict(dim=3, nmat=2, bcs=F1, T="x", with_k=True),
    dict(typ="cylindrical", nmat=1, bcs=F1, T="xt", soret=True, with_k=True, traps=[dict(mats=[0], id=5)]),
    dict(typ="cylindrical", nmat=1, bcs=F1 + T_BCS, heat="transient"),
    dict(dim=2, typ="cylindrical", nmat=2, bcs=F1, T="xt", with_k=True, traps=[dict(mats=[1])]),
    dict(dim=2, typ="cylindrical", nmat=2, bcs=F1, T="x", soret=True, surf_ids=[3, 8, 1, 6]),
    dict(typ="spherical", nmat=1, bcs=F1, T="xt", soret=True, with_k=True, traps=[dict(mats=[0])]),
    dict(typ="spherical", nmat=1, bcs=F1 + T_BCS, heat="transient"),
    dict(typ="spherical", nmat=1, bcs=F1, T="x", dt="adaptive"),
    dict(nmat=1, bcs=[["surfkin", [1, 2]]], T="t"),
    dict(nmat=2, bcs=[["surfkin", [2]], ["dirichlet", [1]]], T="xt", traps=[dict(mats=[0, 1])]),
    dict(CROWD, bcs=F1, T="xt", with_k=True),
    dict(dim=2, nmat=2, surf_ids=NUMBERS, traps=[dict(mats=[0, 1], id=11), dict(mats=[1], id=1)], bcs=F1, T="xt", soret=True),
    dict(nmat=2, n=120, bcs=F1, T="xt", traps=[dict(mats=[1])]),
]


def core(tier):
    out = []
    for i, st in enumerate(CORE):
        rng = random.Random("c12 core %d" % i)
        out.append([make(rng, st, "core%d %s" % (i, st), k) for k in range(2)])
    return out


def structure(rng):
    dim = rng.choice([1, 1, 1, 2, 2])
    typ = rng.choice(["cartesian", "cartesian", "cylindrical", "spherical"])
    if dim == 2 and typ == "spherical":
        typ = "cylindrical"
    nmat = rng.choice([1, 2, 2, 3]) if (typ == "cartesian" or dim == 2) else 1
    st = dict(dim=dim, typ=typ, nmat=nmat, T=rng.choice(["x", "xt", "t", "const"]), dt=rng.choice(["fixed", "adaptive", "milestones"]),
              soret=rng.random() < .35, with_k=rng.random() < .5, bcs=list(F1), ids=perm_ids(rng) if dim == 1 else None,
              elt=rng.choice(["CG", "DG"]), sandwich=dim == 1 and nmat == 2 and rng.random() < .3)
    tr = []
    for j in range(rng.choice([0, 1, 2])):
        tr.append(dict(mats=rng.sample(range(nmat), rng.randint(1, nmat)), multi=rng.random() < .5))
    if len(tr) == 2 and rng.random() < .5:
        tr[0]["id"], tr[1]["id"] = rng.choice([(8, 3), (12, 1), (2, 21)])
    st["traps"] = tr
    if typ == "cartesian" and rng.random() < .3:
        st["chem"] = True
        if not tr:
            st["laws"] = [rng.choice(["henry", "sievert"]) for _ in range(3)]
        st["bcs"] = [["dirichlet", [1]]]
    elif rng.random() < .3:
        st["heat"] = rng.choice(["transient", "steady"])
        st["bcs"] = st["bcs"] + T_BCS
    return st


def random_batches(rng, tier):
    while True:
        st = structure(rng)
        yield [make(rng, st) for _ in range(3)]
