"""C07 flux boundary conditions"""
from .compose import *

LEVEL = "exploration"
RULE = ("a case is one full FESTIM run with flux-type boundary conditions (hydrogen or heat); non-trivial when at least one "
        "accepted step was replayed with the flux law in the boundary rows; distinct by specification")
ASSUMPTIONS = ["flux parameters are linear in space (their documented interpolation degree), any shape in time",
               "row tolerance 2e-5 relative"]
NEED = {"steps": 60, "rows:mobile": 500, "rows:heat": 50}
NEED_SIG = {"mobile/bc:flux": .05, "mobile/bc:recomb": .05, "mobile/bc:dissoc": .05, "mobile/bc:mass": .05,
            "mobile/bc:custom_flux": .05, "heat/bc:flux": .02, "heat/bc:convective": .02, "heat/bc:custom_flux": .02}

HT = dict(field="T")
CORE = [
    dict(bcs=[["flux", [1]], ["flux", 2, dict(field="0")]], dt="adaptive"),
    dict(bcs=[["flux", [1], dict(field="solute")], ["recomb", [2], dict(order=2)]], T="xt"),
    dict(bcs=[["recomb", [1], dict(order=1)], ["dissoc", [1]], ["dissoc", [2]], ["recomb", 2, dict(order=2)]], T="xt"),
    dict(bcs=[["mass", [1, 2]]], T="t"),
    dict(bcs=[["custom_flux", [1]], ["custom_flux", [2]], ["mass", [2]]], T="xt", dt="milestones"),
    dict(bcs=[["recomb", [1, 2]], ["dissoc", [1, 2]], ["flux", [1, 2]]], T="xt", nmat=2, traps=[[0]]),
    dict(dim=2, nmat=2, bcs=[["recomb", [1, 3]], ["flux", [2]], ["mass", 4]], T="xt"),
    dict(dim=2, nmat=1, surf_ids=[4, 9, 6, 2], bcs=[["dissoc", [9, 2]], ["custom_flux", [4]], ["flux", [6, 4]]], T="xt"),
    dict(dim=2, via_xdmf=True, nmat=2, bcs=[["flux", [1]], ["recomb", [2]]], T="xt"),
    dict(dim=3, bcs=[["flux", [1]], ["recomb", [2]], ["mass", [3]]], T="xt"),
    dict(typ="cylindrical", bcs=[["flux", [1]], ["recomb", [2]]], T="xt"),
    dict(typ="spherical", bcs=[["dissoc", [1]], ["mass", [2]]], T="xt"),
    dict(chem=True, nmat=2, bcs=[["recomb", [1], dict(order=2)], ["dissoc", [1]], ["mass", [2]]], T="xt"),
    dict(chem=True, nmat=2, laws=["henry", "sievert"], bcs=[["recomb", [1]], ["custom_flux", [2]]], T="t"),
    dict(chem=True, nmat=2, laws=["sievert", "henry"], bcs=[["flux", [1]], ["recomb", [2], dict(order=2)]], T="const"),
    dict(steady=True, T="x", bcs=[["flux", [1]], ["recomb", [2], dict(order=1)]]),
    dict(steady=True, T="x", bcs=[["dissoc", [1]], ["mass", [2]], ["recomb", [1]]], traps=[[0]]),
    dict(heat="transient", bcs=[["flux", [1], HT], ["convective", [2]], ["flux", [1]]]),
    dict(heat="transient", nmat=2, bcs=[["custom_flux", [1], HT], ["convective", [1, 2]], ["recomb", [2]]], dt="adaptive"),
    dict(heat="steady", nmat=2, bcs=[["flux", [1], HT], ["convective", [2]], ["mass", [1]]]),
    dict(dim=2, heat="transient", bcs=[["flux", [1, 3], HT], ["convective", [2]], ["custom_flux", [4], HT]]),
    dict(typ="cylindrical", heat="transient", bcs=[["convective", [1]], ["flux", 2, HT]]),
    dict(typ="spherical", heat="transient", bcs=[["convective", [2]], ["flux", [1], HT]]),
    dict(dim=2, nmat=2, surf_ids=NUMBERS, bcs=[["flux", [11]], ["recomb", [1, 12]], ["mass", [2]]], T="xt"),
    dict(nmat=1, bcs=[["recomb", [1], dict(order=3)], ["dissoc", 2]], T="xt"),
    dict(nmat=1, bcs=[["recomb", [1], dict(order=1.5)], ["dissoc", [1]], ["recomb", [2], dict(order=2.5)]], T="xt"),
    dict(chem=True, nmat=2, bcs=[["recomb", [1], dict(order=1.5)], ["mass", [2]]], T="x"),
]


def core(tier):
    return core_of("c07", CORE)


def structure(rng):
    dim = rng.choice([1, 1, 1, 2, 2, 3])
    typ = rng.choice(["cartesian"] * 3 + ["cylindrical", "spherical"]) if dim == 1 else rng.choice(["cartesian"] * 3 + ["cylindrical"]) if dim == 2 else "cartesian"
    nmat = rng.choice([1, 2]) if typ == "cartesian" else 1
    surf = [1, 2] if dim == 1 else [1, 2, 3, 4]
    sid = None
    if dim == 2 and rng.random() < .4:
        sid = rng.sample(range(1, 15), 4)
        surf = sid
    chem = rng.random() < .25 and typ == "cartesian"
    bcs = []
    for _ in range(rng.randint(1, 4)):
        k = rng.choice(["flux", "recomb", "dissoc", "mass", "custom_flux"])
        s = rng.sample(surf, rng.choice([1, 1, 2]))
        bcs.append([k, s if len(s) > 1 or rng.random() < .7 else s[0], dict(field=rng.choice([0, "0", "solute"])) if k == "flux" else {}])
    st = dict(dim=dim, typ=typ, nmat=nmat, chem=chem, bcs=bcs, surf_ids=sid, T=rng.choice(["xt", "t", "const"] + ([] if chem else ["x"])),
              dt=rng.choice(["fixed", "adaptive", "milestones"]), traps=rng.choice([[], [[0]]]),
              update_jacobian=rng.random() < .7)
    if chem and rng.random() < .6:
        st["laws"] = [rng.choice(["henry", "sievert"]) for _ in range(2)]
        st["traps"] = []
    if rng.random() < .3:
        st["heat"] = "transient" if chem else rng.choice(["transient", "transient", "steady"])
        st["bcs"] = bcs + [["convective", [surf[0]]], [rng.choice(["flux", "custom_flux"]), [surf[1]], HT]]
    return st


def random_batches(rng, tier):
    while True:
        yield cases(rng, structure(rng), 4)
