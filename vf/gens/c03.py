"""C03 global hydrogen conservation"""
from .compose import *
from .c12 import T_BCS

LEVEL = "exploration"
RULE = ("a case is one full FESTIM run without imposed concentrations; non-trivial when the inventory reported by FESTIM's own derived "
        "quantities was balanced at one step or more against initial content, boundary exchange and sources; distinct by specification")
ASSUMPTIONS = ["exact discrete conservation is stated for cartesian and cylindrical coordinates (in spherical ones the scheme conserves "
               "only up to the mesh size)",
               "gaussian implantation profiles are interpolated (quadratic per cell): their interpolation error is allowed for"]
NEED = {"steps": 200, "balances": 200, "sums": 200}
NEED_SIG = {"exchange": .05}
BUDGET = {"quick": 40, "thorough": 420}

CORE = [
    dict(nmat=1, T="xt"),
    dict(nmat=3, traps=[dict(mats=[0, 1], multi=True), dict(mats=[2]), dict(mats=[1])], T="xt", dt="adaptive"),
    dict(nmat=2, sandwich=True, elt="DG", traps=[dict(mats=[0]), dict(mats=[0, 1], multi=True)], T="t", bcs=[["flux", [1]]]),
    dict(nmat=2, bcs=[["flux", [1]], ["recomb", [1, 2]], ["dissoc", [2]]], T="xt", traps=[dict(mats=[0])]),
    dict(nmat=2, bcs=[["mass", [1, 2]], ["custom_flux", [2]]], T="t", dt="milestones", ids=[8, 0, 5]),
    dict(nmat=2, chem=True, T="xt", traps=[dict(mats=[0, 1], multi=True)]),
    dict(nmat=3, chem=True, laws=["henry", "sievert", "henry"], T="t"),
    dict(nmat=2, chem=True, bcs=[["flux", [1]], ["mass", [2]]], T="t"),
    dict(nmat=1, bcs=[["surfkin", [1, 2]]], T="t", traps=[dict(mats=[0])]),
    dict(nmat=2, bcs=[["surfkin", [1]], ["flux", [2]]], T="xt"),
    dict(nmat=2, soret=True, T="xt", traps=[dict(mats=[1])]),
    dict(nmat=2, soret=True, heat="transient", bcs=T_BCS + [["flux", [1]]]),
    dict(nmat=1, sources=[["source", 0], ["implantation", [0]], ["source", 0]], T="xt", n=24),
    dict(nmat=3, sources=[["decay", [0, 1, 2]], ["source", [1]]], traps=[dict(mats=[0, 1, 2], id=4), dict(mats=[1], id=2)], T="t"),
    dict(nmat=2, sources=[["source", [0], dict(field="1")], ["decay", [1], dict(field="0")]], traps=[dict(mats=[0, 1])], T="x"),
    dict(nmat=1, traps=[dict(mats=[0], kind="neutron"), dict(mats=[0], kind="extrinsic")], T="xt", dt="adaptive"),
    dict(dim=2, nmat=2, traps=[dict(mats=[0, 1], multi=True)], T="xt", bcs=[["flux", [1, 3]], ["recomb", [2]]]),
    dict(dim=2, nmat=3, chem=True, T="t"),
    dict(dim=2, nmat=2, soret=True, T="xt", via_xdmf=True, surf_ids=[4, 1, 2, 9], bcs=[["mass", [9]], ["flux", [4, 1]]]),
    dict(dim=3, nmat=2, T="x", bcs=[["flux", [1]], ["recomb", [2, 3]]], traps=[dict(mats=[0])]),
    dict(typ="cylindrical", nmat=1, T="xt", bcs=[["flux", [1]], ["recomb", [2]]], traps=[dict(mats=[0])]),
    dict(typ="cylindrical", nmat=1, T="xt", soret=True),
    dict(dim=2, typ="cylindrical", nmat=2, T="xt", bcs=[["flux", [1, 4]]], traps=[dict(mats=[0, 1])]),
    dict(dim=2, typ="cylindrical", nmat=1, T="x", sources=[["source", 0]], soret=True),
    dict(CROWD, T="xt"),
]


def core(tier):
    return core_of("c03", CORE)


def structure(rng):
    dim = rng.choice([1, 1, 1, 2])
    typ = rng.choice(["cartesian", "cartesian", "cartesian", "cylindrical"])
    nmat = rng.choice([1, 2, 2, 3]) if typ == "cartesian" or dim == 2 else 1
    st = dict(dim=dim, typ=typ, nmat=nmat, T=rng.choice(["x", "xt", "t", "const"]), dt=rng.choice(["fixed", "adaptive", "milestones"]),
              soret=rng.random() < .3, ids=perm_ids(rng) if dim == 1 else None, elt=rng.choice(["CG", "DG"]),
              sandwich=dim == 1 and nmat == 2 and rng.random() < .3)
    tr = []
    for j in range(rng.choice([0, 1, 1, 2, 3])):
        tr.append(dict(mats=rng.sample(range(nmat), rng.randint(1, nmat)), multi=rng.random() < .5))
    if len(tr) == 2 and rng.random() < .5:
        tr[0]["id"], tr[1]["id"] = rng.choice([(8, 3), (12, 1), (2, 21)])
    st["traps"] = tr
    kinds = ["flux", "recomb", "dissoc", "mass", "custom_flux"]
    S = [1, 2] if dim == 1 else [1, 2, 3, 4]
    st["bcs"] = [[rng.choice(kinds), rng.sample(S, rng.randint(1, 2))] for _ in range(rng.choice([0, 1, 2, 3]))]
    st["sources"] = [[rng.choice(["source", "decay", "source"]), rng.sample(range(nmat), rng.randint(1, nmat))] for _ in range(rng.choice([0, 0, 1, 2]))]
    q = rng.random()
    if typ == "cartesian" and q < .25:
        st["chem"] = True
        st["soret"] = False
        if st["T"] == "x":
            st["T"] = "xt"
        if not tr and rng.random() < .6:
            st["laws"] = [rng.choice(["henry", "sievert"]) for _ in range(3)]
    elif q < .4:
        st["heat"] = "transient"
        st["bcs"] = st["bcs"] + T_BCS
    elif q < .55 and dim == 1 and typ == "cartesian":
        st["bcs"] = [["surfkin", [1]]] + [b for b in [[rng.choice(kinds), [2]]] if rng.random() < .6]
    return st


def random_batches(rng, tier):
    while True:
        yield cases(rng, structure(rng), 4)
