"""C11 kinetic surface model"""
from .compose import *

LEVEL = "exploration"
RULE = ("a case is one full FESTIM run with at least one surface carrying adsorbed hydrogen; non-trivial when at least one "
        "accepted step had both the adsorbed balance and the boundary row of the mobile equation replayed; distinct by "
        "specification")
ASSUMPTIONS = ["1-D models only (the model is documented for 1-D)", "row tolerance 2e-5 relative"]
NEED = {"steps": 60, "rows:surf": 60, "rows:mobile": 300}
NEED_SIG = {"surf/transient": .05, "surf/J_vs": .05, "surf/J_bs": .05, "surf/J_sb": .05, "mobile/bc:surfkin": .05,
            "mobile/bc:surfkin_lambda": .01}
K = "surfkin"
CORE = [
    dict(bcs=[[K, [1]]], T="xt"), dict(bcs=[[K, [2]]], T="xt", dt="adaptive"), dict(bcs=[[K, 1], [K, 2]], T="xt"),
    dict(bcs=[[K, [1, 2]]], T="t", dt="milestones"), dict(bcs=[[K, [2, 1]]], T="xt", traps=[[0]]),
    dict(nmat=2, bcs=[[K, [1]], ["dirichlet", [2]]], T="xt", traps=[[0, 1], [1]]),
    dict(nmat=2, bcs=[[K, [2]], ["recomb", [1]]], T="xt", elt="DG", traps=[[1]]),
    dict(bcs=[[K, [1]], ["flux", [2]]], T="x", soret=True), dict(chem=True, nmat=2, bcs=[[K, [1, 2]]], T="xt"),
    dict(chem=True, nmat=2, laws=["henry", "sievert"], bcs=[[K, [1]], [K, [2]]], T="t"),
    dict(chem=True, nmat=2, bcs=[[K, [1]], ["mass", [2]]], T="xt", traps=[[0]]),
    dict(bcs=[[K, [1, 2]]], T="const", sources=[["source", 0]]),
    dict(bcs=[[K, [1]], ["flux", [2], dict(field="T")], ["dirichlet", [1], dict(field="T")]], heat="transient"),
    dict(bcs=[[K, [1]], [K, 2]], T="xt", traps=[dict(mats=[0], kind="neutron")]),
    dict(bcs=[[K, [1]]], T="xt", ic=False), dict(bcs=[[K, [1, 2]]], T="xt", update_jacobian=False),
]


def core(tier):
    return core_of("c11", CORE)


def structure(rng):
    nmat = rng.choice([1, 1, 2])
    chem = rng.random() < .25
    bcs = rng.choice([[[K, [1]]], [[K, [2]]], [[K, [1, 2]]], [[K, 1], [K, 2]], [[K, [2]], [K, [1]]],
                      [[K, [1]], [rng.choice(["dirichlet", "flux", "recomb", "mass"]), [2]]],
                      [[K, [2]], [rng.choice(["dirichlet", "flux", "recomb", "mass"]), [1]]]])
    st = dict(nmat=nmat, chem=chem, bcs=bcs, T=rng.choice(["xt", "t", "const"] + ([] if chem else ["x"])),
              dt=rng.choice(["fixed", "adaptive", "milestones"]), traps=rng.choice([[], [], [[0]], [[0], [0]]]),
              soret=rng.random() < .2, elt=rng.choice(["CG", "DG"]), update_jacobian=rng.random() < .8,
              ids=perm_ids(rng), ic=rng.random() < .8,
              sources=rng.choice([[], [], [["source", 0]], [["decay", 0]]]))
    if chem and rng.random() < .4:
        st["laws"] = [rng.choice(["henry", "sievert"]) for _ in range(2)]
        st["traps"] = []
        st["sources"] = []
    return st


def random_batches(rng, tier):
    while True:
        yield cases(rng, structure(rng), 4)
