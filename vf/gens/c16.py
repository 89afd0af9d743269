"""C16 the same model written differently"""
from .compose import *
from .c12 import T_BCS

LEVEL = "exploration"
RULE = ("a case is a pair of full FESTIM runs of one model written in two ways; non-trivial when every recorded field of every step was "
        "compared; distinct by specification and rewriting")
ASSUMPTIONS = ["two spellings of one model agree within 1e-7 of the field's size (nonlinear solver tolerance 1e-11)",
               "trap boundary conditions are addressed by position, so models with them are not reordered"]
REWRITES = ["order", "relabel", "spelling", "split", "pieces", "mesh", "constructor", "lists", "objects", "twin_trap", "idle", "observe", "solver", "units"]
NEED = {"pairs": 30, "fields": 300}
NEED.update({"rewrite:" + k: 3 for k in REWRITES})
BUDGET = {"quick": 50, "thorough": 480}

STRUCTS = [
    dict(nmat=2, traps=[dict(mats=[0, 1], multi=True), dict(mats=[1])], bcs=[["dirichlet", [1, 2]]], T="xt", sources=[["source", [0, 1]]]),
    dict(nmat=3, ids=[4, 2, 0], traps=[dict(mats=[0, 2]), dict(mats=[1], id=7)], bcs=[["sieverts", [1]], ["flux", [2]]], T="xt",
         sources=[["source", 1], ["source", 0, dict(field="1")]]),
    dict(nmat=2, sandwich=True, traps=[dict(mats=[0])], bcs=[["flux", [1, 2]], ["recomb", [1, 2]]], T="t", sources=[["decay", [0, 1, 2]]]),
    dict(nmat=2, chem=True, traps=[dict(mats=[1]), dict(mats=[0])], bcs=[["dirichlet", 1], ["mass", [2]]], T="xt"),
    dict(nmat=2, heat="transient", bcs=[["dirichlet", [1]], ["dissoc", [2]]] + T_BCS, sources=[["source", [0, 1], dict(field="T")]], traps=[dict(mats=[0, 1])]),
    dict(nmat=2, heat="steady", bcs=[["implantation", [1]], ["custom_flux", [2]]] + T_BCS),
    dict(nmat=1, traps=[dict(mats=[0]), dict(mats=[0])], bcs=[["surfkin", [1]], ["flux", [2]]], T="t"),
    dict(nmat=1, traps=[dict(mats=[0], kind="extrinsic"), dict(mats=[0])], bcs=[["dirichlet", [1]]], T="t", sources=[["implantation", 0]]),
    dict(nmat=2, elt="DG", traps=[dict(mats=[0, 1], multi=True), dict(mats=[1])], bcs=[["dirichlet", [1]], ["flux", [2]]], T="xt"),
    dict(nmat=2, steady=True, traps=[dict(mats=[1])], bcs=[["dirichlet", [1, 2]]], T="x", sources=[["source", 1]]),
    dict(dim=2, nmat=3, traps=[dict(mats=[0, 1])], bcs=[["custom_dirichlet", [1]], ["flux", [2, 4]]], T="xt", sources=[["source", [0, 2]]]),
    dict(dim=2, nmat=2, soret=True, bcs=[["flux", [1, 2]]], T="xt"),
    dict(typ="cylindrical", nmat=1, traps=[dict(mats=[0])], bcs=[["henrys", [1]], ["flux", [2]]], T="xt", sources=[["source", 0]]),
    dict(nmat=1, traps=[dict(mats=[0], kind="neutron"), dict(mats=[0])], bcs=[["dirichlet", [1]], ["flux", [2]]], T="t"),
    dict(dim=3, nmat=2, traps=[dict(mats=[1])], bcs=[["dirichlet", [1]], ["flux", [2]]], T="t"),
    dict(CROWD, bcs=[["dirichlet", [1]], ["flux", [2]]], T="xt", sources=[["source", [0, 1]], ["source", 0, dict(field="12")]]),
]


def make(rng, st, rw):
    return dict(spec=fill(rng, st), st=st, rewrites=rw, seed=rng.randrange(10 ** 9))


def some(rng):
    rw = rng.sample(REWRITES, rng.choice([1, 2, 3, 4]))
    if "units" in rw:
        rw.remove("units")
        rw.append("units")
    if "pieces" in rw and "mesh" in rw:
        # the borders a piece adds are taken from the mesh as it was
        rw.remove("mesh")
        rw.append("mesh")
    return rw


def core(tier):
    out = []
    for i, st in enumerate(STRUCTS):
        rng = random.Random("c16 %d" % i)
        for rw in (["order", "split", "solver"] + (["lists"] if i % 2 else ["objects"]), ["relabel", "spelling", "constructor"] + (["objects"] if i % 2 else ["lists"]), ["pieces", "mesh", "idle"] if i % 2 else ["twin_trap", "observe", "mesh"]):
            out.append([make(rng, st, rw)])
    for i, st in enumerate(STRUCTS):
        out.append([make(random.Random("c16 units %d" % i), st, ["units"])])
    rng = random.Random("c16 all")
    for i, st in enumerate(STRUCTS[:10]):
        out.append([make(rng, st, ["pieces", "twin_trap", "order", "relabel", "split", "spelling", "constructor", "mesh", "observe"] + ["units"] * (i % 2))])
    return out


def random_batches(rng, tier):
    while True:
        st = rng.choice(STRUCTS)
        yield [make(rng, st, some(rng))]
