"""C20 several processes"""
from .compose import *
from .c12 import T_BCS, quantities

LEVEL = "exploration"
RULE = ("a case is one model run on one process and on several; non-trivial when the parallel run really had that many connected "
        "processes and its quantities, files and fields were compared; distinct by specification and number of processes")
ASSUMPTIONS = ["the nonlinear solvers converge well below 1e-6 of the field's size, so the partition does not show",
               "quantities at a point are left out: only the process that owns the point can compute them, the others stop with an error"]
NEED = {"runs": 14, "quantities": 300, "files": 40, "fields": 150}
BUDGET = {"quick": 50, "thorough": 420}
STRUCTS = [
    dict(nmat=2, traps=[dict(mats=[0, 1], multi=True), dict(mats=[1])], bcs=[["dirichlet", [1, 2]]], T="xt", sources=[["source", [0, 1]]]),
    dict(nmat=3, ids=[4, 2, 0], traps=[dict(mats=[0, 2]), dict(mats=[1], id=7)], bcs=[["sieverts", [1]], ["flux", [2]]], T="xt", dt="adaptive"),
    dict(nmat=2, chem=True, traps=[dict(mats=[1])], bcs=[["dirichlet", 1], ["mass", [2]]], T="xt"),
    dict(nmat=2, heat="transient", bcs=[["dirichlet", [1]], ["dissoc", [2]]] + T_BCS, sources=[["source", [0, 1], dict(field="T")]]),
    dict(nmat=1, traps=[dict(mats=[0])], bcs=[["surfkin", [1]], ["recomb", [2]]], T="t"),
    dict(nmat=1, traps=[dict(mats=[0], kind="extrinsic")], bcs=[["dirichlet", [1]]], T="t", sources=[["implantation", 0]]),
    dict(nmat=2, elt="DG", traps=[dict(mats=[0, 1])], bcs=[["implantation", [1]], ["flux", [2]]], T="xt"),
    dict(nmat=2, steady=True, traps=[dict(mats=[1])], bcs=[["dirichlet", [1, 2]]], T="x"),
    dict(dim=2, nmat=3, traps=[dict(mats=[0, 1])], bcs=[["custom_dirichlet", [1]], ["flux", [2, 4]]], T="xt", sources=[["source", [0, 2]]]),
    dict(dim=2, nmat=2, via_xdmf=True, soret=True, bcs=[["flux", [1, 2]]], T="xt"),
    dict(typ="cylindrical", nmat=1, traps=[dict(mats=[0])], bcs=[["henrys", [1]], ["flux", [2]]], T="xt"),
    dict(dim=3, nmat=2, bcs=[["dirichlet", [1]], ["flux", [2]]], T="t"),
]


def make(rng, st, procs):
    spec = fill(rng, st)
    qs = [q for q in quantities(rng, spec, st, n=8) if q["kind"] != "PointValue"]
    return dict(spec=spec, st=st, procs=procs, quantities=qs)


def core(tier):
    out = []
    for i, st in enumerate(STRUCTS):
        rng = random.Random("c20 %d" % i)
        out.append([make(rng, st, 2)])
        if i % 2 == 0:
            out.append([make(rng, st, 3)])
    return out


def random_batches(rng, tier):
    while True:
        yield [make(rng, rng.choice(STRUCTS), rng.choice([2, 2, 3, 4]))]
