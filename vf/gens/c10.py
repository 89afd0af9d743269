"""C10 extrinsic and neutron-induced trap densities"""
from .compose import *

LEVEL = "exploration"
RULE = ("a case is one full FESTIM run with traps whose density evolves; non-trivial when at least one accepted step of the "
        "density was replayed through its creation/annealing law; distinct by specification")
ASSUMPTIONS = ["the density starts at zero and is integrated by backward Euler over the accepted step with parameters at the "
               "time reached", "the density used by the transport step is the one known at its start"]
NEED = {"steps": 60, "rows:density": 500}
NEED_SIG = {"density/transient": .05, "density/create_a": .02, "density/create_b": .02, "density/create": .02, "density/anneal": .02}

X = lambda m=(0,), **k: dict(mats=list(m), kind="extrinsic", **k)
N = lambda m=(0,), **k: dict(mats=list(m), kind="neutron", **k)
CORE = [
    dict(traps=[X()], T="xt"), dict(traps=[N()], T="xt"), dict(traps=[X(), N()], T="xt", dt="adaptive"),
    dict(traps=[N(), dict(mats=[0]), X()], T="t", dt="milestones"),
    dict(nmat=2, traps=[X((0, 1)), N((1,))], T="xt"),
    dict(nmat=2, traps=[N((0,), id=7), X((1,), id=3)], T="xt", elt="DG"),
    dict(traps=[X(tpar=["phi_0", "f_a"])], T="xt", dt="adaptive"),
    dict(traps=[N(tpar=["phi", "K"])], T="xt", dt="adaptive"),
    dict(traps=[X(tpar=["eta_a", "eta_b", "n_amax"]), N(tpar=["n_max", "A_0"])], T="t"),
    dict(traps=[X(tpar=["n_bmax", "f_b"])], T="x"),
    dict(dim=2, nmat=2, traps=[X((0,)), N((0, 1))], T="xt"),
    dict(typ="cylindrical", traps=[N(), X()], T="xt"), dict(typ="spherical", traps=[N()], T="xt"),
    dict(chem=True, nmat=2, traps=[N((0,)), X((1,))], T="xt"),
    dict(heat="transient", traps=[N()], bcs=[["dirichlet", [1], dict(field="T")], ["flux", [2], dict(field="T")]]),
    dict(objects=True, traps=[X(tpar=["phi_0", "f_b"]), N(tpar=["phi", "A_0"])], T="xt"),
    dict(objects=True, nmat=2, traps=[N((0, 1), tpar=["K", "n_max"]), X((1,), tpar=["n_amax", "eta_b"])], T="t", dt="adaptive"),
    dict(objects=True, dim=2, traps=[N(tpar=["phi"]), X(tpar=["eta_a"])], T="x"),
    dict(traps=[N(), N()], T="xt", bcs=[["dirichlet", [1]]], sandwich=True, nmat=2),
]


def core(tier):
    return core_of("c10", CORE)


PX = ["phi_0", "n_amax", "n_bmax", "eta_a", "eta_b", "f_a", "f_b"]
PN = ["phi", "K", "n_max", "A_0"]


def structure(rng):
    dim = rng.choice([1, 1, 1, 2])
    typ = rng.choice(["cartesian"] * 3 + ["cylindrical", "spherical"]) if dim == 1 else "cartesian"
    nmat = rng.choice([1, 2]) if typ == "cartesian" else 1
    traps = []
    for _ in range(rng.choice([1, 2])):
        q = rng.choice([X, N])
        p = PX if q is X else PN
        traps.append(q(rng.sample(range(nmat), rng.randint(1, nmat)), tpar=rng.sample(p, rng.choice([0, 0, 1, 2]))))
    if rng.random() < .3:
        traps.insert(0, dict(mats=[0]))
    return dict(dim=dim, typ=typ, nmat=nmat, traps=traps, T=rng.choice(["x", "xt", "t"]), elt=rng.choice(["CG", "DG"]),
                dt=rng.choice(["fixed", "adaptive", "milestones"]), chem=rng.random() < .2,
                bcs=rng.choice([[], [["dirichlet", [1]]]]), objects=rng.random() < .25)


def random_batches(rng, tier):
    while True:
        yield cases(rng, structure(rng), 4)
