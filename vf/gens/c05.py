"""C05 trap occupation kinetics"""
from .compose import *

LEVEL = "exploration"
RULE = ("a case is one full FESTIM run of a generated model with traps; non-trivial when at least one accepted step was "
        "replayed through the documented trapping rate law in every trap row; distinct by its input specification")
ASSUMPTIONS = ["backward Euler / P1 Galerkin is the documented discretisation; tolerance 2e-5 relative per row",
               "trap densities are polynomials of degree <= 2 in space, any shape in time"]
NEED = {"steps": 60, "rows:trap": 500}
NEED_SIG = {"trap/transient": .05, "trap/trapping": .05, "trap/detrapping": .05}

CORE = [
    dict(nmat=2, traps=[dict(mats=[0]), dict(mats=[0, 1])], bcs=[["dirichlet", [1]]]),
    dict(nmat=3, traps=[dict(mats=[2, 0], multi=True), dict(mats=[1])], dt="adaptive", names=True),
    dict(nmat=2, names=True, traps=[dict(mats=[1, 0], multi=True, by_name=True), dict(mats=[0], by_name=True)], elt="DG"),
    dict(nmat=2, traps=[dict(mats=[0], id=5), dict(mats=[1], id=2)], elt="DG"),
    dict(nmat=2, sandwich=True, traps=[dict(mats=[0])], dt="milestones"),
    dict(nmat=2, steady=True, traps=[dict(mats=[0]), dict(mats=[1, 0], multi=True)], bcs=[["dirichlet", [1]], ["dirichlet", [2]]], T="x"),
    dict(nmat=1, typ="cylindrical", traps=[dict(mats=[0])]),
    dict(nmat=1, typ="spherical", traps=[dict(mats=[0])]),
    dict(dim=2, nmat=3, traps=[dict(mats=[0, 1], multi=True)], bcs=[["dirichlet", [1, 3]]]),
    dict(dim=3, nmat=2, traps=[dict(mats=[1])]),
    dict(nmat=2, chem=True, traps=[dict(mats=[0, 1], multi=True), dict(mats=[1])], bcs=[["dirichlet", [1]]]),
    dict(nmat=2, traps=[dict(mats=[0], kind="neutron"), dict(mats=[0, 1])]),
    dict(nmat=1, traps=[dict(mats=[0], kind="extrinsic"), dict(mats=[0])], dt="adaptive"),
    dict(nmat=2, heat="transient", traps=[dict(mats=[0, 1])], bcs=[["dirichlet", [1], dict(field="T")], ["flux", [2], dict(field="T")]]),
    dict(nmat=1, traps=[dict(mats=[0])] * 3, bcs=[["dirichlet", [1]], ["dirichlet", [2], dict(field=2)]]),
    dict(nmat=1, n=4, traps=[dict(mats=[0])] * 11, trap_ic=.9),
    dict(CROWD, bcs=[["dirichlet", [1]]], T="xt"),
    dict(objects=True, nmat=2, traps=[dict(mats=[0, 1], multi=True), dict(mats=[1])]),
    dict(objects=True, dim=2, nmat=2, traps=[dict(mats=[0, 1])], elt="DG", dt="adaptive"),
]


def core(tier):
    return core_of("c05", CORE)


def structure(rng):
    dim = rng.choice([1, 1, 1, 1, 2, 2, 3])
    typ = rng.choice(["cartesian"] * 3 + ["cylindrical", "spherical"]) if dim == 1 else "cartesian"
    nmat = rng.choice([1, 2, 3]) if dim < 3 and typ == "cartesian" else rng.choice([1, 2]) if dim == 3 else 1
    chem = rng.random() < .2
    nt = rng.choice([1, 1, 2, 3])
    ids = rng.choice([None, None, [5, 2, 8], [2, 1, 3], [12, 1, 2]])
    names = rng.random() < .4
    traps = []
    for i in range(nt):
        ms = rng.sample(range(nmat), rng.randint(1, nmat))
        kind = rng.choice(["trap"] * 4 + ["neutron", "extrinsic"]) if dim < 3 else "trap"
        traps.append(dict(mats=ms, multi=rng.random() < .5, kind=kind, id=ids[i] if ids else None,
                          by_name=names and kind == "trap"))
    st = dict(dim=dim, typ=typ, nmat=nmat, chem=chem, traps=traps, names=names, T=rng.choice(["x", "xt", "xt", "t", "const"]),
              dt=rng.choice(["fixed", "adaptive", "milestones"]), elt=rng.choice(["CG", "DG"]),
              bcs=rng.choice([[], [["dirichlet", [1]]], [["flux", [1]]]]), ids=perm_ids(rng) if dim == 1 else None,
              objects=rng.random() < .2)
    if rng.random() < .15 and not chem and all(t["kind"] == "trap" for t in traps):
        st.update(steady=True, bcs=[["dirichlet", [1]], ["dirichlet", [2]]])
    return st


def random_batches(rng, tier):
    while True:
        yield cases(rng, structure(rng), 4)
