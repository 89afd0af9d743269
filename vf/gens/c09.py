"""C09 temperature seen by the model"""
from .compose import *

LEVEL = "exploration"
RULE = ("a case is one full FESTIM run; non-trivial when the temperature field of at least one accepted step was compared "
        "with the user's law at that time, or replayed through the heat equation; distinct by specification")
ASSUMPTIONS = ["backward Euler / P1 Galerkin for the heat equation; properties evaluated at the new temperature",
               "prescribed temperatures are compared at the nodes (1e-9 relative)"]
NEED = {"steps": 60, "rows:heat": 300, "values:temperature": 300, "values:dirichlet_T": 30}
NEED_SIG = {"heat/transient": .05, "heat/conduction": .05, "heat/source": .02, "heat/bc:flux": .02, "heat/bc:convective": .02}

HT = dict(field="T")
D1 = ["dirichlet", [1], HT]
CORE = [
    dict(T="xt", dt="adaptive"), dict(T="t"), dict(T="hump"), dict(T="plateau"), dict(T="hinge"), dict(T="hinge", dim=2), dict(T="x", steady=True, bcs=[["dirichlet", [1]], ["dirichlet", [2]]]),
    dict(T="const"), dict(T="xt", dim=2, nmat=2), dict(T="xt", dim=3), dict(T="xt", typ="cylindrical"), dict(T="xt", typ="spherical"),
    dict(nmat=2, heat="transient", bcs=[D1, ["convective", [2]]], sources=[["source", 0, HT]]),
    dict(nmat=3, heat="transient", bcs=[D1, ["flux", [2], HT]], sources=[["source", [0, 2], HT], ["source", 1, HT]], dt="adaptive"),
    dict(nmat=2, sandwich=True, heat="transient", bcs=[D1], sources=[["source", 1, HT]], dt="milestones"),
    dict(heat="transient", bcs=[], sources=[["source", 0, HT]]),
    dict(heat="transient", typ="cylindrical", bcs=[["convective", [2]]], sources=[["source", 0, HT]]),
    dict(heat="transient", typ="spherical", bcs=[["convective", [2]], D1], sources=[["source", 0, HT]]),
    dict(heat="transient", dim=2, nmat=2, bcs=[["convective", [2, 4]], D1], sources=[["source", 1, HT]]),
    dict(heat="transient", dim=2, nmat=3, via_xdmf=True, bcs=[["flux", [2, 4], HT], D1]),
    dict(heat="steady", nmat=2, bcs=[D1, ["convective", [2]]], sources=[["source", 0, HT]]),
    dict(heat="steady", dim=2, nmat=2, bcs=[D1, ["flux", [2, 3], HT]], sources=[["source", 1, HT]]),
    dict(heat="steady", typ="cylindrical", bcs=[D1, ["dirichlet", [2], HT]]),
    dict(heat="steady", typ="spherical", bcs=[D1, ["flux", [2], HT]]),
    dict(heat="steady", steady=True, nmat=2, bcs=[D1, ["flux", [2], HT], ["dirichlet", [1]], ["dirichlet", [2]]], sources=[["source", 0, HT]]),
    dict(heat="transient", nmat=1, soret=True, traps=[[0]], bcs=[D1, ["convective", [2]]]),
    dict(nmat=5, ids=[12, 1, 21, 2, 10], n=15, heat="transient", bcs=[D1, ["flux", [2], HT]], sources=[["source", [0, 2], HT], ["source", 1, HT]]),
    dict(xdmf=2), dict(xdmf=1, dim=2, nmat=2), dict(xdmf=3, steady=True, bcs=[["dirichlet", [1]], ["dirichlet", [2]]]),
]


def make(rng, st, n, label=None):
    cs = cases(rng, st, n, label)
    for c in cs:
        if st.get("xdmf"):
            d = st.get("dim", 1)
            c["spec"]["T"] = dict(kind="xdmf", label="temp", fields=[temperature(rng, d, "x")["value"] for _ in range(st["xdmf"])])
        elif c["spec"]["T"]["kind"] == "expr" and rng.random() < .4:
            c["spec"]["T"]["wrap"] = False
    return cs


def core(tier):
    out = []
    for i, st in enumerate(CORE):
        out.append(make(random.Random("c09 core %d" % i), st, 2, "core%d %s" % (i, st)))
    return out


def structure(rng):
    dim = rng.choice([1, 1, 1, 2, 2])
    typ = rng.choice(["cartesian"] * 3 + ["cylindrical", "spherical"]) if dim == 1 else rng.choice(["cartesian", "cartesian", "cylindrical"])
    nmat = rng.choice([1, 2, 3]) if typ == "cartesian" else 1
    st = dict(dim=dim, typ=typ, nmat=nmat, T=rng.choice(["x", "xt", "t", "hump", "plateau", "hinge"]), dt=rng.choice(["fixed", "adaptive", "milestones"]))
    k = rng.random()
    if k < .15:
        st["xdmf"] = rng.choice([1, 2, 3])
    elif k < .85:
        st["heat"] = rng.choice(["transient", "transient", "steady"])
        surf = [1, 2] if dim == 1 else [1, 2, 3, 4]
        rng.shuffle(surf)
        bcs = []
        if st["heat"] == "steady" or rng.random() < .6:
            bcs.append(["dirichlet", [surf[0]], HT])
        for s in surf[1:]:
            q = rng.choice(["flux", "convective", "custom_flux", None])
            if q:
                bcs.append([q, [s], HT])
        st["bcs"] = bcs
        st["sources"] = [["source", rng.choice([0, 1, [0, 1]]) if nmat > 1 else 0, HT] for _ in range(rng.choice([0, 1, 2]))]
        st["ids"] = perm_ids(rng) if dim == 1 else None
        st["sandwich"] = dim == 1 and nmat == 2 and rng.random() < .3
    return st


def random_batches(rng, tier):
    while True:
        yield make(rng, structure(rng), 4)
