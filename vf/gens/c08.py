"""C08 conservation of chemical potential"""
from .compose import *

LEVEL = "exploration"
RULE = ("a case is one full FESTIM run with chemical potential conservation; non-trivial when the concentration reported to "
        "the user was compared with potential times solubility in every cell and the transport rows were replayed; "
        "distinct by specification")
ASSUMPTIONS = ["the reported concentration is the cell-wise L2 projection of potential times solubility (DG1)",
               "c0 of the initial condition is projected on continuous potentials (documented)"]
NEED = {"steps": 60, "rows:mobile": 400, "values:concentration": 300, "interfaces": 20}
NEED_SIG = {"mobile/transient": .02, "mobile/diffusion": .02}

CORE = [
    dict(nmat=2, bcs=[["dirichlet", [1]]], T="xt"),
    dict(nmat=3, bcs=[["dirichlet", [1]], ["sieverts", [2]]], T="x"),
    dict(nmat=2, laws=["henry", "sievert"], bcs=[["dirichlet", [1]], ["dirichlet", [2]]], T="xt"),
    dict(nmat=2, laws=["sievert", "henry"], bcs=[["flux", [1]]], T="t"),
    dict(nmat=1, laws=["henry"], bcs=[["dirichlet", [1]]], T="x"),
    dict(nmat=2, sandwich=True, bcs=[["dirichlet", [1]]], T="xt", dt="adaptive"),
    dict(nmat=3, ids=[9, 0, 6], laws=["henry", "sievert", "henry"], bcs=[["dirichlet", [2]]], T="const"),
    dict(nmat=2, traps=[dict(mats=[0, 1], multi=True)], bcs=[["dirichlet", [1]]], T="xt"),
    dict(nmat=2, traps=[dict(mats=[1])], elt="DG", bcs=[["recomb", [1]]], T="xt", dt="milestones"),
    dict(nmat=2, steady=True, bcs=[["dirichlet", [1]], ["dirichlet", [2]]], T="x"),
    dict(nmat=2, steady=True, laws=["sievert", "sievert"], bcs=[["sieverts", [1]], ["dirichlet", [2]]], T="const"),
    dict(dim=2, nmat=2, bcs=[["dirichlet", [1]]], T="xt"),
    dict(dim=2, nmat=3, laws=["sievert", "henry", "sievert"], bcs=[["dirichlet", [3]]], T="x"),
    dict(dim=2, nmat=2, via_xdmf=True, soret=True, bcs=[["dirichlet", [1]]], T="xt"),
    dict(typ="cylindrical", nmat=1, bcs=[["dirichlet", [1]]], T="xt"),
    dict(typ="spherical", nmat=1, laws=["henry"], bcs=[["dirichlet", [1]]], T="xt"),
    dict(nmat=2, heat="transient", bcs=[["dirichlet", [1], dict(field="T")], ["flux", [2], dict(field="T")], ["dirichlet", [1]]]),
    dict(nmat=2, heat="steady", bcs=[["dirichlet", [1], dict(field="T")], ["flux", [2], dict(field="T")], ["dirichlet", [1]]]),
    dict(nmat=2, soret=True, laws=["henry", "sievert"], bcs=[["dirichlet", [1]]], T="xt"),
    dict(nmat=2, sandwich=True, laws=["henry", "henry"], bcs=[["mass", [1, 2]]], T="xt"),
    dict(nmat=2, sandwich=True, ids=[5, 2, 8], laws=["henry", "sievert"], bcs=[["mass", [1]], ["recomb", [2]]], T="t"),
    dict(nmat=2, sandwich=True, laws=["sievert", "henry"], bcs=[["custom_flux", [1, 2]]], T="xt"),
    dict(nmat=3, laws=["henry", "sievert", "henry"], bcs=[["recomb", [1]], ["mass", [2]]], T="const",
         sources=[["decay", [0, 1, 2]]]),
    dict(dim=2, nmat=3, laws=["henry", "henry", "sievert"], bcs=[["mass", [1, 2]], ["recomb", [3]]], T="t"),
    dict(nmat=5, ids=[12, 1, 21, 2, 10], n=15, laws=["henry", "sievert", "sievert", "henry", "sievert"], T="xt", bcs=[["dirichlet", [1]]]),
    dict(dim=2, nmat=2, small=True, laws=["henry", "sievert"], bcs=[["dirichlet", [1]]], T="xt"),
]
CORE += [dict(nmat=2, bcs=[["dirichlet", [1]]], T="hump"), dict(nmat=2, bcs=[["dirichlet", [1]]], T="plateau"),
         dict(dim=2, nmat=2, laws=["sievert", "henry"], bcs=[["dirichlet", [1]]], T="hump")]
CORE += [dict(xdmf=2, nmat=2, bcs=[["dirichlet", [1]]]), dict(xdmf=1, dim=2, nmat=2, bcs=[["dirichlet", [1]]]),
         dict(xdmf=2, nmat=2, steady=True, bcs=[["dirichlet", [1]], ["dirichlet", [2]]]),
         dict(xdmf=1, nmat=2, laws=["henry", "sievert"], bcs=[["dirichlet", [1]]])]
for _s in CORE:
    _s["chem"] = True


def make(rng, st, n, label=None):
    cs = cases(rng, st, n, label)
    for c in cs:
        if st.get("xdmf"):
            c["spec"]["T"] = dict(kind="xdmf", label="temp", fields=[temperature(rng, st.get("dim", 1), "x")["value"] for _ in range(st["xdmf"])])
    return cs


def core(tier):
    return [make(random.Random("c08 core %d" % i), st, 2, "core%d %s" % (i, st)) for i, st in enumerate(CORE)]


def structure(rng):
    dim = rng.choice([1, 1, 1, 2])
    typ = rng.choice(["cartesian"] * 4 + ["cylindrical", "spherical"]) if dim == 1 else "cartesian"
    nmat = rng.choice([1, 2, 2, 3]) if typ == "cartesian" else 1
    st = dict(dim=dim, typ=typ, nmat=nmat, chem=True, soret=rng.random() < .3, T=rng.choice(["x", "xt", "t", "const", "hump", "plateau", "hinge"]),
              dt=rng.choice(["fixed", "adaptive", "milestones"]), bcs=rng.choice([[["dirichlet", [1]]], [["dirichlet", [1]], ["sieverts", [2]]], []]),
              ids=perm_ids(rng) if dim == 1 else None, sandwich=dim == 1 and nmat == 2 and rng.random() < .3)
    if rng.random() < .5:
        st["laws"] = [rng.choice(["henry", "sievert"]) for _ in range(3)]
    else:
        st["traps"] = [dict(mats=rng.sample(range(nmat), rng.randint(1, nmat)), multi=True) for _ in range(rng.choice([0, 1, 2]))]
        st["elt"] = rng.choice(["CG", "DG"])
    if rng.random() < .4 and st["T"] != "x":
        st["bcs"] = rng.choice([[["mass", [1, 2]]], [["dirichlet", [1]], ["recomb", [2]]], [["custom_flux", [2]]]])
        if rng.random() < .4:
            st["sources"] = [["decay", [0]], ["source", [1]]]
    elif rng.random() < .2:
        st["heat"] = rng.choice(["transient", "steady"])
        st["bcs"] = st["bcs"] + [["dirichlet", [1], dict(field="T")], ["flux", [2], dict(field="T")]]
    if "heat" not in st and all(b[0] in ("dirichlet", "sieverts") for b in st["bcs"]) and "sources" not in st and rng.random() < .15:
        st["xdmf"] = rng.choice([1, 2])
    return st


def random_batches(rng, tier):
    while True:
        yield make(rng, structure(rng), 4)
