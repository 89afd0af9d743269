"""C06 Dirichlet-type boundary conditions"""
from .compose import *

LEVEL = "exploration"
RULE = ("a case is one full FESTIM run with imposed-value boundary conditions; non-trivial when at least one boundary "
        "node value was compared with the user's law at the current time and local temperature; distinct by specification")
ASSUMPTIONS = ["imposed values are compared at boundary nodes with 2e-5 relative tolerance",
               "rows next to the boundary are also replayed so that no condition leaks to other nodes"]
NEED = {"steps": 60, "values:dirichlet_c": 300, "values:dirichlet_t": 10, "values:dirichlet_T": 10}
NEED_SIG = {}

D = lambda s, **o: ["dirichlet", s, o]
CORE = [
    dict(bcs=[D([1]), D([2], field="solute")]),
    dict(bcs=[D(1), ["sieverts", [2]]], dt="adaptive", T="xt"),
    dict(bcs=[["sieverts", [1, 2]]], T="xt"),
    dict(bcs=[["henrys", 1], ["implantation", [2], dict(level=0)]], T="xt"),
    dict(bcs=[["implantation", [1], dict(level=1)], ["implantation", [2], dict(level=2)]], T="xt"),
    dict(bcs=[["custom_dirichlet", [1]], ["henrys", [2]]], T="xt", dt="milestones"),
    dict(nmat=2, chem=True, bcs=[D([1]), ["sieverts", [2]]], T="xt"),
    dict(nmat=2, chem=True, bcs=[["henrys", [1]], ["custom_dirichlet", [2]]], T="xt", laws=["henry", "sievert"]),
    dict(nmat=1, chem=True, bcs=[D([1]), D([2])], laws=["henry"], T="t"),
    dict(nmat=1, chem=True, bcs=[D([1]), ["implantation", [2], dict(level=2)]], T="x"),
    dict(traps=[[0], [0]], bcs=[D([1]), D([2], field=1), D([1], field=2)]),
    dict(traps=[[0], [0]], bcs=[D([1], field="0"), D([2], field="2"), D([2], field="1")], elt="CG"),
    dict(dim=2, nmat=2, bcs=[D([1]), D([2, 4]), ], T="xt"),
    dict(dim=2, nmat=1, surf_ids=[3, 7, 9, 12], bcs=[["sieverts", [3]], D([12]), ["custom_dirichlet", 9]], T="xt"),
    dict(dim=2, nmat=2, via_xdmf=True, bcs=[["sieverts", [1]], ["henrys", [4]]], T="xt"),
    dict(dim=3, nmat=1, bcs=[D([1]), ["sieverts", [2]]], T="xt"),
    dict(heat="transient", bcs=[D([1], field="T"), D([2], field="T"), ["sieverts", [1]]]),
    dict(heat="transient", bcs=[["custom_dirichlet", [1], dict(field="T")], D([2], field="T"), D([1])]),
    dict(heat="steady", bcs=[D([1], field="T"), ["flux", [2], dict(field="T")], ["henrys", [2]]]),
    dict(steady=True, T="x", bcs=[["sieverts", [1]], ["implantation", [2], dict(level=2)]]),
    dict(typ="cylindrical", bcs=[D([1]), ["sieverts", [2]]]),
    dict(typ="spherical", bcs=[["custom_dirichlet", [1]], ["sieverts", [2]]]),
    dict(dim=2, nmat=1, surf_ids=NUMBERS, bcs=[["sieverts", [11]], D([2]), ["custom_dirichlet", 12]], T="xt"),
    dict(bcs=[["sieverts", [1]], ["implantation", [2], dict(level=1)]], T="hump"), dict(bcs=[["henrys", [1]]], T="plateau", dt="adaptive"),
]


def core(tier):
    return core_of("c06", CORE)


def structure(rng):
    dim = rng.choice([1, 1, 1, 2, 2, 3])
    typ = rng.choice(["cartesian"] * 4 + ["cylindrical", "spherical"]) if dim == 1 else "cartesian"
    chem = rng.random() < .35
    nmat = rng.choice([1, 2]) if typ == "cartesian" else 1
    nt = 0 if chem and rng.random() < .7 else rng.choice([0, 0, 1, 2])
    laws = [rng.choice(["henry", "sievert"]) for _ in range(2)] if chem and nt == 0 else []
    kinds = ["dirichlet", "dirichlet", "sieverts", "henrys", "implantation", "custom_dirichlet"]
    surf = [1, 2] if dim == 1 else [1, 2, 3, 4]
    sid = None
    if dim == 2 and rng.random() < .4:
        sid = rng.sample(range(1, 15), 4)
        surf = sid
    rng.shuffle(surf)
    bcs, pool = [], list(surf)
    while pool and rng.random() < .85:
        n = rng.choice([1, 1, 2])
        s, pool = pool[:n], pool[n:]
        # two conditions meeting at a corner node would both claim it
        if dim > 1 and bcs:
            break
        k = rng.choice(kinds)
        bcs.append([k, s if rng.random() < .7 or len(s) > 1 else s[0], {}] if k != "dirichlet" else
                   [k, s, dict(field=rng.choice([0, "0", "solute"]))])
    for i in range(nt):
        bcs.append(["dirichlet", [rng.choice(surf)], dict(field=rng.choice([i + 1, str(i + 1)]))])
    st = dict(dim=dim, typ=typ, nmat=nmat, chem=chem, laws=laws, traps=[[0]] * nt, bcs=bcs, surf_ids=sid,
              T=rng.choice(["x", "xt", "t", "const", "hump", "plateau", "hinge"]), dt=rng.choice(["fixed", "adaptive", "milestones"]))
    if rng.random() < .2:
        st["heat"] = rng.choice(["transient", "steady"])
        st["bcs"] = bcs + [["dirichlet", [surf[0]], dict(field="T")], ["flux", [surf[1]], dict(field="T")]]
    return st


def random_batches(rng, tier):
    while True:
        yield cases(rng, structure(rng), 4)
