"""C19 volumetric sources and radioactive decay"""
from .compose import *

LEVEL = "exploration"
RULE = ("a case is one full FESTIM run with volumetric sources, implantation profiles or radioactive decay on chosen fields "
        "and subdomains; non-trivial when at least one accepted step was replayed for every field; distinct by specification")
ASSUMPTIONS = ["source densities are polynomials of degree <= 2 in space, any shape in time; implantation profiles are "
               "gaussian and judged within the interpolation error of the documented element", "row tolerance 2e-5 relative"]
NEED = {"steps": 60, "rows:mobile": 500, "rows:trap": 200, "rows:heat": 50}
NEED_SIG = {"mobile/source:source": .05, "mobile/source:implantation": .02, "mobile/source:decay": .05,
            "trap/source:source": .05, "trap/source:decay": .05, "heat/source": .02}
S, I, D = "source", "implantation", "decay"
F_ = lambda f: dict(field=f)
HB = [["dirichlet", [1], F_("T")], ["flux", [2], F_("T")]]
CORE = [
    dict(nmat=2, sources=[[S, 0], [S, 1, F_(0)], [S, 0, F_("mobile")]]), dict(nmat=2, sources=[[S, [0, 1], F_("solute")], [S, 1]], dt="adaptive"),
    dict(nmat=2, traps=[[0, 1], [1]], sources=[[S, 0, F_("1")], [S, 1, F_("2")], [S, 1]]),
    dict(nmat=2, traps=[[0, 1]], sources=[[S, [0, 1], F_(1)], [S, 1, F_("1")]], elt="DG"),
    dict(nmat=2, traps=[dict(mats=[0], id=5), dict(mats=[1, 0], id=2)], sources=[[S, 0, F_("5")], [S, 1, F_(2)], [S, [0, 1]]]),
    dict(nmat=1, sources=[[I, 0]]), dict(nmat=2, sources=[[I, 0], [I, 1], [S, 0]], dt="milestones"),
    dict(nmat=2, traps=[[0]], sources=[[I, [0, 1]], [D, 0]]),
    dict(nmat=2, traps=[[0], [0, 1]], sources=[[D, 0], [D, 1, F_("all")]]),
    dict(nmat=2, traps=[[0], [0, 1]], sources=[[D, [0, 1]]], elt="DG"),
    dict(nmat=2, traps=[[0], [0, 1]], sources=[[D, 0, F_("0")], [D, 1, F_("1")], [D, [0, 1], F_("2")]]),
    dict(nmat=1, traps=[dict(mats=[0], id=4)], sources=[[D, 0, F_(4)], [D, 0, F_("solute")]]),
    dict(nmat=2, chem=True, traps=[[0]], sources=[[D, [0, 1]], [S, 1]]),
    dict(nmat=2, chem=True, sources=[[D, 0], [D, 1, F_("0")], [I, 0]], T="t"),
    dict(nmat=2, heat="transient", sources=[[S, 0, F_("T")], [S, 1, F_("T")], [S, 1]], bcs=HB),
    dict(nmat=2, heat="steady", sources=[[S, [0, 1], F_("T")], [D, 0]], bcs=HB),
    dict(dim=2, nmat=3, heat="transient", sources=[[S, 2, F_("T")], [S, [0, 1]]], bcs=HB),
    dict(dim=2, nmat=3, traps=[[0, 1]], sources=[[S, 1], [D, 2], [I, 0], [S, 0, F_("1")]]),
    dict(dim=3, nmat=2, traps=[[0]], sources=[[S, 1], [D, 0], [S, 0, F_("1")]]),
    dict(typ="cylindrical", traps=[[0]], sources=[[S, 0], [D, 0], [I, 0]]),
    dict(typ="spherical", traps=[[0]], sources=[[S, 0, F_("1")], [D, 0]]),
    dict(steady=True, traps=[[0]], sources=[[S, 0], [D, 0, F_("0")]], bcs=[["dirichlet", [1]], ["dirichlet", [2]]], T="x"),
    dict(nmat=3, ids=[7, 0, 12], traps=[[0, 2]], sources=[[S, 2], [D, 1], [S, [0, 2], F_("1")]]),
    dict(nmat=2, sandwich=True, sources=[[S, 0], [D, 2]], traps=[[0]]),
    dict(objects=True, nmat=2, traps=[[0, 1]], sources=[[S, 0], [S, 1, F_("1")], [S, [0, 1], F_(0)]]),
    dict(objects=True, nmat=2, heat="transient", traps=[[0]], sources=[[S, 0, F_("T")], [S, 1, F_("T")], [S, 1], [S, 0, F_("1")]], bcs=HB),
    dict(objects=True, dim=2, nmat=2, heat="steady", sources=[[S, 0, F_("T")], [S, 1]], bcs=HB, dt="adaptive"),
    dict(objects=True, nmat=2, chem=True, sources=[[S, 0], [S, 1]]),
    dict(nmat=3, traps=[[0, 1]], sources=[[D, [0, 1], F_("solute")], [D, [1, 2], F_("1")]]),
    dict(nmat=3, ids=[4, 1, 8], traps=[[0, 2], [1, 2]], sources=[[D, [2, 0], F_("mobile")], [D, [1, 2, 0], F_(2)], [I, [2, 1]]], elt="DG"),
    dict(CROWD, sources=[[S, 1, F_("1")], [S, 0, F_(12)], [D, 3, F_("2")], [D, 4, F_(21)], [S, 2], [S, 4]], T="t"),
]


def core(tier):
    return core_of("c19", CORE)


def structure(rng):
    dim = rng.choice([1, 1, 1, 1, 2, 2, 3])
    typ = rng.choice(["cartesian"] * 3 + ["cylindrical", "spherical"]) if dim == 1 else "cartesian"
    nmat = rng.choice([1, 2, 3]) if dim < 3 and typ == "cartesian" else 1
    nt = rng.choice([0, 1, 1, 2])
    ids = rng.choice([None, None, [5, 2], [1, 12]])
    traps = [dict(mats=sorted(rng.sample(range(nmat), rng.randint(1, nmat))), id=ids[i] if ids else None) for i in range(nt)]
    labs = [(ids[i] if ids else i + 1) for i in range(nt)]
    heat = rng.choice([None, None, None, "transient", "steady"])
    src = []
    for _ in range(rng.randint(1, 4)):
        k = rng.choice([S, S, D, D, I])
        flds = ["0", 0, "solute", "mobile"] + labs + [str(q) for q in labs] + (["T"] if heat and k == S else [])
        vol = rng.choice([0, 1, 2, [0, 1], list(range(nmat))])
        if isinstance(vol, list) and nmat == 1:
            vol = 0
        o = {} if k == I or (k == D and rng.random() < .5) else F_(rng.choice(flds))
        src.append([k, vol, o])
    st = dict(dim=dim, typ=typ, nmat=nmat, traps=traps, sources=src, elt=rng.choice(["CG", "DG"]), heat=heat,
              T=rng.choice(["x", "xt", "t"]), dt=rng.choice(["fixed", "adaptive", "milestones"]),
              bcs=(list(HB) if heat else []) + rng.choice([[], [["dirichlet", [1]]], [["flux", [2]]]]),
              ids=perm_ids(rng) if dim == 1 else None, objects=rng.random() < .25)
    if heat is None and rng.random() < .15:
        st["chem"] = True
    return st


def random_batches(rng, tier):
    while True:
        yield cases(rng, structure(rng), 4)
