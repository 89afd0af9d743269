"""C14 restart"""
from .compose import *
from .c12 import T_BCS

LEVEL = "exploration"
RULE = ("a case is an uninterrupted FESTIM run exporting checkpoints and a second run restarted from one stored step with inputs "
        "shifted in time; non-trivial when at least one later step of both runs was compared; distinct by specification and stored step")
ASSUMPTIONS = ["traps whose density evolves cannot be restarted (no interface for it) and are left out",
               "with conservation of chemical potential the stored concentration is a projection: compared within 0.2 % of its size"]
NEED = {"steps": 100, "restarts": 30, "fields": 200}
BUDGET = {"quick": 40, "thorough": 420}


def make(rng, st, label=None, p=.3):
    spec = fill(rng, st)
    n = rng.randint(5, 8) if rng.random() < .6 else rng.choice([16, 20])
    spec["dt"] = dict(value=r6(.5 / n))
    spec["settings"]["final_time"] = r6(spec["dt"]["value"] * n)
    for b in spec["bcs"]:
        if b["kind"] == "surfkin" and isinstance(b["surfaces"], list) and len(b["surfaces"]) > 1:
            b["surfaces"] = b["surfaces"][:1]
    c = dict(st=st, spec=spec, mode=rng.choice([1, 1, 2, 3]) if n < 9 else 1, k=rng.choice([0, 1, 1, 2, 3]) if n < 9 else rng.choice([4, 9, 10, 11]), solute_as=rng.choice([0, "0", "solute"]))
    if rng.random() < .3:
        c["folder"] = "ck"
    if st.get("heat") and (rng.random() < .7 or "k" in st):
        c["T_file"] = True
    if "k" in st:
        c["k"] = st["k"]
    if label:
        c["label"] = label
    return in_units(rng, c, p)


F1 = [["dirichlet", [1]], ["flux", [2]]]
CORE = [
    dict(nmat=1, bcs=F1, T="xt"),
    dict(nmat=1, bcs=[["mass", [1, 2]]], T="const", traps=[dict(mats=[0])]),
    dict(nmat=2, traps=[dict(mats=[0, 1], multi=True), dict(mats=[1])], bcs=F1, T="xt"),
    dict(nmat=2, traps=[dict(mats=[0, 1], id=4), dict(mats=[1], id=2), dict(mats=[0], id=9)], bcs=F1, T="t"),
    dict(nmat=3, ids=[9, 0, 6], elt="DG", traps=[dict(mats=[1]), dict(mats=[0, 2])], bcs=F1, T="t"),
    dict(nmat=2, heat="transient", bcs=F1 + T_BCS),
    dict(nmat=2, heat="transient", bcs=F1 + T_BCS, traps=[dict(mats=[0])], soret=True),
    dict(nmat=1, heat="steady", bcs=F1 + T_BCS),
    dict(nmat=2, chem=True, bcs=[["dirichlet", [1]]], T="xt"),
    dict(nmat=2, chem=True, laws=["henry", "sievert"], bcs=[["dirichlet", [1]]], T="t"),
    dict(nmat=2, chem=True, traps=[dict(mats=[1], id=3), dict(mats=[0], id=1)], bcs=F1, T="x"),
    dict(nmat=3, chem=True, laws=["sievert", "henry", "sievert"], bcs=[], T="xt"),
    dict(dim=2, nmat=2, bcs=F1, T="xt", traps=[dict(mats=[0, 1])]),
    dict(dim=2, nmat=2, elt="DG", bcs=F1, T="x", traps=[dict(mats=[0])]),
    dict(dim=2, nmat=1, heat="transient", bcs=F1 + T_BCS),
    dict(dim=3, nmat=2, bcs=F1, T="x"),
    dict(typ="cylindrical", nmat=1, bcs=F1, T="xt", traps=[dict(mats=[0])]),
    dict(typ="spherical", nmat=1, bcs=F1, T="xt"),
    dict(nmat=1, bcs=[["surfkin", [1]], ["dirichlet", [2]]], T="t"),
    dict(nmat=1, bcs=[["surfkin", [2]]], T="xt", traps=[dict(mats=[0])]),
    dict(nmat=1, bcs=F1, T="t", sources=[["source", 0], ["decay", [0]]], traps=[dict(mats=[0], id=6)]),
    dict(nmat=2, traps=[dict(mats=[0, 1], id=12), dict(mats=[1], id=1), dict(mats=[0], id=2)], bcs=F1, T="t"),
    dict(k=0, nmat=2, heat="transient", bcs=F1 + T_BCS, traps=[dict(mats=[0], id=2), dict(mats=[1], id=1)]),
    dict(k=0, dim=2, nmat=2, heat="transient", bcs=F1 + T_BCS),
]


def core(tier):
    out = []
    for i, st in enumerate(CORE):
        rng = random.Random("c14 core %d" % i)
        out.append([make(rng, st, "core%d %s" % (i, st), k) for k in range(2)])
    return out


def structure(rng):
    dim = rng.choice([1, 1, 1, 2])
    nmat = rng.choice([1, 2, 3])
    st = dict(dim=dim, nmat=nmat, T=rng.choice(["x", "xt", "t"]), bcs=list(F1),
              ids=perm_ids(rng) if dim == 1 else None, elt=rng.choice(["CG", "DG"]), sandwich=dim == 1 and nmat == 2 and rng.random() < .3)
    tr = []
    for j in range(rng.choice([0, 1, 2, 3])):
        tr.append(dict(mats=rng.sample(range(nmat), rng.randint(1, nmat)), multi=rng.random() < .5))
    if len(tr) == 2 and rng.random() < .5:
        tr[0]["id"], tr[1]["id"] = rng.choice([(8, 3), (12, 1), (2, 21)])
    st["traps"] = tr
    if rng.random() < .25:
        st["chem"] = True
        st["elt"] = "CG"
        st["bcs"] = [["dirichlet", [1]]]
    elif rng.random() < .3:
        st["heat"] = "transient"
        st["bcs"] = st["bcs"] + T_BCS
    return st


def random_batches(rng, tier):
    while True:
        st = structure(rng)
        yield [make(rng, st) for _ in range(3)]
