"""C13 exports"""
from .compose import *
from .c12 import other_units, quantities, T_BCS

LEVEL = "exploration"
RULE = ("a case is one full FESTIM run with several file exports whose content on disk is photographed after every accepted step; "
        "non-trivial when at least one file was compared with the reported fields; distinct by specification and export list")
ASSUMPTIONS = ["steps are counted from the first accepted step (0), as the export cadence does",
               "profile exports of discontinuous fields list, at a filtered vertex, the value of one of the two sides"]
NEED = {"steps": 100, "snapshots": 200, "cells": 3000, "xdmf_steps": 60, "xdmf_fields": 60}
BUDGET = {"quick": 45, "thorough": 480}


def fields_of(spec, strs=False):
    labs = [t.get("id", i) for i, t in enumerate(spec.get("traps", []), 1)]
    return ["solute", "T", "retention"] + [str(x) for x in labs] + ([] if strs else labs)


def make_exports(rng, spec, st, kinds):
    tr = spec["settings"].get("transient", True)
    ft = spec["settings"].get("final_time")
    out = []
    for j, k in enumerate(kinds):
        if k == "csv":
            e = dict(kind=k, filename=rng.choice(["q%d.csv", "out/q%d.csv", "deep/er/q%d.csv"]) % j,
                     quantities=quantities(rng, spec, st, n=3, kinds=None)[:rng.randint(1, 4)])
            if rng.random() < .6:
                e["compute"] = rng.choice([1, 2, 3])
            if rng.random() < .6:
                e["every"] = rng.choice([1, 2, 3, 4])
            if rng.random() < .3:
                e["show_units"] = False
            if not tr:
                e.pop("compute", None)
        elif k == "txt":
            e = dict(kind=k, filename=rng.choice(["p%d.txt", "prof/p%d.txt"]) % j, field=rng.choice(fields_of(spec)))
            if tr and rng.random() < .6:
                e["times"] = [r6(ft * q) for q in rng.sample([.11, .23, .31, .42, .55, .68, .79, .93, 1.0], rng.randint(1, 4))]
                if rng.random() < .5:
                    # very close to another time the run has to pass
                    near = e["times"] + spec.get("dt", {}).get("milestones", []) + [q for o in out for q in o.get("times", [])]
                    e["times"].append(float("%.9g" % (rng.choice(near) * (1 - rng.choice([1e-2, 3e-3, 1e-3, 2e-4])))))
            if rng.random() < .4:
                e["filter"] = rng.random() < .5
            if rng.random() < .4:
                e["write_at_last"] = rng.random() < .7
            if rng.random() < .4:
                e["header_format"] = rng.choice([".4e", ".3f", ".8g"])
        elif k == "density":
            e = dict(kind=k, trap=rng.randrange(len(spec["traps"])), label="dens%d" % j, filename="dens%d.xdmf" % j)
        else:
            e = dict(kind="xdmf", field=rng.choice(fields_of(spec, True)))
            if rng.random() < .5:
                e["label"] = "lab%d" % j
            if rng.random() < .5 or any(x.get("field") == e["field"] and "filename" not in x for x in out):
                e["filename"] = "x%d.xdmf" % j
            if rng.random() < .4:
                e["folder"] = "fold%d" % j
            if rng.random() < .4:
                e["checkpoint"] = rng.random() < .5
        if k in ("xdmf", "density"):
            e["mode"] = rng.choice([1, 1, 2, 3, "last"])
        out.append(e)
    # no two exports into one file
    seen = set()
    keep = []
    for e in out:
        key = (e.get("folder"), e.get("filename") or (e.get("label"), e.get("field")))
        if key not in seen:
            seen.add(key)
            keep.append(e)
    rng.shuffle(keep)
    return keep


def make(rng, st, label=None, p=.3):
    spec = fill(rng, st)
    if st.get("more") and "dt" in spec:
        spec["dt"]["value"] = r6(spec["settings"]["final_time"] / rng.randint(6, 9))
    if st.get("long"):
        spec["dt"] = dict(value=r6(spec["settings"]["final_time"] / 120))
    kinds = ["csv", "csv", "xdmf", "xdmf", "xdmf"] + (["txt", "txt", "txt"] if st.get("dim", 1) == 1 else [])
    if spec.get("traps"):
        kinds.append("density")
    c = dict(st=st, spec=spec, exports=make_exports(rng, spec, st, kinds))
    if rng.random() < .3:
        c["stale"] = [e["filename"] for e in c["exports"] if e["kind"] in ("csv", "txt") and "/" not in e["filename"]][:2]
    if label:
        c["label"] = label
    return other_units(rng, c, p)


F1 = [["dirichlet", [1]], ["flux", [2]]]
CORE = [
    dict(nmat=1, bcs=F1, T="xt", more=True),
    dict(nmat=2, traps=[dict(mats=[0, 1], multi=True), dict(mats=[1])], bcs=F1, T="xt", more=True),
    dict(nmat=2, traps=[dict(mats=[0, 1], id=2), dict(mats=[1], id=5)], bcs=F1, T="t"),
    dict(nmat=3, ids=[9, 0, 6], elt="DG", traps=[dict(mats=[1])], bcs=F1, T="t"),
    dict(nmat=2, sandwich=True, elt="DG", traps=[dict(mats=[0])], bcs=F1, T="x", more=True),
    dict(nmat=2, chem=True, traps=[dict(mats=[1], id=3), dict(mats=[0], id=1)], bcs=F1, T="xt"),
    dict(nmat=2, chem=True, laws=["henry", "sievert"], bcs=F1, T="xt", more=True),
    dict(nmat=2, sandwich=True, chem=True, bcs=F1, T="t"),
    dict(nmat=1, bcs=F1, T="xt", traps=[dict(mats=[0], kind="neutron"), dict(mats=[0], kind="extrinsic")], more=True),
    dict(nmat=2, heat="transient", bcs=F1 + T_BCS, more=True),
    dict(nmat=2, steady=True, bcs=F1, traps=[dict(mats=[1])], T="x"),
    dict(nmat=2, steady=True, chem=True, bcs=[["dirichlet", [1]], ["dirichlet", [2]]], T="x"),
    dict(nmat=1, bcs=F1, T="xt", dt="adaptive"),
    dict(nmat=1, bcs=F1, T="xt", dt="milestones", traps=[dict(mats=[0])]),
    dict(dim=2, nmat=2, traps=[dict(mats=[0, 1])], bcs=F1, T="xt", more=True),
    dict(dim=2, nmat=3, chem=True, bcs=[["dirichlet", [1]]], T="xt"),
    dict(dim=2, nmat=2, elt="DG", traps=[dict(mats=[1], id=6)], bcs=F1, T="x"),
    dict(typ="cylindrical", nmat=1, bcs=F1, T="xt", more=True),
    dict(typ="spherical", nmat=1, bcs=F1, T="xt"),
    dict(dim=3, nmat=2, bcs=F1, T="x"),
    dict(CROWD, bcs=F1, T="xt"),
    dict(nmat=2, traps=[dict(mats=[0, 1], id=10), dict(mats=[1], id=1), dict(mats=[0], id=100)], bcs=F1, T="t"),
    dict(dim=2, nmat=2, small=True, traps=[dict(mats=[0, 1], multi=True), dict(mats=[1])], bcs=F1, T="t"),
    dict(nmat=2, small=2.0 ** -30, chem=True, bcs=F1, T="xt"),
    dict(nmat=1, n=3, long=True, bcs=F1, T="t", traps=[dict(mats=[0])]),
    dict(nmat=2, n=120, bcs=F1, T="xt", chem=True),
    dict(nmat=3, small=2.0 ** -30, elt="DG", traps=[dict(mats=[1])], bcs=F1, T="t"),
]


def core(tier):
    out = []
    for i, st in enumerate(CORE):
        rng = random.Random("c13 core %d" % i)
        out.append([make(rng, st, "core%d %s" % (i, st), k) for k in range(2)])
    return out


def structure(rng):
    dim = rng.choice([1, 1, 1, 2])
    nmat = rng.choice([1, 2, 3])
    st = dict(dim=dim, nmat=nmat, T=rng.choice(["x", "xt", "t"]), dt=rng.choice(["fixed", "adaptive", "milestones"]), bcs=list(F1),
              ids=perm_ids(rng) if dim == 1 else None, elt=rng.choice(["CG", "DG"]), sandwich=dim == 1 and nmat == 2 and rng.random() < .3,
              more=rng.random() < .5)
    tr = []
    for j in range(rng.choice([0, 1, 2])):
        tr.append(dict(mats=rng.sample(range(nmat), rng.randint(1, nmat)), multi=rng.random() < .5))
    if len(tr) == 2 and rng.random() < .5:
        tr[0]["id"], tr[1]["id"] = rng.choice([(8, 3), (12, 1), (2, 21)])
    st["traps"] = tr
    if rng.random() < .35:
        st["chem"] = True
        st["bcs"] = [["dirichlet", [1]]]
    return st


def random_batches(rng, tier):
    while True:
        st = structure(rng)
        yield [make(rng, st) for _ in range(3)]
