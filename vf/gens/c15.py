"""C15 repeated and simultaneous models"""
from .compose import *
from .c12 import T_BCS, quantities

LEVEL = "exploration"
RULE = ("a case is a history of initialise/edit/run operations on one or two models in one process; non-trivial when at least one "
        "run of the history was compared, field by field and file by file, with the same model built from scratch; distinct by specification")
ASSUMPTIONS = ["two runs of the same model agree within 1e-7 of the field's size (nonlinear solver tolerance 1e-11)"]
NEED = {"runs": 150, "comparisons": 60, "fields": 800, "files": 60}
BUDGET = {"quick": 45, "thorough": 480}

PIECES = ["bcs", "T", "ics", "dt", "settings", "sources"]


def merge(base, other, mods):
    """base with the pieces `mods` of other"""
    s = copy.deepcopy(base)
    for q in mods:
        if q in other:
            s[q] = copy.deepcopy(other[q])
    return s


def exports_for(rng, spec, st):
    labs = [str(t.get("id", i)) for i, t in enumerate(spec.get("traps", []), 1)]
    ft = spec["settings"].get("final_time")
    ex = [dict(kind="csv", filename="q.csv", quantities=quantities(rng, spec, st, n=9)[:9], **({"every": 2} if rng.random() < .5 else {})),
          dict(kind="xdmf", filename="x.xdmf", field=rng.choice(["solute", "T", "retention"] + labs), label="lab", mode=rng.choice([1, 2, "last"]),
               checkpoint=rng.random() < .6)]
    if st.get("dim", 1) == 1:
        e = dict(kind="txt", filename="p.txt", field=rng.choice(["solute", "T", "retention"] + labs))
        if ft and rng.random() < .6:
            e["times"] = [r6(ft * q) for q in rng.sample([.13, .37, .52, .81], 2)]
        ex.append(e)
    return ex


def make(rng, st, how, label=None):
    """how: sequence | interleave | share"""
    st = dict(st)
    if st.get("nmat", 1) < 3:
        # the same subdomains in both models: exports refer to them
        st.setdefault("vol_ids" if st.get("dim", 1) > 1 else "ids", rng.choice([[1, 2], [4, 2], [7, 3]])[:st.get("nmat", 1)])
    a = fill(rng, st)
    b = fill(rng, st)
    if rng.random() < .5:
        a["assign"] = b["assign"] = "append"
    steady_ = st.get("steady")
    pieces = [q for q in PIECES if not (steady_ and q == "dt")]
    if st.get("via_xdmf"):
        # both meshes live in the same scratch files
        b["mesh"], b["materials"] = copy.deepcopy(a["mesh"]), copy.deepcopy(a["materials"])
    if a["T"]["kind"] == "heat":
        pieces = [q for q in pieces if q != "T"] + ["T"]
    case = dict(st=st, how=how)
    case["exports"] = exports_for(rng, a, st) if how != "interleave" else []
    for e in case["exports"]:
        if e["kind"] == "csv":
            # a point of the first mesh may lie outside the second
            e["quantities"] = [q for q in e["quantities"] if q["kind"] != "PointValue"] or [dict(kind="MaximumVolume", field="T", volume=first_vol(a))]
    if how == "sequence":
        specs, mods, which = [a], [], [0]
        cur = a
        n = rng.randint(2, 3)
        for _ in range(n):
            k = rng.choice(["again", "init-twice", "pieces", "pieces", "mesh", "traps"])
            if k in ("again", "init-twice"):
                mods.append([k])
                which.append(which[-1])
                continue
            if k == "pieces":
                m = rng.sample(pieces, rng.randint(1, 3))
            elif k == "mesh":
                m = ["mesh", "materials", "traps"]
            else:
                m = ["materials", "traps"] if st.get("dim", 1) > 1 else ["mesh", "materials", "traps", "ics"]
            cur = merge(cur, b, m)
            specs.append(cur)
            mods.append(m)
            which.append(len(specs) - 1)
        case.update(specs=specs, mods=mods, which=which)
    elif how == "switch":
        # the same model as a transient and as a steady simulation
        for e in case["exports"]:
            e.pop("times", None)
        if st.get("heat"):
            z = copy.deepcopy(a)
            z["T"]["transient"] = False
            z["T"].pop("ic", None)
        else:
            z = steady(a)
        b2 = merge(a, b, ["sources", "bcs"])
        order = rng.choice([[0, 1], [0, 1, 0], [1, 0, 1], [0, 2, 1], [1, 2, 1]])
        part = ["T"] if st.get("heat") else ["settings", "dt"]
        case.update(specs=[[a, z, b2][q] for q in order], mods=[part + ["sources", "bcs"] if 2 in p else part for p in zip(order, order[1:])],
                    which=list(range(len(order))), how="sequence", switch=True)
    elif how == "toggle":
        # switches of the settings turned between runs
        specs = [a]
        for _ in range(rng.randint(1, 2)):
            s = copy.deepcopy(specs[-1])
            for k in rng.sample(["chemical_pot", "soret", "traps_element_type", "update_jacobian"], rng.randint(1, 2)):
                v = s["settings"].get(k)
                s["settings"][k] = ({"CG": "DG", "DG": "CG"}[v] if k == "traps_element_type" else not v) if v is not None else False
            specs.append(s)
        case.update(specs=specs, mods=[["settings"]] * (len(specs) - 1), which=list(range(len(specs))), how="sequence", toggle=True)
    elif how == "interleave":
        case.update(specs=[a, b], order=rng.choice(["ab", "ba", "aab", "abab", "bab"]), run_order=rng.choice(["ab", "ba"]))
    else:
        m = rng.choice([["bcs"], ["T"], ["materials", "traps", "mesh"], ["sources"], ["ics"], ["bcs", "T", "sources"], ["settings"],
                        ["dt"] if not steady_ else ["bcs"], ["mesh", "materials", "traps", "bcs", "T", "ics", "sources"]])
        if a["T"]["kind"] == "heat" and "T" in m and "bcs" not in m:
            m = m + ["bcs"]
        case.update(specs=[a, merge(b, a, m)], mods=[m])
    if rng.random() < .3:
        case["units"] = []
        for i, sp in enumerate(case["specs"]):
            if i == 0 or how == "interleave":
                U = dict(choose(rng, steady(a)), tau=1.0) if how == "switch" else choose(rng, dict(a, bcs=a["bcs"] + b["bcs"]))
            case["specs"][i] = Units(**U).scale(sp)
            case["units"].append(U)
        for e in case["exports"]:
            if e.get("times"):
                e["times"] = [t * U["tau"] for t in e["times"]]
        case["st"] = dict(st, units=True)
    # export times become milestones of whatever stepsize object the model holds
    if label:
        case["label"] = label
    return case


def first_vol(spec):
    i = spec["materials"][0]["id"]
    return i[0] if isinstance(i, list) else i


F1 = [["dirichlet", [1]], ["flux", [2]]]
CORE = [
    dict(nmat=1, bcs=F1, T="xt"),
    dict(nmat=2, traps=[dict(mats=[0, 1], multi=True), dict(mats=[1])], bcs=F1, T="xt", dt="adaptive"),
    dict(nmat=2, traps=[dict(mats=[0, 1], id=2), dict(mats=[1], id=5)], bcs=[["sieverts", [1]], ["recomb", [2]], ["mass", [2]]], T="t"),
    dict(nmat=3, ids=[9, 0, 6], elt="DG", traps=[dict(mats=[1])], bcs=F1, T="t", sources=[["source", [0]], ["decay", [1]]]),
    dict(nmat=2, chem=True, traps=[dict(mats=[1], id=3), dict(mats=[0], id=1)], bcs=F1, T="xt"),
    dict(nmat=2, chem=True, laws=["henry", "sievert"], bcs=F1, T="x"),
    dict(nmat=1, bcs=F1, T="xt", traps=[dict(mats=[0], kind="neutron"), dict(mats=[0], kind="extrinsic", tpar=["phi_0"])]),
    dict(nmat=2, heat="transient", bcs=F1 + T_BCS + [["convective", [1, 2][1:]]], sources=[["source", [0], dict(field="T")]]),
    dict(nmat=2, heat="steady", bcs=F1 + T_BCS),
    dict(nmat=2, with_S=True, soret=True, bcs=F1, T="xt", traps=[dict(mats=[0, 1])]),
    dict(nmat=2, with_S=True, soret=True, bcs=[["dirichlet", [1]], ["mass", [2]]], T="x", dt="adaptive"),
    dict(nmat=1, heat="transient", bcs=F1 + T_BCS + [["custom_flux", [2], dict(field="T")]], sources=[["source", [0], dict(field="T")], ["source", [0]]]),
    dict(nmat=1, bcs=[["surfkin", [1]], ["implantation", [2]]], T="t", traps=[dict(mats=[0])]),
    dict(nmat=1, bcs=[["surfkin", [1, 2]]], T="xt"),
    dict(nmat=2, steady=True, bcs=F1, traps=[dict(mats=[1])], T="x"),
    dict(dim=2, nmat=2, traps=[dict(mats=[0, 1])], bcs=[["custom_dirichlet", [1]], ["custom_flux", [2]]], T="xt"),
    dict(dim=2, nmat=2, via_xdmf=True, bcs=F1, T="xt", soret=True),
    dict(typ="cylindrical", nmat=1, bcs=F1, T="xt", sources=[["implantation", 0]]),
    dict(nmat=1, bcs=F1, T="xt", update_jacobian=False),
    dict(nmat=2, bcs=F1, T="xt", soret=True, traps=[dict(mats=[0])]),
    dict(nmat=1, typ="spherical", bcs=F1, T="xt", soret=True, with_k=True),
    dict(nmat=1, typ="cylindrical", bcs=F1, T="t", soret=True, sources=[["source", [0]]]),
]


def can_switch(st):
    """steady and transient simulations accept the same inputs"""
    return not (st.get("heat") == "steady" or st.get("steady") or any(t.get("kind") for t in st.get("traps", [])) or any(b[0] == "surfkin" for b in st["bcs"]))


def can_toggle(st):
    return st.get("soret") and st.get("with_S")


def core(tier):
    out = []
    for i, st in enumerate(CORE):
        rng = random.Random("c15 core %d" % i)
        out.append([make(rng, st, h, "core%d %s %s" % (i, h, st)) for h in ("sequence", "interleave", "share") + (("switch",) if can_switch(st) else ()) +
                    (("toggle",) if can_toggle(st) else ())])
    return out


def structure(rng):
    st = copy.deepcopy(rng.choice(CORE))
    if "dt" not in st and not st.get("steady"):
        st["dt"] = rng.choice(["fixed", "adaptive", "milestones"])
    return st


def random_batches(rng, tier):
    while True:
        st = structure(rng)
        yield [make(rng, st, rng.choice(["sequence", "sequence", "interleave", "share", "switch" if can_switch(st) else "share", "toggle" if can_toggle(st) else "share"])) for _ in range(3)]
