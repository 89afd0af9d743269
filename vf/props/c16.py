"""the same model written differently gives the same results"""
import copy
import random
import warnings
import numpy as np
import festim as F
from .. import build as B
from ..build import build, collect, StepCap, mesh_1d
from ..oracle import Report
from .common import result, cover_of, expect_times
from ..units import Units, choose

TOL = 1e-7
REW = {}


def rewrite(fn):
    REW[fn.__name__] = fn
    return fn


def ids_of(m):
    return m["id"] if isinstance(m["id"], list) else [m["id"]]


def aslist(v):
    return list(v) if isinstance(v, list) else [v]


class W:
    """a specification on its way to another spelling; .trap[i] = the base traps (1-based) whose sum trap i of the new model is a part of"""

    def __init__(self, spec, g):
        self.s, self.g = spec, g
        self.part = {i: i for i in range(1, len(spec.get("traps", [])) + 1)}   # new trap -> base trap
        self.units = dict(L=1.0, tau=1.0, N=1.0)


def labels(s):
    return [t.get("id", i) for i, t in enumerate(s.get("traps", []), 1)]


def fix_labels(w):
    """write down the identifiers that are otherwise given by position"""
    for i, t in enumerate(w.s.get("traps", []), 1):
        t.setdefault("id", i)


@rewrite
def order(w):
    s, g = w.s, w.g
    fix_labels(w)
    n = len(s["materials"])
    p = list(range(n))
    g.shuffle(p)                        # new position k holds old material p[k]
    s["materials"] = [s["materials"][k] for k in p]
    inv = {old: new for new, old in enumerate(p)}
    for t in s.get("traps", []):
        mt = t["materials"]
        t["materials"] = [inv[i] for i in mt] if isinstance(mt, list) else inv[mt]
        if isinstance(mt, list) and len(mt) > 1:
            q = list(range(len(mt)))
            g.shuffle(q)
            t["materials"] = [t["materials"][k] for k in q]
            for key in ("k_0", "E_k", "p_0", "E_p", "density"):
                if isinstance(t.get(key), list):
                    t[key] = [t[key][k] for k in q]
    tr = s.get("traps", [])
    p = list(range(len(tr)))
    g.shuffle(p)
    s["traps"] = [tr[k] for k in p]
    w.part = {new + 1: w.part[old + 1] for new, old in enumerate(p)}
    for key in ("bcs", "sources", "ics"):
        if s.get(key):
            g.shuffle(s[key])
    for b in s.get("bcs", []):
        if isinstance(b["surfaces"], list) and b["kind"] != "surfkin":
            g.shuffle(b["surfaces"])
    for m in s["materials"]:
        if isinstance(m["id"], list):
            bs = m.get("borders")
            q = list(range(len(m["id"])))
            g.shuffle(q)
            m["id"] = [m["id"][k] for k in q]
            if bs is not None and isinstance(bs[0], list):
                m["borders"] = [bs[k] for k in q]


@rewrite
def relabel(w):
    s, g = w.s, w.g
    fix_labels(w)
    old = [i for m in s["materials"] for i in ids_of(m)]
    new = g.sample([1, 2, 3, 4, 5, 6, 8, 11], len(old))
    mp = dict(zip(old, new))
    for m in s["materials"]:
        m["id"] = [mp[i] for i in m["id"]] if isinstance(m["id"], list) else mp[m["id"]]
    for q in s.get("sources", []):
        v = q["volume"]
        q["volume"] = [mp[i] for i in v] if isinstance(v, list) else mp[v]
    if "vol_ids" in s["mesh"]:
        s["mesh"]["vol_ids"] = [mp[i] for i in s["mesh"]["vol_ids"]]
        so = s["mesh"].get("surf_ids", [1, 2, 3, 4])
        sn = g.sample([1, 2, 3, 4, 5, 7, 9], 4)
        sm = dict(zip(so, sn))
        s["mesh"]["surf_ids"] = sn
        for b in s.get("bcs", []):
            v = b["surfaces"]
            b["surfaces"] = [sm[i] for i in v] if isinstance(v, list) else sm[v]
    lo = [t["id"] for t in s.get("traps", [])]
    ln = g.sample([1, 2, 3, 4, 5, 9, 14], len(lo))
    lm = dict(zip(lo, ln))

    def fld(v):
        if v in lm and v not in (0,):
            return lm[v]
        if isinstance(v, str) and v.isdigit() and int(v) in lm:
            return str(lm[int(v)])
        return v
    for t in s.get("traps", []):
        t["id"] = lm[t["id"]]
    for key in ("ics", "sources"):
        for q in s.get(key, []):
            if "field" in q:
                q["field"] = fld(q["field"])


@rewrite
def spelling(w):
    s, g = w.s, w.g

    def num(v):
        return repr(v) if isinstance(v, (int, float)) and g.random() < .5 else v

    for b in s.get("bcs", []):
        if isinstance(b["surfaces"], list) and len(b["surfaces"]) == 1:
            b["surfaces"] = b["surfaces"][0]
        elif not isinstance(b["surfaces"], list):
            b["surfaces"] = [b["surfaces"]]
        if b.get("field", 0) in (0, "0"):
            if b["kind"] in ("dirichlet", "flux", "custom_dirichlet", "custom_flux"):
                b["field"] = "0" if b.get("field", 0) == 0 else 0
        for key in ("value", "pressure", "phi", "R_p", "P", "h", "c_ext", "T_ext"):
            if key in b:
                b[key] = num(b[key])
    for q in s.get("sources", []):
        v = q["volume"]
        q["volume"] = v[0] if isinstance(v, list) and len(v) == 1 else v if isinstance(v, list) else [v]
        if q.get("kind", "source") == "source":
            q["value"] = num(q["value"])
            if q["field"] in ("0", 0, "solute"):
                q["field"] = g.choice(["0", "solute"])
            elif q["field"] != "T":
                q["field"] = str(q["field"])
    for q in s.get("ics", []):
        if q["field"] in (0, "0", "solute"):
            q["field"] = g.choice([k for k in (0, "0", "solute") if k != q["field"]])
        elif q["field"] != "T":
            q["field"] = str(q["field"]) if not isinstance(q["field"], str) else int(q["field"])
        q["value"] = num(q["value"])
    names = g.sample(["W", "W 2", "damaged W 2", "w", "2"], 5)
    for i, m in enumerate(s["materials"]):
        m.setdefault("name", names[i % len(names)] + ("" if i < len(names) else " %d" % i))
        if not isinstance(m["id"], list) and s["mesh"]["kind"] != "1d" and g.random() < .5:
            m["id"] = [m["id"]]
        if s["mesh"]["kind"] == "1d" and m.get("borders") is not None and not isinstance(m["borders"][0], list) and g.random() < .6:
            m["borders"] = [m["borders"]]
            if g.random() < .5:
                m["id"] = aslist(m["id"])
    for t in s.get("traps", []):
        mt = t["materials"]
        n = len(aslist(mt))
        t["by_name"] = not t.get("by_name", False)
        if n == 1:
            t["materials"] = mt[0] if isinstance(mt, list) else [mt]
        plain = t.get("kind", "trap") == "trap"
        if plain and n > 1:
            keys = ("k_0", "E_k", "p_0", "E_p", "density")
            if not any(isinstance(t[k], list) for k in keys):
                for k in keys:
                    t[k] = [copy.copy(t[k]) for _ in range(n)]
        elif plain:
            t["density"] = num(t["density"])
    if s["T"]["kind"] == "expr":
        s["T"]["wrap"] = not s["T"].get("wrap", True)
        s["T"]["value"] = num(s["T"]["value"])
    elif s["T"]["kind"] == "heat" and not isinstance(s["T"].get("ic"), dict) and "ic" in s["T"]:
        s["T"]["ic_plain"] = not s["T"].get("ic_plain", True)
    s["materials_as"] = "Materials"
    s["assign"] = "append"
    if "dt" in s and set(s["dt"]) == {"value"}:
        s["dt"]["plain"] = True


@rewrite
def split(w):
    """one entry becomes several that add up to it"""
    s, g = w.s, w.g
    out = []
    for b in s.get("bcs", []):
        surf = aslist(b["surfaces"])
        pieces = []
        if len(surf) > 1 and b["kind"] != "surfkin":
            for q in surf:
                c = copy.deepcopy(b)
                c["surfaces"] = q
                pieces.append(c)
        else:
            pieces = [b]
        for c in pieces:
            if c["kind"] == "flux":
                a = round(g.uniform(.2, .8), 3)
                for v in (a, 1 - a):
                    d = copy.deepcopy(c)
                    d["value"] = "(%r)*(%s)" % (v, c["value"])
                    out.append(d)
            else:
                out.append(c)
    s["bcs"] = out
    out = []
    for q in s.get("sources", []):
        for v in aslist(q["volume"]):
            c = copy.deepcopy(q)
            c["volume"] = v
            if c.get("kind", "source") == "source":
                a = round(g.uniform(.2, .8), 3)
                for k in (a, 1 - a):
                    d = copy.deepcopy(c)
                    d["value"] = "(%r)*(%s)" % (k, c["value"])
                    out.append(d)
            elif c["kind"] == "decay":
                a = round(g.uniform(.2, .8), 3)
                for k in (a, 1 - a):
                    d = copy.deepcopy(c)
                    d["lambda"] = k * c["lambda"]
                    out.append(d)
            else:
                out.append(c)
    s["sources"] = out


@rewrite
def pieces(w):
    """one material becomes two identical ones, or a material of several parts several materials"""
    s, g = w.s, w.g
    k = g.randrange(len(s["materials"]))
    lists = [i for i, m in enumerate(s["materials"]) if isinstance(m["id"], list) and len(m["id"]) > 1]
    if lists:
        k = g.choice(lists)
    m = s["materials"][k]
    used = [i for q in s["materials"] for i in ids_of(q)]
    if isinstance(m["id"], list) and len(m["id"]) > 1:
        new = []
        for j, i in enumerate(m["id"]):
            q = copy.deepcopy(m)
            q["id"] = i
            if m.get("borders") is not None:
                q["borders"] = list(m["borders"][j])
            new.append(q)
    elif s["mesh"]["kind"] == "1d":
        if s["mesh"].get("x0", 0) != 0:
            return
        one = ids_of(m)[0]
        vs = mesh_1d(s)
        b = m.get("borders") or [float(vs[0]), float(vs[-1])]
        b = b[0] if isinstance(b[0], list) else b
        inner = [float(v) for v in vs if b[0] < v < b[1]]
        if not inner:
            return
        c = g.choice(inner)
        fresh = max(used) + 3
        new = [dict(copy.deepcopy(m), id=one, borders=[b[0], c]), dict(copy.deepcopy(m), id=fresh, borders=[c, b[1]])]
        s["mesh"]["vertices"] = [float(v) for v in vs]
        for q in s.get("sources", []):
            if one in aslist(q["volume"]):
                q["volume"] = aslist(q["volume"]) + [fresh]
    else:
        return
    for j, q in enumerate(new):
        if "name" in q:
            q["name"] = "%s %d" % (q["name"], j)
    n = len(s["materials"])
    s["materials"] = s["materials"][:k] + [new[0]] + s["materials"][k + 1:] + new[1:]
    extra = list(range(n, n + len(new) - 1))
    for t in s.get("traps", []):
        mt = aslist(t["materials"])
        if k in mt:
            j = mt.index(k)
            t["materials"] = mt + extra
            for key in ("k_0", "E_k", "p_0", "E_p", "density"):
                if isinstance(t.get(key), list):
                    t[key] = t[key] + [copy.copy(t[key][j]) for _ in extra]


@rewrite
def mesh(w):
    s, g = w.s, w.g
    if s["mesh"]["kind"] == "1d":
        v = [float(q) for q in mesh_1d(s)]
        s["mesh"]["vertices"] = v
        s["mesh"]["messy"] = g.randrange(10 ** 6)
    elif s["mesh"]["kind"] in ("rect", "box"):
        s["mesh"]["via_xdmf"] = not s["mesh"].get("via_xdmf", False)


@rewrite
def constructor(w):
    w.s["ctor"] = True


@rewrite
def lists(w):
    """the lists of the model filled piece by piece, or single objects"""
    w.s["lists"] = w.g.randrange(10 ** 6)


@rewrite
def objects(w):
    """values given as FEniCS expressions and functions instead of numbers and sympy expressions"""
    s, g = w.s, w.g
    for q in s.get("sources", []):
        q["as"] = g.choice(["expression", "user", "function"])
    for t in s.get("traps", []):
        t["as"] = g.choice(["expression", "user"])


@rewrite
def solver(w):
    """the same equations solved by other means"""
    s, g = w.s, w.g
    pick = lambda: g.choice(["mumps", "umfpack", "superlu", "petsc"])
    s["settings"]["linear_solver"] = pick()
    s["settings"]["update_jacobian"] = not s["settings"].get("update_jacobian", True)
    if s["T"]["kind"] == "heat":
        s["T"]["linear_solver"] = pick()
        s["T"]["own_solver"] = g.random() < .5
    for t in s.get("traps", []):
        if t.get("kind", "trap") in ("extrinsic", "neutron"):
            t["linear_solver"] = pick()


@rewrite
def units(w):
    """other units of length, time, amount and heat"""
    w.units = choose(w.g, w.s)
    w.s = Units(**w.units).scale(w.s)


class ListDiffers(Exception):
    pass


def fill_list(cls, items, g):
    """an object of a FESTIM list class holding items, built in one of the ways lists allow"""
    how = g.choice(["append", "extend", "extend_own", "insert", "setitem", "iadd"])
    out = cls([])
    if how == "append":
        for q in items:
            out.append(q)
    elif how == "extend":
        out.extend(items)
    elif how == "extend_own":
        out.extend(cls(items))
    elif how == "insert":
        for q in items[::-1]:
            out.insert(0, q)
    elif how == "setitem":
        out = cls(items[::-1])
        for k, q in enumerate(items):
            out[k] = q
    else:
        out += items
    if len(out) != len(items) or not all(x is y for x, y in zip(out, items)):
        raise ListDiffers("%s filled by %s does not hold what was put in" % (cls.__name__, how))
    return out


@rewrite
def twin_trap(w):
    """a trap becomes two traps with a share of the sites each"""
    s, g = w.s, w.g
    fix_labels(w)
    ok = [i for i, t in enumerate(s.get("traps", [])) if t.get("kind", "trap") == "trap"]
    if not ok:
        return
    i = g.choice(ok)
    t = s["traps"][i]
    a = round(g.uniform(.3, .7), 3)
    q = copy.deepcopy(t)
    q["id"] = max([r for r in labels(s)] + [len(s["traps"])]) + 1
    for r, k in ((t, a), (q, 1 - a)):
        d = r["density"]
        r["density"] = ["(%r)*(%s)" % (k, v) for v in d] if isinstance(d, list) else "(%r)*(%s)" % (k, d)
    s["traps"].append(q)
    w.part[len(s["traps"])] = w.part[i + 1]

    def mine(v):
        return v == t["id"] or v == str(t["id"])
    for key in ("ics", "sources"):
        new = []
        for r in s.get(key, []):
            if mine(r.get("field", "0")) and "value" in r:
                c = copy.deepcopy(r)
                c["field"] = q["id"] if key == "ics" else str(q["id"])
                c["value"] = "(%r)*(%s)" % (1 - a, r["value"])
                r["value"] = "(%r)*(%s)" % (a, r["value"])
                new.append(c)
            elif mine(r.get("field", "0")):
                c = copy.deepcopy(r)
                c["field"] = str(q["id"])
                new.append(c)
        if key in s:
            s[key] = s[key] + new


@rewrite
def idle(w):
    """entries that add nothing"""
    s, g = w.s, w.g
    fix_labels(w)
    one = g.choice([i for m in s["materials"] for i in ids_of(m)])
    s["sources"] = s.get("sources", []) + [dict(kind="source", volume=one, field="0", value=0)]
    surf = s["mesh"].get("surf_ids", [1, 2])[:2] if s["mesh"]["kind"] != "1d" else [1, 2]
    strong = ("dirichlet", "sieverts", "henrys", "implantation", "custom_dirichlet", "surfkin")
    taken = [q for b in s.get("bcs", []) if b["kind"] in strong and b.get("field", 0) in (0, "0") for q in aslist(b["surfaces"])]
    free = [q for q in surf if q not in taken]
    if free:
        s["bcs"] = s.get("bcs", []) + [dict(kind="flux", surfaces=g.choice(free), value=0, field=0)]
    if not any(m.get("solubility_law") == "henry" for m in s["materials"]) or not s["settings"].get("chemical_pot"):
        m = g.randrange(len(s["materials"]))
        s["traps"] = s.get("traps", []) + [dict(k_0=1.0, E_k=.1, p_0=1.0, E_p=.2, materials=[m], density=0,
                                                id=max(labels(s) + [len(s["traps"])]) + 1)]
        w.part[len(s["traps"])] = None


@rewrite
def observe(w):
    """looking at the run does not change it"""
    w.watch = True


def watchers(spec):
    v = [i for m in spec["materials"] for i in ids_of(m)]
    sur = spec["mesh"].get("surf_ids", [1, 2])[:2] if spec["mesh"]["kind"] != "1d" else [1, 2]
    typ = spec["mesh"].get("type", "cartesian")
    suf = {"cartesian": "", "cylindrical": "Cylindrical", "spherical": "Spherical"}[typ]

    def exports(r):
        fields = ["solute", "T", "retention"] + [str(k) for k in labels(spec)]
        qs = []
        for i, fl in enumerate(fields):
            qs += [getattr(F, "TotalVolume" + suf)(fl, v[i % len(v)]), F.MaximumVolume(fl, v[i % len(v)]), F.MinimumSurface(fl, sur[i % 2])]
        qs += [getattr(F, "SurfaceFlux" + suf)("solute", sur[0]), getattr(F, "AverageVolume" + suf)("solute", v[0])]
        out = [F.DerivedQuantities(qs, filename="w.csv", nb_iterations_between_compute=2)]
        for fl in fields:
            out.append(F.XDMFExport(fl, label="w" + fl, filename="w%s.xdmf" % fl, mode=2, checkpoint=True))
        if spec["mesh"]["kind"] == "1d":
            out.append(F.TXTExport("solute", "w.txt"))
        return out
    return exports


def by_place(r, key, fac=1.0):
    """records as (step -> values ordered by position of cell and node)"""
    X = r.model.mesh.mesh.coordinates()
    X = X / np.abs(X).max()
    cells = r.model.mesh.mesh.cells()
    P = X[cells]
    mid = P.mean(axis=1)
    co = np.lexsort(np.round(mid, 9).T)
    out = []
    for v in r.rec[key]:
        if v is None:
            return None
        v = np.asarray(v) / fac
        if v.ndim == 2 and v.shape == P.shape[:2]:
            v = v[co]
            p = P[co]
            for i in range(len(v)):
                o = np.lexsort(np.round(p[i], 9).T)
                v[i] = v[i][o]
        out.append(v)
    return out


def go(spec, wd, exports=None):
    spec = copy.deepcopy(spec)
    r = build(spec, workdir=wd, exports=exports, cap=60)
    if spec.get("ctor"):
        m = r.model
        new = F.Simulation(mesh=m.mesh, materials=F.Materials(r.mats), sources=r.sources, boundary_conditions=r.bcs, traps=F.Traps(r.traps),
                           dt=m.dt, settings=m.settings, temperature=m.T, initial_conditions=m.initial_conditions,
                           exports=F.Exports(list(m.exports)), log_level=40)
        r.model = new
    if "lists" in spec:
        g, m = random.Random(spec["lists"]), r.model
        one = g.random() < .5
        m.materials = r.mats[0] if one and len(r.mats) == 1 else fill_list(F.Materials, list(r.mats), g)
        m.traps = r.traps[0] if one and len(r.traps) == 1 else fill_list(F.Traps, list(r.traps), g)
        for e in m.exports:
            if isinstance(e, F.DerivedQuantities):
                items = list(e)
                del e[:]
                for q in items:
                    (e.append if g.random() < .5 else lambda v: e.insert(len(e), v))(q)
        ex = list(m.exports)
        m.exports = ex[0] if one and len(ex) == 1 else fill_list(F.Exports, ex, g)
    if spec.get("dt", {}).get("plain"):
        r.model.dt = spec["dt"]["value"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r.model.initialise()
        try:
            r.model.run()
        except StepCap:
            pass
    return collect(r)


def run(case, wd):
    rep = Report()
    base = case["spec"]
    a = go(base, wd)
    if not expect_times(rep, a):
        return result(rep, a, cover_of(case))
    w = W(copy.deepcopy(base), random.Random(case["seed"]))
    w.watch = False
    for n in case["rewrites"]:
        REW[n](w)
        rep.see("rewrite:" + n)
    try:
        b = go(w.s, wd, watchers(w.s) if w.watch else None)
    except ListDiffers as e:
        rep.findings.append(dict(what=str(e), mech="list"))
        return result(rep, a, cover_of(case))
    expect_times(rep, b)
    how = "+".join(case["rewrites"])
    N = w.units["N"]
    bt = [t / w.units["tau"] for t in b.times] if base["settings"].get("transient", True) else b.times
    if len(a.times) != len(bt) or not np.allclose(a.times, bt, rtol=1e-9, atol=0):
        rep.findings.append(dict(what="written differently (%s) the model steps through %s instead of %s" % (how, bt[:6], a.times[:6]), mech="times"))
        return result(rep, a, cover_of(case))
    pairs = [("temperature", by_place(a, "T"), by_place(b, "T", w.units.get("Th", 1.0))), ("mobile concentration", by_place(a, "c"), by_place(b, "c", N))]
    nt = len(base.get("traps", []))
    for i in range(1, nt + 1):
        mine = [k for k, v in w.part.items() if v == i]
        pairs.append(("trap %d" % i, by_place(a, "t%d" % i), [sum(x) for x in zip(*[by_place(b, "t%d" % k, N) for k in mine])]))
        if "n%d" % i in a.rec:
            pairs.append(("density of trap %d" % i, by_place(a, "n%d" % i), by_place(b, "n%d" % mine[0], N)))
    for k in a.rec:
        if k[0] == "s" and k[1:].isdigit():
            pairs.append(("adsorbed on %s" % k[1:], [np.array(float(v)) for v in a.rec[k]],
                          [np.array(float(v)) / N / w.units["L"] for v in b.rec[k]]))
    # in other units the solver stops at another point within its tolerances
    tol = 1e-5 if "units" in case["rewrites"] else TOL
    for name, x, y in pairs:
        if x is None or y is None:
            if (x is None) != (y is None):
                rep.findings.append(dict(what="%s is missing in one of two spellings (%s)" % (name, how), mech="missing"))
            continue
        for k, (p, q) in enumerate(zip(x, y)):
            scale = max(np.abs(p).max(), 1e-6)
            if p.shape != q.shape:
                rep.findings.append(dict(what="%s has another shape (%s)" % (name, how), mech="shape"))
                break
            err = np.abs(p - q).max() / scale
            rep.mx(name.split(" ")[0], err / tol)
            rep.see("fields")
            if not err < tol:
                rep.findings.append(dict(what="written differently (%s), the same model gives another %s at t=%g: %.9g instead of %.9g (relative %.2g)" % (
                    how, name, a.times[k], q.reshape(-1)[np.abs(p - q).argmax()], p.reshape(-1)[np.abs(p - q).argmax()], err),
                    mech="differs:" + name.split(" ")[0]))
                break
    rep.see("pairs")
    rep.see("steps", len(a.times))
    return result(rep, a, cover_of(case) + ["rw=" + n for n in case["rewrites"]])
