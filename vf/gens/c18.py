"""C18 layout of volumes and surfaces"""
from .lib import *

LEVEL = "exploration"
RULE = ("a case is one steady model of a random layout with a known linear temperature; non-trivial when every cell's volume and every "
        "reported volume and surface quantity was judged; distinct by layout, numbering, ordering and way of giving the mesh")
ASSUMPTIONS = ["1-D layouts start at 0 and their borders are vertices of the mesh (both are required or advised by the user guide)",
               "user markers sit on exterior facets; id 0 means unmarked"]
NEED = {"models": 60, "cells": 1000, "volumes": 150, "surfaces": 100, "values": 1000, "imposed": 200, "flux": 30, "free": 300}
BUDGET = {"quick": 35, "thorough": 300}


POOL = [1, 2, 3, 4, 5, 6, 7, 9, 12, 17]
VPOOL = POOL + [0]          # a volume may be number 0


def case_1d(rng, st):
    """the numbering, ownership and ordering come from st["s"] (so that compiled forms are shared), the geometry from rng"""
    n = st["n"]
    sr = random.Random("c18 structure %d" % st["s"])
    nm = min(n, st.get("nmat", n))
    own = list(range(nm)) + [sr.randrange(nm) for _ in range(n - nm)]
    pool = sr.sample(VPOOL, len(VPOOL)) if st.get("ids") == "odd" else list(range(12, 0, -1))
    proto = []
    for k in range(nm):
        c = own.count(k)
        if c > 1 and sr.random() < .6:
            i = [pool.pop() for _ in range(c)]
        else:
            i = pool.pop()
            if c == 1 and sr.random() < .15:
                i = [i]
        proto.append(dict(id=i))
    order = list(range(nm))
    sr.shuffle(order)
    # ---- geometry
    size = st.get("size") or rng.choice([1.0, 20e-6, 3e-3, 7.5, 1200.0, 4e-9])
    if st.get("ints"):
        pts = sorted(rng.sample(range(1, 4 * n + 4), n))
        pts = [0] + pts
        size = pts[-1]
    else:
        cuts = sorted(rng.uniform(.05, .95) for _ in range(n - 1))
        while any(b - a < .02 for a, b in zip([0] + cuts, cuts + [1])):
            cuts = sorted(rng.uniform(.02, .98) for _ in range(n - 1))
        pts = [0.0] + [float("%.8g" % (c * size)) for c in cuts] + [size]
    iv = [[a, b] for a, b in zip(pts, pts[1:])]
    rng.shuffle(own)
    mats = []
    for k in order:
        mine = [iv[i] for i in range(n) if own[i] == k]
        rng.shuffle(mine)
        m = dict(D=lu(rng, .1, 10) * size, id=proto[k]["id"])
        if len(mine) == 1 and not isinstance(m["id"], list):
            m["borders"] = [mine[0]] if rng.random() < .3 else mine[0]
        else:
            m["borders"] = mine
        mats.append(m)
    v = set(pts)
    for a, b in iv:
        for j in range(1, rng.randint(1, 5)):
            v.add(a + (b - a) * j / 5)
    if rng.random() < .4:
        # refined towards the ends, as implantation models are
        for j in range(3, 11):
            v.add(pts[1] * 2.0 ** -j)
            v.add(size - (size - pts[-2]) * 2.0 ** -j)
    v = sorted(v)
    if st.get("messy"):
        v = v + [rng.choice(v) for _ in range(4)]
        rng.shuffle(v)
    if n == 1 and st.get("bare_material"):
        mats = [dict(D=mats[0]["D"], id=mats[0]["id"] if not isinstance(mats[0]["id"], list) else mats[0]["id"][0])]
    return dict(kind="1d", st=st, size=size, vertices=v, container=st.get("container", "list"), materials=mats,
                fixed=[[1, u(rng, 1, 2)], [2, u(rng, 3, 4)]] if rng.random() < .7 else [[2, u(rng, 3, 4)], [1, u(rng, 1, 2)]],
                bare=rng.random() < .5)


def case_start(rng, st):
    """one material anywhere on the axis"""
    a = rng.choice([-1.5, .4, 3.0, -2e-5, 100.0])
    L = rng.choice([1.0, 2e-5, 10.0])
    v = sorted({a, a + L} | {a + L * rng.uniform(.02, .98) for _ in range(rng.randint(0, 8))})
    if st.get("messy"):
        rng.shuffle(v)
    return dict(kind="1d", st=st, size=L, vertices=v, container=st.get("container", "list"), materials=[dict(D=lu(rng, .1, 5), id=rng.choice([1, 4]))],
                fixed=[[1, u(rng, 1, 2)], [2, u(rng, 3, 4)]], bare=rng.random() < .5)


def table(rng, shape, ids):
    if not shape:
        return rng.choice(ids)
    return [table(rng, shape[1:], ids) for _ in range(shape[0])]


def flat(t):
    return [q for x in t for q in flat(x)] if isinstance(t, list) else [t]


def case_nd(rng, st):
    d = st["dim"]
    sr = random.Random("c18 structure %d" % st["s"])
    k = sr.randint(1, 4)
    ids = sr.sample(VPOOL, k) if st.get("ids") == "odd" else list(range(1, k + 1))
    order = list(ids)
    sr.shuffle(order)
    groups = []
    while order:
        k = min(len(order), sr.choice([1, 1, 2, 3]))
        take, order = order[:k], order[k:]
        groups.append(take[0] if k == 1 and sr.random() < .8 else take)
    sid = sr.sample(POOL, sr.randint(2, 5)) if st.get("ids") == "odd" else list(range(1, sr.randint(3, 6)))
    # ---- geometry
    n = [rng.randint(2, 4 if d == 2 else 3) for _ in range(d)]
    s = rng.choice([1.0, 1e-4, 30.0])
    l = [s * u(rng, .6, 1.5) for _ in range(d)]
    vt = table(rng, n, ids)
    while set(flat(vt)) != set(ids):
        vt = table(rng, n, ids)
    if rng.random() < .4:
        sid = sid + [0]
    surf = [[rng.choice(sid), rng.choice(sid)] for _ in range(2 * d)]
    live = sorted(set(q for p in surf for q in p if q))
    if len(live) < 2:
        surf[0], surf[1] = [sid[0]] * 2, [sid[1]] * 2
        live = sorted(set(q for p in surf for q in p if q))
    mats = [dict(D=lu(rng, .2, 5), id=g) for g in groups]
    fx = rng.sample(live, rng.randint(1, min(3, len(live))))
    return dict(kind="nd", st=st, l=l, n=n, diag=rng.choice(["left", "right", "crossed"]), vol_table=vt, surf_table=surf, materials=mats,
                via=st.get("via", "memory"), fixed=[[i, u(rng, 1 + k, 2 + k)] for k, i in enumerate(fx)], bare=rng.random() < .5)


CORE = [dict(n=1), dict(n=1, bare_material=True), dict(n=2), dict(n=2, ids="odd", messy=True, container="array"),
        dict(n=3, nmat=2, messy=True), dict(n=4, nmat=2, ids="odd"), dict(n=5, nmat=3, messy=True, container="tuple"), dict(n=6, ids="odd"),
        dict(n=3, ints=True), dict(n=3, size=20e-6, nmat=2), dict(n=2, size=1200.0, messy=True)]
STARTS = [dict(start=True), dict(start=True, messy=True, container="array")]
ND = [dict(dim=2), dict(dim=2, ids="odd", via="xdmf"), dict(dim=2, ids="odd", via="mvc"), dict(dim=3, ids="odd"), dict(dim=3, via="xdmf"),
      dict(dim=3, via="mvc", ids="odd")]


def make(rng, st):
    return case_start(rng, st) if st.get("start") else case_nd(rng, st) if "dim" in st else case_1d(rng, st)


ALL = [dict(st, s=i) for i, st in enumerate(CORE + STARTS + ND)]


def core(tier):
    out = []
    for st in ALL:
        rng = random.Random("c18 %d" % st["s"])
        out.append([make(rng, st) for _ in range(6)])
    return out


def random_batches(rng, tier):
    while True:
        st = dict(rng.choice(ALL))
        if "dim" in st:
            st["via"] = rng.choice(["memory", "xdmf", "mvc"])
            if tier == "thorough" and rng.random() < .3:
                st["s"] = rng.randrange(100, 200)
        elif "n" in st:
            st["messy"] = rng.random() < .5
            st["container"] = rng.choice(["list", "array", "tuple"])
            if not st.get("ints"):
                st.pop("size", None)
            if tier == "thorough" and rng.random() < .3:
                st["s"], st["n"] = rng.randrange(100, 200), rng.randint(1, 8)
        yield [make(rng, st) for _ in range(6)]
