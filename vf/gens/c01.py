"""C01 time marching"""
from .compose import *

LEVEL = "exploration"
RULE = ("a case is one full transient FESTIM run under a spied solver; non-trivial when at least one accepted stepsize was "
        "judged against the stepping rules; distinct by specification (stepping parameters, export times, solver effort)")
ASSUMPTIONS = ["times are compared with the relative 1e-5 coincidence FESTIM uses for milestones"]
NEED = {"steps": 300, "stepsizes_judged": 300, "milestones": 40, "solver_calls": 300}
BUDGET = {"quick": 30, "thorough": 420}


def model(rng, ft, kind="plain"):
    """a small model whose time scale is ft"""
    mesh = dict(kind="1d", x0=0.0, x1=1.0, n=4, grade=0.0)
    fl = max(1.0, 1 / ft)       # rounding floor of the residuals grows like 1/dt
    m = dict(id=1, D_0=r6(u(rng, .05, .5) / ft), E_D=0.0)
    spec = dict(mesh=mesh, materials=[m], T=dict(kind="expr", value=500.0), traps=[],
                bcs=[dict(kind="dirichlet", surfaces=[1], value=1.0, field=0)], ics=[],
                settings=dict(transient=True, final_time=ft, atol=1e-7 * fl, rtol=1e-7, maximum_iterations=30))
    if kind == "heat":
        m.update(thermal_cond=r6(.3 / ft), heat_capacity=1.0, rho=1.0)
        spec["T"] = dict(kind="heat", transient=True, ic="500 + 10*x", absolute_tolerance=1e-6 * fl)
        spec["bcs"].append(dict(kind="dirichlet", surfaces=[2], value=520.0, field="T"))
    elif kind == "trap":
        spec["traps"] = [dict(k_0=r6(2. / ft), E_k=0.0, p_0=r6(.5 / ft), E_p=0.0, materials=0, density=3.0)]
    elif kind == "extrinsic":
        spec["traps"] = [dict(kind="neutron", k_0=r6(2. / ft), E_k=0.0, p_0=r6(.5 / ft), E_p=0.0, materials=[0],
                              phi=r6(1. / ft), K=1.0, n_max=2.0, A_0=r6(.1 / ft), E_A=0.0, absolute_tolerance=1e-7 * fl)]
    elif kind == "tT":
        spec["T"] = dict(kind="expr", value="500 + %s*t" % r6(50 / ft))
    return spec


def stepping(rng, ft, st):
    n = rng.choice([3, 5, 8, 12, 20])
    f0 = u(rng, .6, 1.4) / n
    if st.get("exact"):
        f0 = 1.0 / n
    if st.get("huge"):
        f0 = u(rng, 1.0, 30)
    d = dict(value=r6(ft * f0))
    if st["mode"] == "adaptive":
        d["ratio"] = rng.choice([1.05, 1.1, 1.2, 1.5, 2.0, 3.0])
        if d["ratio"] <= 1.2:
            d["value"] = r6(max(d["value"], ft / 30))
        if rng.random() < .6:
            d["dt_min"] = r6(ft * 1e-7)
    cap = st.get("cap")
    if cap == "number":
        d["max"] = r6(ft * u(rng, .04, .3))
    elif cap == "function":
        a, b = sorted([u(rng, .05, .9), u(rng, .05, .9)])
        d["max"] = [[0.0, rng.choice([None, r6(ft * u(rng, .05, .4))])], [r6(a * ft), r6(ft * u(rng, .03, .2))],
                    [r6(b * ft), rng.choice([None, r6(ft * u(rng, .03, .2))])]]
    elif cap == "stop":
        d["t_stop"] = r6(ft * u(rng, .1, .7))
        d["stop_max"] = r6(ft * u(rng, .03, .15))
    if cap and not st.get("over") and d.get("max"):
        mx = [v for _, v in d["max"] if v] if isinstance(d["max"], list) else [d["max"]]
        d["value"] = r6(min([d["value"]] + mx))
    return d


def milestone_set(rng, ft, dt, style):
    if style == "none":
        return None
    if style == "few":
        return [r6(ft * u(rng, .02, .98)) for _ in range(rng.randint(1, 4))]
    if style == "dense":
        b = u(rng, .2, .7)
        return [r6(ft * (b + 0.013 * i)) for i in range(rng.randint(3, 8))]
    if style == "grid":      # multiples of the stepsize: coincide with natural steps
        return [r6(dt * k) for k in rng.sample(range(1, 9), 3)]
    if style == "float":     # times reached only up to round-off
        return [dt * k for k in range(1, 6)]
    if style == "early":
        return [r6(dt * u(rng, .05, .95)), r6(dt * u(rng, 1.05, 1.9))]
    if style == "late":
        return [ft, r6(ft * 1.5), r6(ft * .97)]
    if style == "unsorted":
        q = [r6(ft * u(rng, .05, .95)) for _ in range(4)]
        return [q[0]] + q
    if style == "zero":
        return [0, r6(ft * .5)]
    raise ValueError(style)


def make(rng, st):
    ft = st.get("ft") or rng.choice([1.0, 1e-5, 1e-9, 3.7, 1e4, 8.64e6, 0.3, 100, 7])
    spec = model(rng, ft, st.get("model", "plain"))
    d = stepping(rng, ft, st)
    if st.get("dyadic"):
        # exact arithmetic: the limit begins at a time that is reached exactly
        d = dict(value=.125, ratio=2.0, dt_min=1e-4, milestones=[.25, .625])
        d.update(dict(t_stop=.25, stop_max=.0625) if st["dyadic"] == "stop" else dict(max=[[0.0, None], [.25, .0625], [.625, .03125]]))
    ms = milestone_set(rng, ft, d["value"], st.get("ms", "none"))
    if ms is not None:
        d["milestones"] = ms
    spec["dt"] = d
    case = dict(spec=spec, tags={k: v for k, v in st.items() if k != "n"})
    if st.get("txt"):
        tx = milestone_set(rng, ft, d["value"], st["txt"])
        case["txt"] = [tx] if rng.random() < .6 or len(tx) < 2 else [tx[:1], tx[1:]]
        case["txt"] = [[t for t in l if t > 0] for l in case["txt"]]
        case["txt"] = [l for l in case["txt"] if l]
    if st.get("effort"):
        # iterations the solver reports, call by call
        case["script"] = {str(k): rng.choice([1, 2, 3, 4, 4, 5, 5, 6, 9]) for k in range(250) if rng.random() < .8}
    if st.get("plain") and "ratio" not in d and "milestones" not in d:
        case["plain_dt"] = True
    return case


CORE = []
for ms in ("none", "few", "dense", "grid", "float", "early", "late", "unsorted", "zero"):
    CORE.append(dict(mode="fixed", ms=ms, exact=ms in ("grid", "float")))
    CORE.append(dict(mode="adaptive", ms=ms, effort=True))
    CORE.append(dict(mode="adaptive", ms=ms, cap="number"))
for cap in ("number", "function", "stop"):
    CORE.append(dict(mode="adaptive", cap=cap, ms="few", effort=True))
    CORE.append(dict(mode="adaptive", cap=cap, ms="none", effort=False))
CORE += [dict(mode="adaptive", cap="number", over=True, ms="none"), dict(mode="adaptive", cap="function", over=True, ms="few")]
for txt in ("few", "grid", "float", "early", "late"):
    CORE.append(dict(mode="fixed", txt=txt, ms="none"))
    CORE.append(dict(mode="adaptive", txt=txt, ms="few", effort=True))
CORE += [dict(mode="fixed", huge=True, ms=q) for q in ("none", "few", "late")]
CORE += [dict(mode="adaptive", huge=True, ms=q, txt="few") for q in ("none", "few")]
CORE += [dict(mode="fixed", plain=True, exact=True), dict(mode="fixed", plain=True)]
CORE += [dict(mode="adaptive", ft=1.0, dyadic=q) for q in ("stop", "function")]
# nanoseconds and less, and geological times
for ft in (1e-8, 3e-11, 2e10):
    CORE += [dict(mode="fixed", ft=ft, ms="few"), dict(mode="adaptive", ft=ft, ms="dense", effort=True), dict(mode="fixed", ft=ft, ms="none", txt="few"),
             dict(mode="adaptive", ft=ft, ms="late", cap="number")]
for md in ("heat", "trap", "extrinsic", "tT"):
    CORE.append(dict(mode="adaptive", model=md, ms="few", effort=md != "trap"))
    CORE.append(dict(mode="fixed", model=md, ms="few", txt="few"))


def core(tier):
    out = []
    for i, st in enumerate(CORE):
        rng = random.Random("c01 core %d" % i)
        b = []
        for _ in range(3):
            c = make(rng, st)
            c["label"] = "core%d %s" % (i, st)
            b.append(c)
        out.append(b)
    return out


def structure(rng):
    mode = rng.choice(["fixed", "adaptive", "adaptive"])
    return dict(mode=mode, ms=rng.choice(["none", "few", "dense", "grid", "float", "early", "late", "unsorted", "zero"]),
                exact=rng.random() < .4, huge=rng.random() < .1, cap=rng.choice([None, "number", "function", "stop"]) if mode == "adaptive" else None,
                over=rng.random() < .2, effort=rng.random() < .6, txt=rng.choice([None, None, "few", "grid", "float", "early", "dense"]),
                model=rng.choice(["plain", "plain", "plain", "heat", "trap", "extrinsic", "tT"]), plain=rng.random() < .2)


def random_batches(rng, tier):
    while True:
        st = structure(rng)
        yield [make(rng, st) for _ in range(4)]
