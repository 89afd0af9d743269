"""C02 step acceptance: failed solves"""
from .compose import *

LEVEL = "exploration"
RULE = ("a case is one full FESTIM run in which some nonlinear solves fail (scripted failures that leave garbage in the "
        "unknowns, too few iterations, unreachable tolerances); non-trivial when a failed solve was observed, or when a run "
        "that has to stop was observed; distinct by specification and failure script")
ASSUMPTIONS = ["failures are injected through the documented customisation of the Newton solver", "row tolerance 2e-5 relative"]
NEED = {"steps": 100, "failed_solves": 60, "must_stop": 10, "stepsizes_judged": 100, "rows:mobile": 300, "rows:density": 50,
        "rows:heat": 50}
NEED_SIG = {}
HB = [["dirichlet", [1], dict(field="T")], ["flux", [2], dict(field="T")]]

STRUCT = [
    dict(T="xt", bcs=[["dirichlet", [1]]]), dict(T="xt", traps=[[0]], bcs=[["dirichlet", [1]], ["recomb", [2]]]),
    dict(T="t", nmat=2, traps=[[0], [1]], elt="DG"), dict(heat="transient", bcs=HB + [["dirichlet", [2]]]),
    dict(heat="transient", nmat=2, traps=[[0, 1]], bcs=HB), dict(traps=[dict(mats=[0], kind="neutron")], T="xt"),
    dict(traps=[dict(mats=[0], kind="extrinsic", tpar=["phi_0", "f_a"]), [0]], T="xt"),
    dict(chem=True, nmat=2, T="xt", bcs=[["dirichlet", [1]]]), dict(chem=True, nmat=2, T="t", traps=[[0]], bcs=[["mass", [1]]]),
    dict(bcs=[["surfkin", [1, 2]]], T="xt"), dict(typ="cylindrical", T="xt", sources=[["source", 0]], bcs=[["flux", [2]]]),
    dict(heat="transient", chem=True, nmat=2, bcs=HB + [["dirichlet", [1]]]),
    dict(heat="steady", bcs=HB + [["sieverts", [1]]]), dict(dim=2, nmat=2, T="xt", traps=[[0]], bcs=[["dirichlet", [1]]]),
    dict(T="xt", soret=True, update_jacobian=False, bcs=[["dirichlet", [1]]], traps=[[0]]),
    dict(T="xt", bcs=[["implantation", [1]], ["henrys", [2]]]),
]


def script(rng, style):
    if style == "one":
        return {str(rng.randint(0, 5)): "fail"}
    if style == "first":
        return {str(k): "fail" for k in range(rng.randint(1, 3))}
    if style == "run":
        a = rng.randint(1, 5)
        return {str(k): "fail" for k in range(a, a + rng.randint(2, 5))}
    if style == "sparse":
        return {str(k): "fail" for k in range(40) if rng.random() < .3}
    if style == "mixed":
        out = {}
        for k in range(40):
            q = rng.random()
            if q < .2:
                out[str(k)] = "fail"
            elif q < .6:
                out[str(k)] = rng.choice([1, 4, 5, 7])
        return out
    if style == "forever":
        a = rng.randint(0, 4)
        return {str(k): "fail" for k in range(a, 1000)}
    raise ValueError(style)


def make(rng, st, style, stepping="adaptive"):
    s2 = dict(st)
    s2["ft"] = 0.5
    spec = fill(rng, s2)
    d = dict(value=r6(.5 * u(rng, .1, .35)), ratio=rng.choice([1.2, 1.5, 2.0, 3.0]))
    if stepping == "adaptive":
        d["dt_min"] = r6(d["value"] * rng.choice([1e-3, 1e-2])) if style != "forever" else r6(d["value"] * u(rng, .02, .4))
    elif stepping == "fixed":
        d.pop("ratio")
    if rng.random() < .4:
        d["milestones"] = [r6(u(rng, .05, .45)) for _ in range(rng.randint(1, 2))]
    if rng.random() < .3 and "ratio" in d:
        d["max"] = r6(u(rng, .1, .25))
        d["value"] = min(d["value"], d["max"])
    spec["dt"] = d
    return dict(kind="script", spec=spec, script=script(rng, style), garbage=rng.choice(["noise", "noise", "nan", "nan", "none"]),
                tags=dict(style=style, stepping=stepping, **st))


def at_the_minimum(rng):
    """the stepsize may come down to the minimum, not below"""
    out = []
    for n in (2, 3):
        for a in (0, 2):
            c = make(rng, rng.choice(STRUCT[:3]), "one")
            c["spec"]["dt"] = dict(value=.125, ratio=2.0, dt_min=.03125, exact=True)
            if a:
                c["spec"]["dt"]["max"] = .125
            c["script"] = {str(k): "fail" for k in range(a, a + n)}
            c["tags"] = dict(style="at the minimum", n=n, a=a)
            out.append(c)
    return out


def stops(rng):
    """runs that have to end with an error, from natural causes"""
    out = []
    # nonlinear heat problem that is not given enough iterations
    for tr in ("transient", "steady"):
        sp = fill(rng, dict(heat=tr, bcs=HB, ft=.3))
        for m in sp["materials"]:
            m["thermal_cond"] = "0.2 + 0.000002*T*T"
        sp["T"].update(maximum_iterations=1, absolute_tolerance=1e-12, relative_tolerance=1e-14)
        out.append(dict(kind="stop", why="the heat solve did not converge (%s)" % tr, spec=sp, max_steps=0))
    # trap density solve that is given no iteration
    for kind in ("neutron", "extrinsic"):
        sp = fill(rng, dict(traps=[dict(mats=[0], kind=kind)], T="xt", ft=.3))
        sp["traps"][0].update(absolute_tolerance=1e-40, relative_tolerance=1e-40, maximum_iterations=0)
        out.append(dict(kind="stop", why="the trap density solve did not converge (%s)" % kind, spec=sp, max_steps=0))
    # steady transport solve that fails
    sp = fill(rng, dict(steady=True, T="x", bcs=[["dirichlet", [1]], ["dirichlet", [2]]]))
    out.append(dict(kind="stop", why="the steady solve failed", spec=sp, script={"0": "fail"}))
    sp = fill(rng, dict(steady=True, T="x", traps=[[0]], bcs=[["dirichlet", [1]], ["recomb", [2], dict(order=2)]]))
    sp["settings"].update(maximum_iterations=1, atol=1e-13, rtol=1e-14)
    out.append(dict(kind="stop", why="the steady solve was not given enough iterations", spec=sp))
    # fixed stepsize, too few iterations
    sp = fill(rng, dict(T="t", traps=[[0], [0]], bcs=[["dirichlet", [1]], ["recomb", [2], dict(order=2)]]))
    sp["settings"].update(maximum_iterations=1, atol=1e-13, rtol=1e-14)
    out.append(dict(kind="stop", why="the first step was not given enough iterations", spec=sp, max_steps=0))
    for c in out:
        c["tags"] = dict(style="stop", why=c["why"])
    return out


def core(tier):
    out = []
    styles = ["one", "first", "run", "sparse", "mixed"]
    for i, st in enumerate(STRUCT):
        rng = random.Random("c02 core %d" % i)
        b = [make(rng, st, styles[(i + j) % 5]) for j in range(3)]
        b.append(make(rng, st, "first" if i % 2 else "one"))
        if i % 3 == 0:
            b.append(make(rng, st, "forever"))
        elif i % 3 == 1:
            b.append(make(rng, st, "one", "nomin"))
        else:
            b.append(make(rng, st, "one", "fixed"))
        for c in b:
            c["label"] = "core%d %s" % (i, c["tags"])
        out.append(b)
    rng = random.Random("c02 stops")
    b = stops(rng) + stops(rng) + at_the_minimum(rng)
    for c in b:
        c["label"] = "stop %s" % c["tags"]
    h = len(b) // 2
    return out + [b[:h], b[h:]]


def random_batches(rng, tier):
    while True:
        if rng.random() < .05:
            yield stops(rng)
            continue
        st = rng.choice(STRUCT)
        yield [make(rng, st, rng.choice(["one", "first", "run", "sparse", "mixed", "mixed", "forever"]),
                    rng.choice(["adaptive"] * 6 + ["fixed", "nomin"])) for _ in range(4)]
