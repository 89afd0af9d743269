"""Random model pieces (pure Python, no FESTIM).  Everything is O(1)-scaled so
that the monitors' relative tolerances are meaningful."""
import math
import copy
import random

K_B = 8.6173303e-5
TREF = 520.0


def r6(v):
    return float("%.6g" % v)


def u(rng, a, b):
    return r6(rng.uniform(a, b))


def lu(rng, a, b):
    return r6(math.exp(rng.uniform(math.log(a), math.log(b))))


def arr(rng, lo, hi, emax=0.25, e_neg=False):
    """(prefactor, energy) with value in [lo, hi] around TREF"""
    E = 0 if rng.random() < .08 else u(rng, -0.05 if e_neg else 0.01, emax)
    v = lu(rng, lo, hi)
    return r6(v * math.exp(E / K_B / TREF)), E


def tshape(rng, kind=None):
    """a positive O(1) function of time, as a string"""
    k = kind or rng.choice(["lin", "exp", "sin", "quad", "step", "ramp"])
    a = u(rng, 0.2, 0.9)
    if k == "lin":
        return "(1 + %s*t)" % a
    if k == "exp":
        return "(0.5 + exp(-%s*t))" % u(rng, 0.5, 3)
    if k == "sin":
        return "(1.2 + %s*sin(%s*t))" % (a, u(rng, 1, 6))
    if k == "quad":
        return "(0.6 + %s*t**2)" % a
    if k == "step":
        return "Piecewise((1.3, t < %s), (0.4, True))" % u(rng, 0.13, 0.37)
    return "Piecewise((t + 0.3, t < %s), (%s, True))" % (u(rng, 0.13, 0.37), u(rng, 0.4, 1))


def xpoly(rng, deg=2, dim=1, scale=1.0):
    """positive polynomial in space on [0,2]^dim"""
    s = "%s + %s*x" % (u(rng, 0.5, 1.0), u(rng, 0.1, 0.6))
    if deg > 1 and rng.random() < 0.6:
        s += " + %s*x**2" % u(rng, 0.05, 0.3)
    if dim > 1:
        s += " + %s*y" % u(rng, 0.1, 0.5)
    if dim > 2:
        s += " + %s*z" % u(rng, 0.1, 0.5)
    return "(%s)" % s


def val(rng, deg=2, dim=1, lo=0.3, hi=1.5, t=True, x=True, const=True):
    """a user value: number, f(x), f(t) or f(x,t)"""
    ch = []
    if const:
        ch.append("c")
    if t:
        ch.append("t")
    if x and deg > 0:
        ch.append("x")
        if t:
            ch.append("xt")
    k = rng.choice(ch)
    s = u(rng, lo, hi)
    if k == "c":
        return s
    if k == "t":
        return "%s*%s" % (s, tshape(rng))
    if k == "x":
        return "%s*%s" % (s, xpoly(rng, deg, dim))
    return "%s*%s*%s" % (s, xpoly(rng, deg, dim), tshape(rng))


def temperature(rng, dim=1, kind=None):
    k = kind or rng.choice(["const", "x", "t", "xt"])
    b = u(rng, 460, 560)
    if k == "const":
        return dict(kind="expr", value=b)
    if k == "x":
        v = "%s + %s*x" % (b, u(rng, -30, 30))
    elif k == "t":
        v = "%s + %s*t" % (b, u(rng, 30, 90))
    elif k == "hump":      # the same at t=0 and t=1
        v = "%s + %s*t*(1 - t)" % (b, u(rng, 60, 160))
    elif k == "hinge":     # does not change at one end
        v = "%s + %s*x*t" % (b, u(rng, 60, 160))
    elif k == "plateau":   # does not change at first
        t0 = u(rng, .12, .3)
        v = "%s + Piecewise((0, t < %s), (%s*(t - %s), True))" % (b, t0, u(rng, 80, 200), t0)
    else:
        v = "%s + %s*x + %s*t + %s*x*t" % (b, u(rng, -30, 30), u(rng, 20, 60), u(rng, 5, 20))
    if dim > 1 and k in ("x", "xt"):
        v += " + %s*y" % u(rng, -20, 20)
    return dict(kind="expr", value=v)


def mesh1d(rng, typ="cartesian", n=None, x0=None, x1=None):
    if x0 is None:
        x0 = 0.0 if typ == "cartesian" else u(rng, 0.4, 0.8)
    x1 = x1 if x1 is not None else r6(x0 + u(rng, 0.8, 1.4))
    return dict(kind="1d", x0=x0, x1=x1, n=n or rng.randint(8, 14), grade=rng.choice([0.0, 0.3, -0.3]), type=typ)


def rect(rng, nvol=1, typ="cartesian", via_xdmf=False):
    ids = {1: [[1], [7], [0]], 2: [[1, 2], [4, 2], [3, 0]], 3: [[1, 2, 3], [5, 3, 9], [2, 0, 4]]}[nvol]
    return dict(kind="rect", lx=u(rng, 0.8, 1.3), ly=u(rng, 0.7, 1.2), nx=rng.randint(4, 6), ny=rng.randint(4, 5),
                x0=0.0 if typ == "cartesian" else u(rng, 0.5, 0.8),
                diag=rng.choice(["right", "left", "crossed"]), type=typ, vol_ids=rng.choice(ids),
                split_x=0.5 if nvol > 1 else 0.5, split_y=0.5, via_xdmf=via_xdmf)


def rect2(m):
    """make the split coincide with mesh lines"""
    if len(m["vol_ids"]) > 1:
        m["nx"] = 2 * ((m["nx"] + 1) // 2)
        m["ny"] = 2 * ((m["ny"] + 1) // 2)
    return m


def material(rng, mid, chem=False, heat=False, soret=False, law="sievert", transient_heat=True, henry_free=False):
    D0, ED = arr(rng, 0.1, 0.6)
    m = dict(id=mid, D_0=D0, E_D=ED)
    if chem:
        S0, ES = arr(rng, 0.5, 2.5, 0.15, e_neg=True)
        m.update(S_0=S0, E_S=ES)
        if law != "sievert":
            m["solubility_law"] = law
    if heat:
        m["thermal_cond"] = rng.choice([u(rng, 0.2, 0.8), "%s + %s*T" % (u(rng, 0.2, 0.5), u(rng, 1e-4, 8e-4))])
        if transient_heat:
            m["heat_capacity"] = rng.choice([u(rng, 0.5, 1.5), "%s + %s*T" % (u(rng, 0.5, 1), u(rng, 1e-4, 8e-4))])
            m["rho"] = rng.choice([u(rng, 0.5, 2), "%s + %s*T" % (u(rng, 0.5, 1), u(rng, 1e-4, 8e-4))])
    if soret:
        q = rng.choice([1, 1, -1])
        m["Q"] = rng.choice([q * u(rng, 0.1, 0.4), "%s + %s*T" % (q * u(rng, 0.05, 0.2), u(rng, 1e-4, 4e-4) * q)])
    return m


def borders(rng, x0, x1, n):
    """n contiguous intervals"""
    cuts = sorted(rng.uniform(0.2, 0.8) for _ in range(n - 1))
    while any(b - a < 0.12 for a, b in zip([0] + cuts, cuts + [1])):
        cuts = sorted(rng.uniform(0.12, 0.88) for _ in range(n - 1))
    pts = [x0] + [r6(x0 + c * (x1 - x0)) for c in cuts] + [x1]
    return [[a, b] for a, b in zip(pts, pts[1:])]


def materials_1d(rng, mesh, n, ids=None, sandwich=False, **kw):
    """n materials (sandwich: 3 intervals, the outer two share one material)"""
    x0, x1 = mesh["x0"], mesh["x1"]
    if sandwich:
        b = borders(rng, x0, x1, 3)
        i = ids or [1, 2, 3]
        a = material(rng, [i[0], i[2]], **kw)
        a["borders"] = [b[0], b[2]]
        c = material(rng, i[1], **kw)
        c["borders"] = b[1]
        out = [a, c]
        if rng.random() < 0.5:
            out.reverse()
        return out
    ids = ids or list(range(1, n + 1))
    if n == 1:
        m = material(rng, ids[0], **kw)
        if rng.random() < 0.3 and x0 == 0.0:
            m["borders"] = [x0, x1]
        return [m]
    out = []
    for i, b in zip(ids, borders(rng, x0, x1, n)):
        m = material(rng, i, **kw)
        m["borders"] = b
        out.append(m)
    if rng.random() < 0.4:
        rng.shuffle(out)
    return out


def materials_nd(rng, mesh, **kw):
    ids = mesh["vol_ids"]
    if len(ids) == 3 and rng.random() < 0.5:
        out = [material(rng, [ids[0], ids[2]], **kw), material(rng, ids[1], **kw)]
    else:
        out = [material(rng, i, **kw) for i in ids]
    return out


def trap(rng, mats, dim=1, multi=None, tdens=True, kind="trap"):
    """mats: list of material indices"""
    def k():
        return arr(rng, 0.4, 2.0, 0.2)

    def p():
        return arr(rng, 0.3, 1.5, 0.25)

    if kind == "trap":
        if multi and len(mats) > 1:
            ks, ps = [k() for _ in mats], [p() for _ in mats]
            return dict(k_0=[a for a, _ in ks], E_k=[b for _, b in ks], p_0=[a for a, _ in ps], E_p=[b for _, b in ps],
                        materials=mats, density=[val(rng, 2, dim, 0.5, 1.5, t=tdens) for _ in mats])
        k0, Ek = k()
        p0, Ep = p()
        return dict(k_0=k0, E_k=Ek, p_0=p0, E_p=Ep, materials=mats if len(mats) > 1 or rng.random() < 0.5 else mats[0],
                    density=val(rng, 2, dim, 0.5, 1.5, t=tdens))
    k0, Ek = k()
    p0, Ep = p()
    t = dict(kind=kind, k_0=k0, E_k=Ek, p_0=p0, E_p=Ep, materials=mats, absolute_tolerance=1e-11)
    if kind == "extrinsic":
        t.update(phi_0=val(rng, 2, dim, t=False), n_amax=u(rng, 0.8, 2), n_bmax=u(rng, 0.5, 1.5),
                 eta_a=u(rng, 0.3, 1), eta_b=u(rng, 0.3, 1), f_a=val(rng, 2, dim, t=False),
                 f_b=val(rng, 2, dim, t=False))
    else:
        A0, EA = arr(rng, 0.2, 0.8, 0.15)
        t.update(phi=val(rng, 2, dim, t=False), K=u(rng, 0.3, 1), n_max=u(rng, 0.8, 2), A_0=A0, E_A=EA)
    return t


def settings(rng, ft=None, **kw):
    s = dict(transient=True, final_time=ft or 0.5, atol=1e-11, rtol=1e-11, maximum_iterations=40)
    s.update(kw)
    return s


def dtspec(rng, ft=0.5, kind=None):
    k = kind or rng.choice(["fixed", "adaptive", "milestones"])
    if k == "fixed":
        return dict(value=r6(ft / rng.randint(3, 6)))
    if k == "adaptive":
        return dict(value=r6(ft * u(rng, 0.06, 0.15)), ratio=u(rng, 1.1, 1.6), dt_min=1e-6,
                    **({"max": r6(ft * u(rng, 0.2, 0.4))} if rng.random() < 0.5 else {}))
    return dict(value=r6(ft * u(rng, 0.15, 0.3)), milestones=[r6(ft * u(rng, 0.35, 0.55)), r6(ft * 0.8)])


def steady(spec):
    """turn a transient spec into a steady one"""
    s = copy.deepcopy(spec)
    s.pop("dt", None)
    st = s["settings"]
    st.pop("final_time", None)
    st["transient"] = False
    return s


def variations(fill, rng, n):
    """n parameter draws of one structure: the structural choices are made by a
    generator seeded identically, the numbers by another"""
    return [fill(rng) for _ in range(n)]
