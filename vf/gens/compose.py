"""Structure description -> full model specification.  A structure (`st`) is a
small dict of choices; the numbers come from the generator."""
from .lib import *
from ..units import Units, choose


def in_units(rng, d, p):
    """with probability p the case is posed in other units"""
    if rng.random() < p or d["st"].get("small"):
        d["units"] = choose(rng, d["spec"])
        if d["st"].get("small"):
            small = d["st"]["small"]
            d["units"].update(L=2.0 ** -20 if small is True else small, N=2.0 ** -10)      # atomic fractions on micrometres
            d["units"]["tau"] = d["units"]["L"] ** {"1d": 1, "rect": 2, "box": 3}[d["spec"]["mesh"]["kind"]] * 2.0 ** -6
        d["spec"] = Units(**d["units"]).scale(d["spec"])
        d["st"] = dict(d["st"], units=True)
    return d


def pick(rng, v):
    return rng.choice(v) if isinstance(v, (list, tuple)) else v


def prm(rng, dim, lo=0.3, hi=1.5):
    """a value linear in space (Expression degree 1), any shape in time"""
    return val(rng, 1, dim, lo, hi)


def lin(rng, dim, lo=0.3, hi=1.5):
    s = u(rng, lo, hi)
    k = rng.choice(["c", "t", "x", "xt"])
    if k == "c":
        return s
    if k == "t":
        return "%s*%s" % (s, tshape(rng))
    x = "(%s + %s*x%s)" % (u(rng, .5, 1), u(rng, .1, .6), " + %s*y" % u(rng, .1, .5) if dim > 1 else "")
    return "%s*%s" % (s, x) if k == "x" else "%s*%s*%s" % (s, x, tshape(rng))


def signed(rng, v, p=.2):
    """with probability p a sink, now and then nothing at all"""
    q = rng.random()
    if q < p:
        return "-(%s)" % v if isinstance(v, str) else -v
    return 0 if q > 1 - p / 5 else v


def make_bc(rng, tok, dim, st):
    """tok: [kind, surfaces, extra]"""
    k, surf = tok[0], tok[1]
    opt = tok[2] if len(tok) > 2 else {}
    steady_ = st.get("steady")

    def T0(v):  # steady models keep time out
        return v

    g = (lambda lo, hi: (u(rng, lo, hi) if steady_ else lin(rng, dim, lo, hi)))
    if k == "dirichlet":
        fld = opt.get("field", 0)
        if fld == "T":
            v = u(rng, 480, 560) if steady_ or rng.random() < .3 else "%s + %s*t" % (u(rng, 480, 540), u(rng, 20, 60))
            return dict(kind=k, surfaces=surf, value=v, field="T")
        return dict(kind=k, surfaces=surf, value=u(rng, .3, 1.5) if steady_ else val(rng, 3, dim), field=fld)
    if k == "sieverts":
        S, E = arr(rng, .5, 2, .15)
        return dict(kind=k, surfaces=surf, S_0=S, E_S=E, pressure=g(.4, 2))
    if k == "henrys":
        S, E = arr(rng, .5, 2, .15)
        return dict(kind=k, surfaces=surf, H_0=S, E_H=E, pressure=g(.4, 2))
    if k == "implantation":
        D, ED = arr(rng, .3, .9)
        b = dict(kind=k, surfaces=surf, phi=g(.3, 1.2), R_p=g(.2, .6), D_0=D, E_D=ED)
        lvl = opt.get("level", rng.choice([0, 1, 2]))
        if lvl >= 1:
            b["Kr_0"], b["E_Kr"] = arr(rng, .5, 2, .15)
        if lvl >= 2:
            b["Kd_0"], b["E_Kd"] = arr(rng, .3, 1, .15)
            b["P"] = g(.4, 1.5)
        return b
    if k == "custom_dirichlet":
        return dict(kind=k, surfaces=surf, field=opt.get("field", 0),
                    function="450 + 30*a + 20*b" if opt.get("field") == "T" else "a*exp(-%s/8.6e-5/T) + b*T*1e-3" % u(rng, .01, .08),
                    prms=dict(a=g(.5, 1.5), b=g(.3, 1)))
    if k == "flux":
        fld = opt.get("field", 0)
        if fld == "T":
            return dict(kind=k, surfaces=surf, value=signed(rng, u(rng, 5, 25) if steady_ else val(rng, 2, dim, 5, 25)), field="T")
        v = u(rng, .2, 1) if steady_ else val(rng, 2, dim, .2, 1)
        return dict(kind=k, surfaces=surf, value=v if positive(st) else signed(rng, v), field=fld)
    if k == "recomb":
        K, E = arr(rng, .4, 1.5, .12)
        order = opt.get("order", rng.choice([1, 2]))
        Ks = K if steady_ or rng.random() < .4 else "%s*%s" % (K, lin(rng, dim, .7, 1.2))
        Es = E if steady_ or rng.random() < .5 else "%s + 0.004*t" % E
        return dict(kind=k, surfaces=surf, Kr_0=Ks, E_Kr=Es, order=order)
    if k == "dissoc":
        K, E = arr(rng, .4, 1.5, .12)
        return dict(kind=k, surfaces=surf, Kd_0=K if steady_ else "%s*%s" % (K, lin(rng, dim, .7, 1.2)),
                    E_Kd=E if steady_ or rng.random() < .5 else "%s + 0.003*t" % E, P=g(.4, 1.5))
    if k == "mass":
        return dict(kind=k, surfaces=surf, h=g(.4, 1.5), c_ext=g(.3, 1.2))
    if k == "convective":
        te = u(rng, 460, 520) if steady_ else "%s + %s*t" % (u(rng, 460, 500), u(rng, 20, 60))
        return dict(kind=k, surfaces=surf, h=g(.3, 1.2), T_ext=te)
    if k == "custom_flux":
        fld = opt.get("field", 0)
        if fld == "T":
            return dict(kind=k, surfaces=surf, field="T", function="-a*(T - 480) + b", prms=dict(a=g(.3, 1), b=g(1, 5)))
        return dict(kind=k, surfaces=surf, field=0,
                    function=rng.choice(["-a*solute**2 + b*exp(-%s/8.6e-5/T)" % u(rng, .01, .06),
                                         "a - b*solute*T*2e-3", "-a*solute + b"]),
                    prms=dict(a=g(.3, 1), b=g(.3, 1)))
    if k == "surfkin":
        def rate(lo, hi):
            c = rng.choice(["n", "T", "p"])
            v = u(rng, lo, hi)
            if c == "n":
                return v
            if c == "T":
                return "%s*exp(-%s/8.6e-5/T)" % (v, u(rng, .005, .03))
            return "%s*a*(1 + 0.1*cs) + 0.05*cm" % v
        return dict(kind=k, surfaces=surf, k_sb=rate(.3, 1.), k_bs=rate(.2, .8), lambda_IS=u(rng, .1, .4),
                    n_surf=u(rng, 3, 8), n_IS=u(rng, 10, 30),
                    J_vs=rng.choice(["b*(1 - cs/6)", "b*(1 - cs/6)**2 - 0.2*cs*cs*exp(-0.02/8.6e-5/T)", u(rng, .1, .5),
                                     "b*a*(1 - cs/7) - 0.1*cm"]),
                    prms=dict(a=u(rng, .5, 1.2) if steady_ or rng.random() < .25 else "%s*%s" % (u(rng, .5, 1.2), tshape(rng)),
                              b=u(rng, .2, .6) if steady_ or rng.random() < .25 else "%s*%s" % (u(rng, .2, .6), tshape(rng))),
                    ic=u(rng, .2, 1.5))
    raise ValueError(k)


def positive(st):
    """structures whose laws need positive concentrations"""
    return st.get("chem") or any(b[0] in ("recomb", "custom_flux", "surfkin") for b in st.get("bcs", []))


def make_source(rng, tok, dim, st):
    k, vol = tok[0], tok[1]
    opt = tok[2] if len(tok) > 2 else {}
    steady_ = st.get("steady")
    if k == "source":
        fld = opt.get("field", "0")
        lo, hi = (5, 30) if fld == "T" else (.2, 1)
        v = val(rng, 2, dim, lo, hi, t=not steady_)
        return dict(kind=k, volume=vol, field=fld, value=v if fld != "T" and positive(st) else signed(rng, v))
    if k == "implantation":
        g = lambda lo, hi, t=True: u(rng, lo, hi) if steady_ or not t or rng.random() < .5 else "%s*%s" % (u(rng, lo, hi), tshape(rng, rng.choice(["lin", "sin"])))
        return dict(kind=k, volume=vol, flux=g(.3, 1), depth=g(.2, .4), width=u(rng, .35, .6))
    if k == "decay":
        d = dict(kind=k, volume=vol)
        d["lambda"] = u(rng, .3, 1.2)
        if "field" in opt:
            d["field"] = opt["field"]
        return d
    raise ValueError(k)


def fill(rng, st):
    dim, typ = st.get("dim", 1), st.get("typ", "cartesian")
    nmat = st.get("nmat", 1)
    chem, soret = st.get("chem", False), st.get("soret", False)
    heat = st.get("heat")
    kw = dict(chem=chem or st.get("with_S", False), soret=soret, heat=heat is not None or st.get("with_k", False),
              transient_heat=heat == "transient" or st.get("with_k", False))
    if dim == 1:
        mesh = mesh1d(rng, typ, n=st.get("n"), x0=st.get("x0"))
        mats = materials_1d(rng, mesh, nmat, ids=st.get("ids"), sandwich=st.get("sandwich", False), **kw)
    elif dim == 2:
        mesh = rect2(rect(rng, nmat, typ, st.get("via_xdmf", False)))
        if st.get("vol_ids"):
            mesh["vol_ids"] = st["vol_ids"]
        mats = materials_nd(rng, mesh, **kw)
    else:
        mesh = dict(kind="box", lx=1.0, ly=0.8, lz=0.6, nx=2, ny=2, nz=2, vol_ids=[1] if nmat == 1 else [1, 2])
        mats = materials_nd(rng, mesh, **kw)
    if st.get("surf_ids"):
        mesh["surf_ids"] = st["surf_ids"]
    nm = len(mats)
    for i, law in enumerate(st.get("laws", [])):
        if i < nm:
            mats[i]["solubility_law"] = law
    if st.get("names"):
        for i, m in enumerate(mats):
            m["name"] = "mat_%d" % i
    spec = dict(mesh=mesh, materials=mats, T=temperature(rng, dim, st.get("T", "xt")),
                settings=settings(rng, ft=st.get("ft"), chemical_pot=chem, soret=soret,
                                  traps_element_type=st.get("elt", "CG")),
                dt=dtspec(rng, ft=st.get("ft", 0.5), kind=st.get("dt", "fixed")))
    if "update_jacobian" in st:
        spec["settings"]["update_jacobian"] = st["update_jacobian"]
    if heat:
        spec["T"] = dict(kind="heat", transient=heat == "transient", absolute_tolerance=1e-10)
        if heat == "transient":
            spec["T"]["ic"] = st.get("T_ic") or "%s + %s*x" % (u(rng, 480, 540), u(rng, -20, 20))
            spec["T"]["ic_plain"] = rng.random() < .6
    traps = []
    for q in st.get("traps", []):
        q = q if isinstance(q, dict) else dict(mats=q)
        mt = [i for i in q["mats"] if i < nm] or [0]
        t = trap(rng, mt, dim, multi=q.get("multi", False), kind=q.get("kind", "trap"),
                 tdens=not st.get("steady"))
        if q.get("id") is not None:
            t["id"] = q["id"]
        if q.get("by_name") and st.get("names"):
            t["by_name"] = True
        if q.get("tpar") and t.get("kind", "trap") != "trap":
            for key in q["tpar"]:
                t[key] = "%s*%s" % (t[key], tshape(rng))
        traps.append(t)
    spec["traps"] = traps
    vols = [v for m in mats for v in (m["id"] if isinstance(m["id"], list) else [m["id"]])]

    def v_of(v):
        """volume token: index into the ids, or list of indices"""
        if isinstance(v, list):
            return [vols[i % len(vols)] for i in v]
        return vols[v % len(vols)]

    spec["bcs"] = [make_bc(rng, tok, dim, st) for tok in st.get("bcs", [])]
    spec["sources"] = [make_source(rng, [tok[0], v_of(tok[1])] + list(tok[2:]), dim, st) for tok in st.get("sources", [])]
    if st.get("ic", True):
        c0 = xpoly(rng, 2, dim)
        spec["ics"] = [dict(field=rng.choice([0, "0", "solute"]), value=c0)]
        for i, t in enumerate(traps, 1):
            lab = t.get("id", i)
            if rng.random() < st.get("trap_ic", .5):
                spec["ics"].append(dict(field=rng.choice([lab, str(lab)]), value="%s*%s" % (u(rng, .05, .2), xpoly(rng, 2, dim))))
    if st.get("steady"):
        if spec["T"]["kind"] == "expr":
            spec["T"] = temperature(rng, dim, "const" if st.get("T") == "const" else "x")
        spec = steady(spec)
    return spec


def as_objects(rng, spec):
    """values given as FEniCS expressions and functions"""
    for q in spec.get("sources", []):
        if q.get("kind", "source") == "source":
            q["as"] = rng.choice(["expression", "user", "function"])
    for t in spec.get("traps", []):
        t["as"] = rng.choice(["expression", "user"])


def cases(rng, st, n, label=None):
    out = []
    for k in range(n):
        d = dict(st=st, spec=fill(rng, st))
        if st.get("objects"):
            as_objects(rng, d["spec"])
        if label:
            d["label"] = label
        if not st.get("xdmf"):
            in_units(rng, d, (k % 2) if label else .3)
        out.append(d)
    return out


def core_of(name, structs, n=2):
    out = []
    for i, st in enumerate(structs):
        rng = random.Random("%s core %d" % (name, i))
        out.append(cases(rng, st, n, "core%d %s" % (i, st)))
    return out


# many materials and traps, identifiers that begin like one another
CROWD = dict(nmat=5, ids=[12, 1, 21, 2, 10], n=15,
             traps=[dict(mats=[0, 3], id=12), dict(mats=[1], id=1), dict(mats=[2, 4, 0], id=2, multi=True), dict(mats=[4, 1], id=21)])
NUMBERS = [1, 11, 2, 12]


def perm_ids(rng):
    return rng.choice([None, [4, 2, 9], [7, 3, 12], [3, 1, 2], [12, 1, 2], [1, 11, 10], [0, 3, 1], [2, 0, 5]])
