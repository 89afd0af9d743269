"""The same model in other units of length, time, amount, heat, pressure and
temperature (with the energies, so that E/kT stays) (pure Python).  The factors are powers of two, so the arithmetic of the scaled model
is that of the original one up to exponents: a code without hidden absolute
scales gives scaled results, and the tolerances of the monitors (relative) keep
their meaning."""
import copy
import re

LENGTH = [2.0 ** -20, 2.0 ** -13, 2.0 ** 7, 2.0 ** 10]
AMOUNT = [2.0 ** 66, 2.0 ** 40, 2.0 ** -10]


def choose(rng, spec):
    """Imposed values enter the same nonlinear residual as the balances, each in
    its own units; a solver tolerance means the same for both only when they
    are of similar size, so time and heat units follow the length unit."""
    d = {"1d": 1, "rect": 2, "box": 3}[spec["mesh"]["kind"]]
    L = rng.choice(LENGTH)
    tau = L ** d * rng.choice([2.0 ** -12, 2.0 ** -6, 2.0 ** -2])
    strong = ("dirichlet", "custom_dirichlet", "sieverts", "henrys", "implantation")
    if not any(b["kind"] in strong and b.get("field", 0) != "T" for b in spec.get("bcs", [])):
        tau = rng.choice([tau, 2.0 ** -20, 1.0, 2.0 ** 12, 2.0 ** 24])
    if not spec["settings"].get("transient", True):
        tau = 1.0   # outside its materials a trap's steady balance reads "c_t = 0" in no particular units
        L = rng.choice([2.0 ** -3, 2.0 ** 4])
    return dict(L=L, tau=tau, N=rng.choice(AMOUNT), H=L ** (2 - d) * rng.choice([2.0 ** 3, 2.0 ** 10]),
                P=rng.choice([2.0 ** 16, 2.0 ** 6, 2.0 ** -12]), Th=rng.choice([1.0, 2.0 ** 2, 2.0 ** -4, 2.0 ** -7]))


def aslist(v):
    return v if isinstance(v, list) else [v]


class Units:
    def __init__(self, L=1.0, tau=1.0, N=1.0, H=1.0, P=1.0, Th=1.0):
        self.L, self.tau, self.N, self.H, self.P, self.Th = L, tau, N, H, P, Th

    def of_T(self, s):
        """the text of a function of the temperature"""
        return re.sub(r"\bT\b", "(T/%r)" % self.Th, s)

    def expr(self, v, fac=1.0):
        """a user value (number, or string in x, y, z, t) in the new units"""
        if v is None or isinstance(v, bool):
            return v
        if not isinstance(v, str):
            return v * fac
        s = re.sub(r"\b([xyz])\b", "(\\1/%r)" % self.L, v)
        s = re.sub(r"\bt\b", "(t/%r)" % self.tau, s)
        return "(%s)*%r" % (s, fac)

    def many(self, v, fac):
        return [self.expr(q, fac) for q in v] if isinstance(v, list) else self.expr(v, fac)

    def dim(self, spec):
        return {"1d": 1, "rect": 2, "box": 3}[spec["mesh"]["kind"]]

    def lengths(self, d, *keys):
        for k in keys:
            if d.get(k) is not None:
                d[k] = d[k] * self.L

    def scale(self, spec):
        L, tau, N, H, Th = self.L, self.tau, self.N, self.H, self.Th
        s = copy.deepcopy(spec)
        m = s["mesh"]
        self.lengths(m, "x0", "x1", "y0", "lx", "ly", "lz")
        if "vertices" in m:
            m["vertices"] = [v * L for v in m["vertices"]]
        for mt in s["materials"]:
            mt["D_0"] *= L * L / tau
            if mt.get("S_0") is not None:
                mt["S_0"] *= N / self.P if mt.get("solubility_law", "sievert") == "henry" else N / self.P ** .5
            for k, f in (("thermal_cond", H), ("rho", H * tau / L / L), ("heat_capacity", 1.0), ("Q", Th), ("E_D", Th), ("E_S", Th)):
                if mt.get(k) is not None:
                    mt[k] = "(%s)*%r" % (self.of_T(mt[k]), f) if isinstance(mt[k], str) else mt[k] * f
            if mt.get("borders") is not None:
                b = mt["borders"]
                mt["borders"] = [[q * L for q in p] for p in b] if isinstance(b[0], list) else [q * L for q in b]
        d = self.dim(s)
        row = N * L ** d / tau
        T = s["T"]
        if T["kind"] == "expr":
            T["value"] = self.expr(T["value"], Th)
        elif T["kind"] == "xdmf":
            T["fields"] = [self.expr(v, Th) for v in T["fields"]]
        else:
            if "ic" in T and not isinstance(T["ic"], dict):
                T["ic"] = self.expr(T["ic"], Th)
            if "absolute_tolerance" in T:
                T["absolute_tolerance"] *= H * Th * L ** (d - 2)
        for t in s.get("traps", []):
            for k, f in (("k_0", 1 / N / tau), ("p_0", 1 / tau), ("E_k", Th), ("E_p", Th)):
                t[k] = self.many(t[k], f)
            if "absolute_tolerance" in t:
                t["absolute_tolerance"] *= row
            for k, f in (("density", N), ("phi_0", N * L / tau), ("n_amax", N), ("n_bmax", N), ("eta_a", 1.0), ("eta_b", 1.0),
                         ("f_a", 1 / L), ("f_b", 1 / L), ("phi", 1 / tau), ("K", N), ("n_max", N), ("A_0", 1 / tau), ("E_A", Th)):
                if k in t:
                    t[k] = self.many(t[k], f)
        for b in s.get("bcs", []):
            self.bc(b)
        for q in s.get("sources", []):
            k = q.get("kind", "source")
            if k == "source":
                q["value"] = self.expr(q["value"], H * Th / L / L if q["field"] == "T" else N / tau)
            elif k == "implantation":
                for n, f in (("flux", N * L / tau), ("depth", L), ("width", L)):
                    q[n] = self.expr(q[n], f)
            else:
                q["lambda"] /= tau
        for i in s.get("ics", []):
            if "value" in i:
                i["value"] = self.expr(i["value"], Th if i["field"] == "T" else N)
        st = s["settings"]
        st["atol"] = st.get("atol", 1e-10) * row
        if st.get("final_time") is not None:
            st["final_time"] *= tau
        dt = s.get("dt")
        if dt:
            for k in ("value", "dt_min", "t_stop", "stop_max"):
                if dt.get(k) is not None:
                    dt[k] *= tau
            if "milestones" in dt:
                dt["milestones"] = [v * tau for v in dt["milestones"]]
            if "max" in dt:
                mx = dt["max"]
                dt["max"] = [[a * tau, None if v is None else v * tau] for a, v in mx] if isinstance(mx, list) else mx * tau
        return s

    def bc(self, b):
        L, tau, N, H, P, Th = self.L, self.tau, self.N, self.H, self.P, self.Th
        k = b["kind"]
        J = N * L / tau
        if k == "dirichlet":
            f = {"value": Th if b.get("field", 0) == "T" else N}
        elif k == "sieverts":
            f = dict(S_0=N / P ** .5, E_S=Th, pressure=P)
        elif k == "henrys":
            f = dict(H_0=N / P, E_H=Th, pressure=P)
        elif k == "implantation":
            f = dict(phi=J, R_p=L, D_0=L * L / tau, Kr_0=L / N / tau, Kd_0=J / P, P=P, E_D=Th, E_Kr=Th, E_Kd=Th)
        elif k == "flux":
            f = {"value": H * Th / L if b.get("field", 0) == "T" else J}
        elif k == "recomb":
            f = dict(Kr_0=J / N ** b["order"], E_Kr=Th)
        elif k == "dissoc":
            f = dict(Kd_0=J / P, E_Kd=Th, P=P)
        elif k == "mass":
            f = dict(h=L / tau, c_ext=N)
        elif k == "convective":
            f = dict(h=H / L, T_ext=Th)
        elif k in ("custom_dirichlet", "custom_flux"):
            f = {}
            heat = b.get("field", 0) == "T"
            fac = (Th if heat else N) if k == "custom_dirichlet" else H * Th / L if heat else J
            b["function"] = "(%s)*%r" % (re.sub(r"\bsolute\b", "(solute/%r)" % N, self.of_T(b["function"])), fac)
            b["prms"] = {n: self.expr(v) for n, v in b.get("prms", {}).items()}
        elif k == "surfkin":
            f = dict(lambda_IS=L, n_surf=N * L, n_IS=N, ic=N * L)

            def rate(v, fac):
                if not isinstance(v, str):
                    return v * fac
                v = self.of_T(v)
                v = re.sub(r"\bcs\b", "(cs/%r)" % (N * L), v)
                return "(%s)*%r" % (re.sub(r"\bcm\b", "(cm/%r)" % N, v), fac)
            b["k_sb"], b["k_bs"], b["J_vs"] = rate(b["k_sb"], 1 / tau), rate(b["k_bs"], L / tau), rate(b["J_vs"], J)
            b["prms"] = {n: self.expr(v) for n, v in b.get("prms", {}).items()}
        else:
            raise ValueError(k)
        for n, v in f.items():
            if n in b:
                b[n] = self.expr(b[n], v)
