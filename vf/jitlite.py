"""Compilation economy for the harness (dolfin level only, FESTIM untouched).

Legacy dolfin compiles one C++ module per Expression string and one per form;
float literals are part of the signature, so every random parameter draw would
cost seconds.  Two substitutions below dolfin's Python layer remove that cost:

* Expression strings are parsed and evaluated by ONE compiled dolfin::Expression
  subclass (a stack machine).  Anything the parser does not know falls back to
  dolfin's own compiler.
* FloatValue literals of a UFL form are lifted to Constants before the form
  compiler sees them, so the signature depends on the structure only.

VF_JITLITE=0 switches both off (used by selftest to cross-validate).
"""
import os
import re
import math
import hashlib

STATS = {"expr_interp": 0, "expr_fallback": 0, "forms": 0, "form_literals": 0}

OPS = ["CONST", "X", "PROP", "ADD", "SUB", "MUL", "DIV", "NEG", "POW", "LT", "LE",
       "GT", "GE", "EQ", "NE", "AND", "OR", "NOT", "SEL", "exp", "log", "log10",
       "sqrt", "sin", "cos", "tan", "tanh", "sinh", "cosh", "fabs", "floor",
       "ceil", "fmin", "fmax", "erf", "atan", "asin", "acos"]
OPI = {o: i for i, o in enumerate(OPS)}

_TEMPLATE = r"""
#define DLL_EXPORT __attribute__ ((visibility ("default")))
#include <dolfin/function/Expression.h>
#include <Eigen/Dense>
#include <vector>
#include <map>
#include <string>
#include <cmath>
namespace dolfin {
class %(cls)s : public Expression {
 public:
  std::vector<double> prog;
  std::vector<double> props;
  std::map<std::string,int> idx;
  %(cls)s() {}
  void eval(Eigen::Ref<Eigen::VectorXd> values, Eigen::Ref<const Eigen::VectorXd> x) const override {
    double st[64]; int n = 0; size_t i = 0;
    while (i < prog.size()) {
      int op = (int)prog[i++];
      switch (op) {
        case 0: st[n++] = prog[i++]; break;
        case 1: st[n++] = x[(int)prog[i++]]; break;
        case 2: st[n++] = props[(int)prog[i++]]; break;
        case 3: n--; st[n-1] = st[n-1] + st[n]; break;
        case 4: n--; st[n-1] = st[n-1] - st[n]; break;
        case 5: n--; st[n-1] = st[n-1] * st[n]; break;
        case 6: n--; st[n-1] = st[n-1] / st[n]; break;
        case 7: st[n-1] = -st[n-1]; break;
        case 8: n--; st[n-1] = std::pow(st[n-1], st[n]); break;
        case 9: n--; st[n-1] = st[n-1] < st[n]; break;
        case 10: n--; st[n-1] = st[n-1] <= st[n]; break;
        case 11: n--; st[n-1] = st[n-1] > st[n]; break;
        case 12: n--; st[n-1] = st[n-1] >= st[n]; break;
        case 13: n--; st[n-1] = st[n-1] == st[n]; break;
        case 14: n--; st[n-1] = st[n-1] != st[n]; break;
        case 15: n--; st[n-1] = (st[n-1] != 0) && (st[n] != 0); break;
        case 16: n--; st[n-1] = (st[n-1] != 0) || (st[n] != 0); break;
        case 17: st[n-1] = (st[n-1] == 0); break;
        case 18: n -= 2; st[n-1] = st[n-1] != 0 ? st[n] : st[n+1]; break;
        case 19: st[n-1] = std::exp(st[n-1]); break;
        case 20: st[n-1] = std::log(st[n-1]); break;
        case 21: st[n-1] = std::log10(st[n-1]); break;
        case 22: st[n-1] = std::sqrt(st[n-1]); break;
        case 23: st[n-1] = std::sin(st[n-1]); break;
        case 24: st[n-1] = std::cos(st[n-1]); break;
        case 25: st[n-1] = std::tan(st[n-1]); break;
        case 26: st[n-1] = std::tanh(st[n-1]); break;
        case 27: st[n-1] = std::sinh(st[n-1]); break;
        case 28: st[n-1] = std::cosh(st[n-1]); break;
        case 29: st[n-1] = std::fabs(st[n-1]); break;
        case 30: st[n-1] = std::floor(st[n-1]); break;
        case 31: st[n-1] = std::ceil(st[n-1]); break;
        case 32: n--; st[n-1] = std::fmin(st[n-1], st[n]); break;
        case 33: n--; st[n-1] = std::fmax(st[n-1], st[n]); break;
        case 34: st[n-1] = std::erf(st[n-1]); break;
        case 35: st[n-1] = std::atan(st[n-1]); break;
        case 36: st[n-1] = std::asin(st[n-1]); break;
        case 37: st[n-1] = std::acos(st[n-1]); break;
        default: throw std::runtime_error("bad opcode");
      }
    }
    values[0] = st[0];
  }
  void set_property(std::string name, double v) override {
    if (name == "@prog") { prog.push_back(v); return; }
    if (name[0] == '@') { idx[name.substr(1)] = props.size(); props.push_back(v); return; }
    auto it = idx.find(name);
    if (it == idx.end()) throw std::runtime_error("No such property");
    props[it->second] = v;
  }
  double get_property(std::string name) const override {
    auto it = idx.find(name);
    if (it == idx.end()) throw std::runtime_error("No such property");
    return props[it->second];
  }
};
}
extern "C" DLL_EXPORT dolfin::Expression * create_%(cls)s() { return new dolfin::%(cls)s; }
"""


class _Unsupported(Exception):
    pass


_TOK = re.compile(r"\s*(?:(\d+\.\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?|\d+[eE][+-]?\d+|\d+)"
                  r"|([A-Za-z_]\w*)|(<=|>=|==|!=|&&|\|\||[-+*/()<>?:,!\[\]]))")


class _Parser:
    """C expression grammar -> stack program (ints that could trigger C integer
    division are refused)."""

    def __init__(self, s, props):
        self.toks = []
        pos = 0
        s = s.strip()
        while pos < len(s):
            m = _TOK.match(s, pos)
            if not m:
                raise _Unsupported(s[pos:pos + 10])
            self.toks.append(m.groups())
            pos = m.end()
        self.i = 0
        self.props = list(props)

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else (None, None, None)

    def isop(self, *ops):
        return self.peek()[2] in ops

    def take(self, op):
        if not self.isop(op):
            raise _Unsupported("expected " + op)
        self.i += 1

    def parse(self):
        p, _ = self.ternary()
        if self.i != len(self.toks):
            raise _Unsupported("trailing")
        return p

    def ternary(self):
        c, ci = self.lor()
        if self.isop("?"):
            self.i += 1
            a, ai = self.ternary()
            self.take(":")
            b, bi = self.ternary()
            return c + a + b + [OPI["SEL"]], (ai and bi)
        return c, ci

    def _bin(self, sub, table, is_int=False):
        a, ai = sub()
        while self.peek()[2] in table:
            op = self.peek()[2]
            self.i += 1
            b, bi = sub()
            if op == "/" and ai and bi:
                raise _Unsupported("integer division")
            a = a + b + [OPI[table[op]]]
            ai = ai and bi
        return a, ai

    def lor(self):
        return self._bin(self.land, {"||": "OR"})

    def land(self):
        return self._bin(self.eq, {"&&": "AND"})

    def eq(self):
        return self._bin(self.rel, {"==": "EQ", "!=": "NE"})

    def rel(self):
        return self._bin(self.add, {"<": "LT", "<=": "LE", ">": "GT", ">=": "GE"})

    def add(self):
        return self._bin(self.mul, {"+": "ADD", "-": "SUB"})

    def mul(self):
        return self._bin(self.unary, {"*": "MUL", "/": "DIV"})

    def unary(self):
        if self.isop("-"):
            self.i += 1
            p, pi = self.unary()
            return p + [OPI["NEG"]], pi
        if self.isop("+"):
            self.i += 1
            return self.unary()
        if self.isop("!"):
            self.i += 1
            p, pi = self.unary()
            return p + [OPI["NOT"]], True
        return self.primary()

    def primary(self):
        num, name, op = self.peek()
        if num is not None:
            self.i += 1
            return [OPI["CONST"], float(num)], num.isdigit()
        if op == "(":
            self.i += 1
            p, pi = self.ternary()
            self.take(")")
            return p, pi
        if name is None:
            raise _Unsupported("token")
        self.i += 1
        if name == "x":
            self.take("[")
            d = self.peek()[0]
            if d is None or not d.isdigit():
                raise _Unsupported("index")
            self.i += 1
            self.take("]")
            return [OPI["X"], int(d)], False
        if self.isop("("):
            self.i += 1
            args = [self.ternary()]
            while self.isop(","):
                self.i += 1
                args.append(self.ternary())
            self.take(")")
            if name == "pow" and len(args) == 2:
                return args[0][0] + args[1][0] + [OPI["POW"]], False
            if name in ("fmin", "fmax") and len(args) == 2:
                return args[0][0] + args[1][0] + [OPI[name]], False
            if name in OPI and OPI[name] >= OPI["exp"] and len(args) == 1 and name not in ("fmin", "fmax"):
                return args[0][0] + [OPI[name]], False
            raise _Unsupported(name)
        if name in self.props:
            return [OPI["PROP"], self.props.index(name)], False
        consts = {"M_PI": math.pi, "pi": math.pi, "M_E": math.e, "DOLFIN_PI": math.pi,
                  "true": 1.0, "false": 0.0}
        if name in consts:
            return [OPI["CONST"], consts[name]], False
        raise _Unsupported(name)


_factory = None


def _get_factory():
    global _factory
    if _factory is None:
        import dijitso
        from dolfin.jit.jit import dijitso_jit, dolfin_pc
        from dolfin.cpp import MPI
        params = dijitso.params.default_params()
        params["build"]["include_dirs"] = dolfin_pc["include_dirs"]
        params["build"]["libs"] = dolfin_pc["libraries"]
        params["build"]["lib_dirs"] = dolfin_pc["library_dirs"]
        name = "vf_stack_" + hashlib.md5(_TEMPLATE.encode()).hexdigest()
        code = _TEMPLATE % {"cls": name}

        def gen(data, module_name, signature, parameters):
            return "", code, []

        module, sig = dijitso_jit({}, name, params, generate=gen, mpi_comm=MPI.comm_world)
        _factory = dijitso.extract_factory_function(module, "create_" + name)
    return _factory


def _install_expressions():
    import dolfin.cpp as cpp
    import dolfin.function.jit as djit
    import dolfin.function.expression as dexpr
    orig = djit.compile_expression

    def compile_expression(statements, properties):
        ok = isinstance(statements, str) and all(
            isinstance(v, (int, float)) and not isinstance(v, bool) for k, v in properties.items() if k != "mpi_comm")
        if ok:
            props = {k: v for k, v in properties.items() if k != "mpi_comm"}
            try:
                prog = _Parser(statements, props).parse()
            except _Unsupported:
                ok = False
        if not ok:
            STATS["expr_fallback"] += 1
            return orig(statements, properties)
        properties.pop("mpi_comm", None)
        STATS["expr_interp"] += 1
        ex = cpp.function.make_dolfin_expression(_get_factory()())
        for k, v in props.items():
            ex.set_property("@" + k, float(v))
        for v in prog:
            ex.set_property("@prog", float(v))
        return ex

    djit.compile_expression = compile_expression
    if hasattr(dexpr.jit, "compile_expression"):
        dexpr.jit.compile_expression = compile_expression


def _install_forms():
    import ufl_legacy as ufl
    import dolfin.fem.form as dform
    from dolfin.function.constant import Constant
    from ufl_legacy.corealg.multifunction import MultiFunction
    from ufl_legacy.algorithms.map_integrands import map_integrand_dags
    import ufl_legacy.constantvalue as cv

    class Lift(MultiFunction):
        def __init__(self):
            MultiFunction.__init__(self)
            self.keep = set()
            self.n = 0

        expr = MultiFunction.reuse_if_untouched

        def terminal(self, o):
            return o

        def float_value(self, o):
            self.n += 1
            return Constant(float(o))

        def power(self, o):
            # exponents stay literal: UFL/FFC specialise and estimate degrees on them
            base, e = o.ufl_operands
            nb = self._walk(base)
            if nb is base:
                return o
            return nb ** e

        def _walk(self, e):
            from ufl_legacy.corealg.map_dag import map_expr_dag
            return map_expr_dag(self, e)

    # 'power' must see the untouched operands, so it takes only `o`.
    base_init = dform.Form.__init__
    cache = {}

    def init(self, form, **kwargs):
        if isinstance(form, ufl.Form):
            key = id(form)
            hit = cache.get(key)
            if hit is not None and hit[0] is form:
                form = hit[1]
            else:
                lift = Lift()
                new = map_integrand_dags(lift, form)
                STATS["forms"] += 1
                STATS["form_literals"] += lift.n
                if len(cache) > 64:
                    cache.clear()
                cache[key] = (form, new)
                form = new
        base_init(self, form, **kwargs)

    dform.Form.__init__ = init


def install():
    if os.environ.get("VF_JITLITE", "1") == "0":
        return False
    _install_expressions()
    _install_forms()
    return True
