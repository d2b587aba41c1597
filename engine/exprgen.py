"""Random expressions: the same tree as program for the library and as
calculation of the reference model."""
import random


class Leaf:
    def __init__(self, kind, name):
        self.kind, self.name = kind, name


# kind: (definition, expression, model expression, type, can be a matrix, scalar)
KINDS = {
    "num":    ("MV %s_ = e.vec(Ty::D); auto %s = make<double>(%s_);", "%s", "%s_", "D", False, False),
    "mat":    ("MV %s_ = e.mat(Ty::D); auto %s = make<double>(%s_);", "%s", "%s_", "D", True, False),
    "int":    ("MV %s_ = e.vec(Ty::I); auto %s = make<int>(%s_);", "%s", "%s_", "I", False, False),
    "imat":   ("MV %s_ = e.mat(Ty::I); auto %s = make<int>(%s_);", "%s", "%s_", "I", True, False),
    "log":    ("MV %s_ = e.vec(Ty::B); auto %s = make<bool>(%s_);", "%s", "%s_", "B", False, False),
    "borrow": ("MV %s_ = e.vec(Ty::D); std::vector<double> mem_%s = %s_.v; BorrowPtr $(mem_$.data(), mem_$.size());", "%s", "%s_", "D", False, False),
    "dbl":    ("double %s = e.dbl(); MV %s_ = scal(%s);", "%s", "%s_", "D", False, True),
    "scint":  ("int %s = e.num(); MV %s_ = scal(%s, Ty::I);", "%s", "%s_", "I", False, True),
    "sclog":  ("bool %s = e.log(); MV %s_ = scal(%s, Ty::B);", "%s", "%s_", "B", False, True),
    "subset": ("MV b%s_ = e.vec(Ty::D); auto b%s = make<double>(b%s_); MV i$_ = e.index(b$_); auto i$ = make<double>(i$_); MV $_ = at1(b$_, i$_);",
               "etr::subset(b$, i$)", "%s_", "D", False, False),
    "opsub":  ("MV b%s_ = e.vec(Ty::D); auto b%s = make<double>(b%s_); MV i$_ = e.index(b$_, Ty::I); auto i$ = make<int>(i$_); MV $_ = at1(apply2(MUL, b$_, scal(2.0)), i$_);",
               "etr::subset(b$ * 2.0, i$)", "%s_", "D", False, False),
    "coca":   ("double p%s = e.dbl(), q%s = e.dbl(); MV %s_ = ref::vec({p$, q$, 3.0});", "etr::coca(p$, q$, 3)", "%s_", "D", False, False),
    "colon":  ("int p%s = 1 + e.s.below(3); MV %s_ = ref::vec({}, Ty::I); for (int q = p$; q >= -1; q--) %s_.v.push_back(q);", "etr::colon(p$, -1)", "%s_", "I", False, False),
}
TY = {"B": 0, "I": 1, "D": 2}
ARITH = ["ADD", "SUB", "MUL", "DIV", "POW"]
COMP = ["EQ", "NE", "LT", "LE", "GT", "GE"]
SYM = dict(ADD="+", SUB="-", MUL="*", DIV="/", POW="^", EQ="==", NE="!=", LT="<", LE="<=", GT=">", GE=">=")
FNS = dict(NEG="-", SIN="etr::sinus", ASIN="etr::asinus", SINH="etr::sinush", COS="etr::cosinus",
           ACOS="etr::acosinus", COSH="etr::cosinush", TAN="etr::tangens", ATAN="etr::atangens",
           TANH="etr::tangensh", LN="etr::ln", SQRT="etr::sqroot", EXP="etr::exp")


class Gen:
    def __init__(self, rnd, kinds, ops, fns, mat, maxops=5):
        self.r, self.kinds, self.ops, self.fns, self.mat = rnd, kinds, ops, fns, mat
        self.vars = []
        self.maxops = maxops

    def leaf(self):
        if self.vars and self.r.random() < 0.3:
            k, n = self.r.choice(self.vars)
        else:
            k = self.r.choice([k for k in self.kinds if self.mat or not KINDS[k][4]])
            n = "v%d" % len(self.vars)
            self.vars.append((k, n))
        d = KINDS[k]
        f = lambda t: t.replace("%s", n).replace("$", n)
        return (f(d[1]), f(d[2]), d[3], d[5], d[4])

    def expr(self, ops):
        """returns (code, model code, type, scalar, matrix)"""
        if ops <= 0:
            return self.leaf()
        if self.fns and self.r.random() < 0.35:
            f = self.r.choice(self.fns)
            x = self.expr(ops - 1)
            if x[3] and x[2] != "D":
                return x
            if f == "NEG":
                if x[3]:
                    return x
                t = "D" if x[2] == "D" else "I"
            else:
                t = "D"
            return ("%s(%s)" % (FNS[f], x[0]), "apply1(%s, %s)" % (f, x[1]), t, x[3], x[4])
        left = self.r.randint(0, ops - 1)
        for _ in range(50):
            a, b = self.expr(left), self.expr(ops - 1 - left)
            if not (a[3] and b[3]):
                break
        else:
            return a
        o = self.r.choice(self.ops)
        if o in COMP:
            t = "B"
        elif o in ("DIV", "POW"):
            t = "D"
        else:
            t = "D" if "D" in (a[2], b[2]) else "I"
        return ("(%s %s %s)" % (a[0], SYM[o], b[0]), "apply2(%s, %s, %s)" % (o, a[1], b[1]), t, False, a[4] or b[4])

    def program(self):
        while True:
            self.vars = []
            x = self.expr(self.r.randint(1, self.maxops))
            if not x[3] and ("apply" in x[1]):
                break
        defs = []
        for k, n in self.vars:
            if n in x[0] or True:
                defs.append("  " + KINDS[k][0].replace("%s", n).replace("$", n))
        return "\n".join(defs), x


HEAD = '#include "etr_pch.hpp"\n#include "etrgen.hpp"\nusing namespace gen;\n'


def esc(s):
    return s.replace("\\", "\\\\").replace('"', '\\"')


def expression_program(i, g, mat, cls="-1"):
    defs, x = g.program()
    code = "static void prog_%d(Ctx &c) {\n  Env e(c, %s, %s);\n%s\n" % (i, "true" if mat else "false", cls, defs)
    code += "  MV want = %s;\n  if (overflow()) return;\n" % x[1]
    code += '  const char *text = "%s";\n' % esc(x[0].replace("etr::", ""))
    code += "  c.log([&](auto &o) { o << text << \" with\";"
    for k, n in g.vars:
        code += ' o << " %s=" << str(%s_);' % (n, n)
    code += ' o << " -> " << str(want); });\n'
    code += "  c.nontrivial(want.size() > 1);\n  if (want.im) c.label(\"matrix\");\n"
    code += "  expectVec(c, %s, want, text);\n" % x[0]
    kind = g.r.randint(0, 5)
    alias = [n for k, n in g.vars if k in ("num", "mat") and not KINDS[k][5]]
    if kind <= 1 and alias:
        n = g.r.choice(alias)
        code += "  %s = %s;\n  expectVec(c, %s, want, std::string(\"%s = \") + text);\n" % (n, x[0], n, n)
    elif kind == 2 and x[2] != "D":
        T, t = ("int", "I")
        code += "  etr::Vec<%s> res;\n  res = %s;\n  expectVec(c, res, want, text);\n" % (T, x[0])
    else:
        code += "  sexp res;\n  if (c.s.below(2)) res = etr::coca(1.0, 2.0, 3.0);\n  res = %s;\n  expectVec(c, res, want, text);\n" % x[0]
    code += "}\n"
    return code
