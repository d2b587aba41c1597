"""Random programs which are run with derivatives, without and in the model."""
import re
SYM = dict(ADD="+", SUB="-", MUL="*", DIV="/", EQ="==", NE="!=", LT="<", LE="<=", GT=">", GE=">=")
ARITH = ["ADD", "SUB", "MUL", "DIV", "ADD", "MUL"]
COMP = ["EQ", "NE", "LT", "LE", "GT", "GE"]
VARS = ["a0", "a1", "a2", "b0", "b1"]
MAXC = 24


class Gen:
    def __init__(self, r, same, bad=False):
        self.bad = bad    # sizes below one
        self.r = r
        self.nc = 0     # constants
        self.pars = []  # parameters: (name, definition)
        self.ints = set()  # expressions which are integers without derivatives
        self.same = same  # only constants which fit to each length

    def par(self, what):
        n = "k%d" % len(self.pars)
        if what == "dbl":
            self.pars.append((n, "double %s = genSmall(s);" % n))
        elif what == "int":
            self.pars.append((n, "int %s = (int)s.below(9) - 4;" % n))
        elif self.bad:
            self.pars.append((n, "int %s = s.below(8) ? 1 + (int)s.below(4) : -(int)s.below(2);" % n))
        else:
            self.pars.append((n, "int %s = 1 + (int)s.below(4);" % n))
        return n

    def const(self):
        x = self.const_()
        names = re.findall(r"k\d+", x[1])
        defs = dict(self.pars)
        if "colon" in x[1] or "vector_integer" in x[1] or "vector_logical" in x[1] or \
                "coca" in x[1] and all(defs[n].startswith("int") for n in names):
            self.ints.add(x[1])
        return x

    def const_(self):
        """(with derivatives, without, model)"""
        r, i = self.r, self.nc
        self.nc += 1
        k = r.randint(0, 9)
        if k <= 4 or self.same and k != 9:
            if r.random() < 0.25:
                p = self.par("int")
            else:
                p = self.par("dbl")
            return ("etr::scalarDeriv<%d>(av, %s)" % (i, p), "etr::coca(%s)" % p, "dconst({(double)%s})" % p)
        if k <= 7:
            n = r.randint(1, 4)
            p = [self.par(r.choice(["dbl", "dbl", "int"])) for _ in range(n)]
            a = ", ".join(p)
            return ("etr::coca<%d>(av, %s)" % (i, a), "etr::coca(%s)" % a, "dconst({%s})" % ", ".join("(double)" + x for x in p))
        if k == 8:
            p, q = self.par("int"), self.par("int")
            return ("etr::colon<%d>(av, %s, %s)" % (i, p, q), "etr::colon(%s, %s)" % (p, q), "dcolon(%s, %s)" % (p, q))
        p = self.par("len")
        if self.same:
            return ("etr::scalarDeriv<%d>(av, %s)" % (i, p), "etr::coca(%s)" % p, "dconst({(double)%s})" % p)
        f = r.choice(["numeric", "integer", "logical"])
        return ("etr::vector_%s<%d>(av, %s)" % (f, i, p), "etr::vector_%s(%s)" % (f, p), "dconst(std::vector<double>(%s, 0.0))" % p)

    def expr(self, ops, avoid=None):
        r = self.r
        if ops <= 0:
            if r.random() < 0.25 and self.nc < MAXC - 1:
                return self.const()
            v = r.choice(VARS)
            return (v, v, "m_" + v)
        q = r.random()
        if q < 0.15:
            x = self.expr(ops - 1)
            return tuple(f % y for f, y in zip(("etr::sinus(%s)", "etr::sinus(%s)", "dsin(%s)"), x))
        if q > 0.93 and ops >= 3:  # conditions as numbers in a product or quotient
            x, y = self.cond(), self.cond()
            k = r.random()
            if k < 0.4:
                y = tuple(f % z for f, z in zip(("etr::sinus(%s)", "etr::sinus(%s)", "dsin(%s)"), x))
            else:
                o = "ADD" if k < 0.7 else "SUB"
                y = tuple(f % z for f, z in zip(("(%%s %s %%s)" % SYM[o], "(%%s %s %%s)" % SYM[o], "dbin(" + o + ", %s, %s)"), zip(x, y)))
            v = self.expr(0)
            o = "MUL" if r.random() < 0.7 or v[1] in self.ints else "DIV"
            if v[1] in self.ints:
                o = "ADD"
            if r.random() < 0.5 and o == "MUL":
                v, y = y, v
            return ("(%s %s %s)" % (v[0], SYM[o], y[0]), "(%s %s %s)" % (v[1], SYM[o], y[1]), "dbin(%s, %s, %s)" % (o, v[2], y[2]))
        left = r.randint(0, ops - 1)
        a, b = self.expr(left), self.expr(ops - 1 - left)
        o = r.choice(COMP) if r.random() < 0.12 else r.choice(ARITH)
        both = a[1] in self.ints and b[1] in self.ints
        if o == "MUL" and both:
            o = "ADD"  # 0 * -1 is only -0 with derivatives
        if o in COMP or both and o != "DIV":
            self.ints.add("(%s %s %s)" % (a[1], SYM[o], b[1]))
        return ("(%s %s %s)" % (a[0], SYM[o], b[0]), "(%s %s %s)" % (a[1], SYM[o], b[1]), "dbin(%s, %s, %s)" % (o, a[2], b[2]))

    def cond(self):
        r = self.r
        o = r.choice(COMP)
        a, b = self.expr(0), self.expr(0)
        return ("(%s %s %s)" % (a[0], SYM[o], b[0]), "(%s %s %s)" % (a[1], SYM[o], b[1]), "dbin(%s, %s, %s)" % (o, a[2], b[2]))

    def statement(self):
        r = self.r
        t = r.choice(VARS)
        k = r.random()
        if k < 0.12:
            while True:
                v = r.choice(VARS)
                if v != t:
                    x = (v, v, "m_" + v)
                    break
        elif k < 0.24 and self.nc < MAXC - 1:
            x = self.const()
        else:
            while True:
                keep = self.nc, len(self.pars)
                x = self.expr(r.randint(1, 4))
                if any(v in x[0] for v in VARS):
                    break
                self.nc = keep[0]
                del self.pars[keep[1]:]
        return t, x


def program(i, r, mat, bad=False):
    g = Gen(r, mat, bad)
    st = []
    for _ in range(r.randint(1, 6)):
        st.append(g.statement())
        if g.nc >= MAXC - 4:
            break
    loop = r.random() < 0.25
    name = "prog_%d" % i
    text = "; ".join("%s = %s" % (t, x[1].replace("etr::", "")) for t, x in st)
    if loop:
        text = "repeat 2 { " + text + " }"
    pars = "".join("  %s\n" % d for n, d in g.pars)
    isconst = lambda x: x[0] not in VARS and not any(v in x[0] for v in VARS)
    code = "namespace { namespace P%d {\n" % i
    code += "struct Par {\n%s};\n" % "".join("  %s;\n" % d.split(" =")[0] for n, d in g.pars)
    P = "".join("  auto %s = p.%s;\n" % (n, n) for n, d in g.pars)
    for which in ("deriv", "plain", "model")[:2 if bad else 3]:
        if which == "deriv":
            code += ("template <class AV, class CB> void deriv(const Par &p, AV &av, CB &&cb) {\n%s  DERIV_VARS;\n" % P)
        elif which == "plain":
            code += "template <class V, class CB> void plain(const Par &p, V &vars, CB &&cb) {\n%s  PLAIN_VARS;\n" % P
        else:
            code += "template <class V, class CB> void model(const Par &p, V &vars, int indep, CB &&cb) {\n%s  MODEL_VARS;\n" % P
        if loop:
            code += "  for (int round = 0; round < 2; round++) {\n"
        for q, (t, x) in enumerate(st):
            if which == "deriv":
                code += "  if (!cb(%d, [&]() { %s = %s; }, a0, a1, a2, b0, b1)) return;\n" % (q, t, x[0])
            elif which == "plain":
                code += "  if (!cb(%d, [&]() { %s = %s; }, a0, a1, a2, b0, b1)) return;\n" % (q, t, x[1])
            else:
                code += "  { DM r = %s;\n" % x[2]
                if isconst(x):
                    code += "    if (indep == %d) for (auto &e : r.e) e.d = e.md = 1.0;\n" % VARS.index(t)
                code += "    if (!cb(%d, %d, r)) return; m_%s = r; }\n" % (q, VARS.index(t), t)
        if loop:
            code += "  }\n"
        code += "}\n"
    code += "Par gen(Src &s) {\n%s  Par p;\n%s  return p;\n}\n" % (pars, "".join("  p.%s = %s;\n" % (n, n) for n, d in g.pars))
    code += '} }\nDERIV_PROGRAM(%d, %s, "%s")\n' % (i, "true" if mat else "false", text)
    return code
