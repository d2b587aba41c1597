import random

OPS = ["+", "-", "*"]
COMP = ["<", ">=", "=="]
UN = [("-(%s)", "-(%s)"), ("etr::sinus(%s)", "std::sin(%s)"), ("etr::tangensh(%s)", "std::tanh(%s)"), ("etr::atangens(%s)", "std::atan(%s)")]
SHAPES = ["left", "right", "alternate", "unary", "mixed", "balanced", "random", "compare", "subset", "mask"]
REV = "[lv.L - 1 - (%s)]"


class Shape:
    """a calculation as (code, element as function of the index)"""

    def __init__(self, kind, r):
        self.kind, self.r = kind, r
        self.first = True

    def leaf(self):
        k = 0 if self.first else self.r.randint(0, 3)
        self.first = False
        return ("x%d" % k, lambda i: "lv.at(%d, %s)" % (k, i))

    def binary(self, x, y, o):
        if o in COMP:
            return ("(%s %s %s)" % (x[0], o, y[0]), lambda i: "(double)(%s %s %s)" % (x[1](i), o, y[1](i)))
        return ("(%s %s %s)" % (x[0], o, y[0]), lambda i: "(%s %s %s)" % (x[1](i), o, y[1](i)))

    def unary(self, x):
        f = self.r.choice(UN)
        return (f[0] % x[0], lambda i: f[1] % x[1](i))

    def op(self):
        return self.r.choice(OPS)

    def tree(self, n):
        if n == 0:
            return self.leaf()
        if self.r.random() < 0.25:
            return self.unary(self.tree(n - 1))
        k = self.r.randint(0, n - 1)
        return self.binary(self.tree(k), self.tree(n - 1 - k), self.op())

    def make(self, n):
        r = self.r
        k = self.kind
        if k == "random":
            return self.tree(n)
        if k == "balanced":
            def b(m):
                if m == 0:
                    return self.leaf()
                return self.binary(b((m - 1) // 2), b(m - 1 - (m - 1) // 2), self.op())
            return b(n)
        e = self.leaf()
        for i in range(n):
            if k == "left":
                e = self.binary(e, self.leaf(), self.op())
            elif k == "right":
                e = self.binary(self.leaf(), e, self.op())
            elif k == "alternate":
                e = self.binary(e, self.leaf(), self.op()) if i % 2 else self.binary(self.leaf(), e, self.op())
            elif k == "unary":
                e = self.unary(e)
            elif k == "mixed":
                e = self.unary(e) if i % 2 else self.binary(e, self.leaf(), self.op()) if r.random() < 0.5 else self.binary(self.leaf(), e, self.op())
            elif k == "compare":
                e = self.binary(e, self.leaf(), r.choice(COMP + OPS)) if r.random() < 0.5 else self.binary(self.leaf(), e, r.choice(COMP + OPS))
            elif k == "subset":
                if i % 3 == 2:
                    f = e[1]
                    e = ("etr::subset(%s, rev)" % e[0], lambda i, f=f: f("(lv.L - 1 - %s)" % i))
                else:
                    e = self.binary(e, self.leaf(), self.op()) if r.random() < 0.5 else self.binary(self.leaf(), e, self.op())
            elif k == "mask":
                if i % 3 == 2:
                    e = ("etr::subset(%s, all)" % e[0], e[1])
                else:
                    e = self.binary(e, self.leaf(), self.op()) if r.random() < 0.5 else self.binary(self.leaf(), e, self.op())
        return e


def program(no, kind, mat, seed):
    sizes = [10, 14, 16, 18, 20, 22, 24, 26, 28, 30]
    text = "%s of %s" % (kind, "matrices" if mat else "vectors")
    code = "static void prog%d(Ctx &c) {\n  Leaves lv = genLeaves(c.s, %s);\n" % (no, "true" if mat else "false")
    for k in range(4):
        if mat:
            code += "  MV m%d; m%d.im = true; m%d.nr = lv.nr; m%d.nc = lv.nc; m%d.v = lv.v[%d]; auto x%d = make<double>(m%d);\n" % (k, k, k, k, k, k, k, k)
        else:
            code += "  auto x%d = make<double>(ref::vec(lv.v[%d]));\n" % (k, k)
    if kind == "subset":
        code += "  std::vector<double> rv; for (size_t i = 0; i < lv.L; i++) rv.push_back((double)(lv.L - i)); auto rev = make<double>(ref::vec(rv));\n"
    if kind == "mask":
        code += "  auto all = make<bool>(ref::vec(std::vector<double>(lv.L, 1.0), Ty::B));\n"
    code += '  c.log([&](auto &o) { o << "%s, " << lv.L << " elements, operations:"; });\n' % text
    for n in sizes:
        r = random.Random("%s-%d" % (seed, n))
        e = Shape(kind, r).make(n)
        code += '  STAGE(%d, "%s", %s, %s)\n' % (n, text, e[0], e[1]("i"))
        if n in (18, 22, 26, 30) and not mat and kind not in ("subset", "mask"):
            code += '  USES(%d, "%s", %s)\n' % (n, text, e[0])
    code += "}\nPBT_SUB(\"%s\", 1.0, prog%d);\n" % (text.replace(" ", "-"), no)
    return code


def deriv(no, kind, seed):
    """the same shapes with derivatives"""
    code = "static void deriv%d(Ctx &c) {\n  Leaves lv = genLeaves(c.s, false);\n  int indep = (int)c.s.below(3);\n" % no
    code += '  c.log([&](auto &o) { o << "%s with derivatives, " << lv.L << " elements, operations:"; });\n' % kind
    r = random.Random(seed)
    for n in [6, 10, 14, 18, 22]:
        nc = [0]

        def leaf():
            k = r.randint(0, 2)
            return ("a%d" % k, "m[%d]" % k)

        def binary(x, y):
            o = r.choice(["ADD", "SUB", "MUL", "DIV"])
            return ("(%s %s %s)" % (x[0], dict(ADD="+", SUB="-", MUL="*", DIV="/")[o], y[0]), "dbin(%s, %s, %s)" % (o, x[1], y[1]))

        def sin(x):
            return ("etr::sinus(%s)" % x[0], "dsin(%s)" % x[1])
        def tree(m):
            if m == 0:
                return leaf()
            if r.random() < 0.2:
                return sin(tree(m - 1))
            k = r.randint(0, m - 1)
            return binary(tree(k), tree(m - 1 - k))
        if kind == "random":
            e = tree(n)
        else:
            e = leaf()
            for i in range(n):
                if kind == "left":
                    e = binary(e, leaf())
                elif kind == "right":
                    e = binary(leaf(), e)
                elif kind == "sinus":
                    e = sin(e)
                else:
                    e = sin(e) if i % 2 else binary(e, leaf()) if i % 4 else binary(leaf(), e)
        code += '  DSTAGE(%d, "%s", %s, %s)\n' % (n, kind, e[0], e[1])
    code += "}\nPBT_SUB(\"derivatives-%s\", 1.0, deriv%d);\n" % (kind, no)
    return code


def generate(seed, tier, out):
    files = []
    for rep in range(1 if tier == "quick" else 4):
        jobs = [(k, m) for k in SHAPES for m in (False, True) if not (m and k in ("subset", "mask"))]
        for f in range(9):
            code = '#include "effort.inc"\n'
            for no, (k, m) in enumerate(jobs[2 * f:2 * f + 2]):
                code += program(no, k, m, "C33-%d-%d-%s-%d" % (seed, rep, k, m))
            name = "shape%d_%d.cpp" % (rep, f)
            open("%s/%s" % (out, name), "w").write(code)
            files.append(name)
        for f, k in enumerate(["left", "right", "sinus", "mixed", "random"]):
            name = "deriv%d_%d.cpp" % (rep, f)
            open("%s/%s" % (out, name), "w").write('#include "effortderiv.inc"\n' + deriv(f, k, "C33d-%d-%d-%s" % (seed, rep, k)))
            files.append(name)
    return files
