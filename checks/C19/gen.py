import random

ARITH = ["+", "-", "*", "/", "^"]
COMP = ["==", "!=", "<", "<=", ">", ">="]
FN = ["etr::sinus", "etr::cosinus", "etr::tangensh", "etr::ln", "etr::sqroot", "etr::exp", "-", "etr::asinus"]
DV = ["d0", "d1", "d2"]
OWN = DV + ["i0", "i1", "b0"]
ALL = OWN + ["w0", "w1"]


class G:
    def __init__(self, r):
        self.r = r

    def pos(self):  # one position
        return self.r.choice(["p.p0", "p.p1", "p.q0"])

    def idx(self, depth=1):
        r = self.r
        k = r.randint(0, 13)
        if k <= 3:
            return self.pos()
        if k == 4:
            return "etr::colon(p.c0, p.c1)" if r.random() < 0.3 else "etr::colon(1, p.n0)"
        if k == 5:
            return "true"
        if k == 6:
            return "etr::coca(p.p0, p.p1, 1)"
        if k == 7:
            return "etr::coca(p.t0, true, false)"
        if k == 8:
            return "(%s %s p.k0)" % (r.choice(DV + ["w0"]), r.choice(COMP))
        if k == 9:
            return r.choice(["i0", "i1"])
        if k == 10:
            return "b0"
        if k == 11:
            return "(etr::coca(p.p0, 2) + 0.0)" if r.random() < 0.3 else "etr::rep(p.p0, p.n0)"
        if k == 12:
            return "etr::coca(1, p.q0)"
        return r.choice(DV + ["w0"])

    def vecr(self, depth):  # arguments of coca: variables, numbers and results
        r = self.r
        k = r.randint(0, 9)
        if k <= 4 or depth <= 0:
            return r.choice(ALL)
        if k == 5:
            return r.choice(["p.k0", "p.n0", "p.t0", "2.5"])
        if k == 6:
            return "etr::colon(p.n0, p.n1)"
        if k == 7:
            return "etr::rep(%s, p.n0)" % r.choice(OWN + ["p.k0"])
        if k == 8:
            return "etr::%s(p.n0)" % r.choice(["vector_numeric", "vector_integer", "vector_logical"])
        return self.coca(depth - 1)

    def coca(self, depth):
        return "etr::coca(%s)" % ", ".join(self.vecr(depth) for _ in range(self.r.randint(1, 3)))

    def matrix(self):
        r = self.r
        k = r.randint(0, 4)
        if k == 0:
            return "etr::matrix(p.k0 + 0.0, +p.n0, +p.n1)"
        if k == 1:
            return "etr::matrix(etr::colon(1, p.n0 * 2), +p.n0, 2)"
        if k == 2:
            return "etr::matrix(etr::coca(%s), 2, +p.n0)" % r.choice(OWN)
        if k == 3:
            v = r.choice(DV)
            return "etr::matrix(etr::coca(%s), size_t{%s.size()}, 1)" % (v, v)
        return "etr::matrix(etr::rep(p.k0, p.n0 * p.n1), +p.n0, +p.n1)"

    def expr(self, depth):
        """an expression which is an object"""
        r = self.r
        k = r.randint(0, 19)
        if depth <= 0 or k <= 2:
            return r.choice(ALL)
        if k <= 8:
            a = self.expr(depth - 1)
            b = r.choice(["p.k0", "p.k1", "p.n0", "p.t0"]) if r.random() < 0.3 else self.expr(depth - 1)
            if r.random() < 0.3:
                a, b = b, a
            o = r.choice(COMP) if r.random() < 0.15 else r.choice(ARITH)
            return "(%s %s %s)" % (a, o, b)
        if k <= 10:
            return "%s(%s)" % (r.choice(FN), self.expr(depth - 1))
        if k <= 13:
            if r.random() < 0.35:
                return "etr::subset(%s, %s, %s)" % (r.choice(ALL), self.idx(), self.idx())
            return "etr::subset(%s, %s)" % (r.choice(ALL), self.idx())
        if k == 14:  # a part of a calculation
            e = "(%s %s %s)" % (self.expr(0), r.choice(ARITH), r.choice(["2.0", self.expr(0)]))
            if r.random() < 0.4:
                return "etr::subset(%s, %s, %s)" % (e, self.idx(), self.idx())
            return "etr::subset(%s, %s)" % (e, self.idx())
        if k == 15:
            return self.matrix()
        if k == 16:
            return "etr::rep(%s, p.n0)" % r.choice(OWN + ["p.k0", "p.n1"])
        if k == 17:
            return "etr::colon(%s)" % r.choice(["p.n0, p.n1", "p.k0, p.n0", "1, p.n0"])
        if k == 18:
            return "etr::%s(p.n0)" % r.choice(["vector_numeric", "vector_integer", "vector_logical"])
        return self.coca(depth)

    def stores(self):
        """storages of the memory behind a variable"""
        r = self.r
        T, d = r.choice([("double", r.choice(DV)), ("int", r.choice(["i0", "i1"])), ("bool", "b0")])
        code = "etr::Buffer<%s> q(%s), e; " % (T, r.choice(["size_t(p.n1 < 1 ? 1 : p.n1)", "%s.d" % d]))
        for _ in range(r.randint(1, 5)):
            a, b = r.choice(["qe", "eq"])
            code += "{ %s; } " % r.choice(
                ["%s = %s" % (a, b), "%s = %s" % (b, a), "%s.moveit(%s)" % (a, b), "%s.resize(p.n0 < 0 ? 0 : p.n0); %s.fill(p.t0)" % (a, a),
                 "for (int i = 0; i < 5; i++) %s.push_back(p.t0)" % a,
                 "etr::Buffer<%s> z(%s); if (z.size()) z.push_back(p.t0), %s = z" % (T, a, b),
                 "if (%s.size()) %s.realloc(p.n1 < 1 ? 1 : p.n1)" % (a, a)])
        return d, code + "if (q.size()) %s = etr::Vec<%s>(q)" % (d, T)

    def statement(self):
        r = self.r
        k = r.randint(0, 25)
        t = r.choice(ALL)
        if k == 25:
            return self.stores()
        if k <= 9:
            return t, "%s = %s" % (t, self.expr(r.randint(0, 3)))
        if k <= 12:
            return t, "%s(%s) = %s" % (t, self.idx(), r.choice(["p.k0", "p.n0", "p.t0", self.expr(1), self.expr(2)]))
        if k <= 15:
            return t, "%s(%s, %s) = %s" % (t, self.idx(), self.idx(), r.choice(["p.k0", "p.n0", self.expr(1), self.expr(2)]))
        if k == 16:
            return t, r.choice(["etr::at(%s, %s) = p.t0", "etr::at(%s, %s, p.p1) = p.t0"]) % (t, self.pos())
        d = r.choice(DV)
        if k == 17:
            return d, "sexp h(%s); h = %s; %s = h" % (r.choice(DV), self.expr(2), d)
        if k == 18:
            return d, "sexp h(std::move(%s)); h = %s; %s = h" % (d, self.expr(1), d)
        if k == 19:
            return d, r.choice(["%s = byValue(%s, p.k0)" % (d, r.choice(DV)), "%s = result(%s, p.p0)" % (d, r.choice(DV)), "byRef(%s, p.n0)" % d])
        if k == 20:
            return d, "std::vector<Holder> v; for (int i = 0; i < p.n0 || i < 2; i++) v.push_back(Holder{%s}); v.erase(v.begin()); v.front().x = %s; %s = v.back().x" % (d, self.expr(1), d)
        if k == 21:
            i = r.choice(["i0", "i1"])
            return i, "etr::Vec<int> h = %s; %s = h" % (self.coca(1), i)
        if k == 22:
            return d, "sexp h = %s; h = etr::coca(h, h); %s = h" % (r.choice([self.coca(1), self.matrix(), "etr::rep(p.k0, p.n0)"]), d)
        if k == 23:
            return d, "for (auto &e : %s) e = p.k0" % d
        return d, "%s.fill(p.k0)" % d if r.random() < 0.5 else "double h[3] = {p.k0, p.k1, 2.0}; sexp g(h, size_t(3)); %s = g" % d


def generate(seed, tier, out):
    files = []
    for f in range(8 if tier == "quick" else 40):
        r = random.Random("C19-%d-%d" % (seed, f))
        g = G(r)
        code = '#include "world.hpp"\nstruct Holder { sexp x; };\nnamespace {\n'
        code += "#define VARS auto &d0 = w.d0; auto &d1 = w.d1; auto &d2 = w.d2; auto &i0 = w.i0; auto &i1 = w.i1; auto &b0 = w.b0; auto &w0 = *w.w0_; auto &w1 = *w.w1_;\n"
        n = 70
        text = []
        for i in range(n):
            t, s = g.statement()
            code += "void s_%d(World &w, const Par &p) { VARS %s; }\n" % (i, s)
            text.append('  {"%s", "%s", s_%d}' % (s.replace("etr::", "").replace("p.", ""), t, i))
        code += "const Stmt all[] = {\n%s};\nvoid history(Ctx &c) { runHistory(c, all); }\n}\n" % ",\n".join(text)
        code += 'PBT_SUB_LEAK("history_%d", 1, history);\n' % f
        name = "hist%d.cpp" % f
        open("%s/%s" % (out, name), "w").write(code)
        files.append(name)
    return files
