import random
from exprgen import HEAD, KINDS, esc

LEAVES = ["num", "mat", "int", "imat", "log", "borrow", "dbl", "scint", "sclog", "colon"]
TY = "BID"
HELP = '''
// all elements of all arguments
static MV cat(std::vector<MV> a) {
  MV m;
  m.ty = Ty::B;
  for (auto &x : a) {
    m.v.insert(m.v.end(), x.v.begin(), x.v.end());
    if (x.ty > m.ty) m.ty = x.ty;
  }
  return m;
}
static MV rept(const MV &x, int n) {
  MV m;
  m.ty = x.ty;
  for (int i = 0; i < n; i++) m.v.insert(m.v.end(), x.v.begin(), x.v.end());
  return m;
}
template <class R> static void expectType(Ctx &c, const R &r, const MV &want, const char *text) {
  using E = std::remove_cvref_t<decltype(r[0])>;
  c.require(std::is_same_v<E, bool> == (want.ty == Ty::B) && std::is_same_v<E, int> == (want.ty == Ty::I),
            std::string(text) + ": the type of the result");
}
'''


class G:
    def __init__(self, r, allowed):
        self.r = r
        self.vars = []
        self.allowed = allowed

    def leaf(self):
        r = self.r
        q = r.random()
        if q < 0.08:
            v = r.choice(["1.5", "-2", "7", "true", "false", "0.25", "-0.0"])
            t = "B" if v in ("true", "false") else "D" if "." in v else "I"
            if t in self.allowed:
                return v, "scal(%s, Ty::%s)" % (v, t)
        if self.vars and q < 0.4:
            k, n = r.choice(self.vars)
        else:
            k = r.choice([k for k in LEAVES if KINDS[k][3] in self.allowed])
            n = "v%d" % len(self.vars)
            self.vars.append((k, n))
        f = lambda t: t.replace("%s", n).replace("$", n)
        return f(KINDS[k][1]), f(KINDS[k][2])

    def arg(self, depth):
        r = self.r
        if depth > 0 and r.random() < 0.25:
            if r.random() < 0.6:
                return self.coca(depth - 1, r.randint(1, 3))
            x = self.arg(depth - 1)
            n = r.randint(1, 3)
            return "etr::rep(%s, %d)" % (x[0], n), "rept(%s, %d)" % (x[1], n)
        return self.leaf()

    def coca(self, depth, n):
        a = [self.arg(depth) for _ in range(n)]
        return "etr::coca(%s)" % ", ".join(x[0] for x in a), "cat({%s})" % ", ".join(x[1] for x in a)


def generate(seed, tier, out):
    files = []
    for f in range(5 if tier == "quick" else 16):
        r = random.Random("C13-%d-%d" % (seed, f))
        code = HEAD + HELP
        for i in range(24):
            g = G(r, r.choice(["BID", "BID", "BI", "B", "D", "I", "ID"]))
            x = g.coca(2, r.choice([1, 2, 2, 3, 3, 4, 5, 7]))
            code += "static void prog_%d(Ctx &c) {\n  Env e(c, %s);\n" % (i, "true" if r.random() < 0.5 else "false")
            for k, n in g.vars:
                code += "  " + KINDS[k][0].replace("%s", n).replace("$", n) + "\n"
            code += '  const char *text = "%s";\n' % esc(x[0].replace("etr::", ""))
            code += "  MV want = %s;\n" % x[1]
            code += "  c.log([&](auto &o) { o << text << \" with\";"
            for k, n in g.vars:
                code += ' o << " %s=" << str(%s_);' % (n, n)
            code += ' o << " -> " << str(want); });\n'
            code += "  c.nontrivial(want.size() > 1);\n"
            code += "  { auto r = %s;\n  expectType(c, r, want, text);\n  expectVec(c, r, want, text); }\n" % x[0]
            own = [n for k, n in g.vars if k in ("num", "mat")]
            iown = [n for k, n in g.vars if k in ("int", "imat")]
            q = r.randint(0, 5)
            if q <= 2 and own:
                n = r.choice(own)
                code += "  %s = %s;\n  expectVec(c, %s, want, std::string(\"%s = \") + text);\n" % (n, x[0], n, n)
                # the other variables are as before
                for k, m in g.vars:
                    if m != n and k in ("num", "mat", "int", "imat", "log", "borrow"):
                        code += "  expectVec(c, %s, %s_, \"%s\");\n" % (m, m, m)
            elif q == 3 and iown and g.allowed in ("BI", "I"):
                n = r.choice(iown)
                code += "  %s = %s;\n  expectVec(c, %s, convTo(want, Ty::I), std::string(\"%s = \") + text);\n" % (n, x[0], n, n)
            elif q == 4:
                code += "  expectVec(c, %s * 2.0, apply2(MUL, want, scal(2.0)), text);\n" % x[0]
            else:
                code += "  sexp res;\n  res = %s;\n  expectVec(c, res, want, text);\n" % x[0]
                code += "  res = etr::coca(res, 1.5, res);\n  expectVec(c, res, cat({want, scal(1.5), want}), \"coca(res, 1.5, res)\");\n"
            code += "}\n"
            code += 'PBT_SUB("coca_%d_%02d", 0.05, prog_%d);\n' % (f, i, i)
        name = "coca%d.cpp" % f
        open("%s/%s" % (out, name), "w").write(code)
        files.append(name)
    return files
