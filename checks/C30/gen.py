"""the statements of C19 for several threads"""
import importlib.util
import os
import random

HERE = os.path.dirname(os.path.abspath(__file__))
spec = importlib.util.spec_from_file_location("gen_c19", os.path.join(HERE, "..", "C19", "gen.py"))
c19 = importlib.util.module_from_spec(spec)
spec.loader.exec_module(c19)


class G(c19.G):
    def expr(self, depth):
        if self.r.random() < 0.12:  # objects which all threads read
            return self.r.choice(["cs", "cm", "(cs * 2)", "etr::sinus(cm)"])
        return super().expr(depth)

    def statement(self):
        r = self.r
        d = r.choice(c19.DV)
        k = r.randint(0, 29)
        if k == 0:
            return d, "sexp ts = etr::coca(0, 1, 2.5, 4, 7); sexp vs = etr::coca(p.k0, 1, p.n0, 0.5, 2); %s = etr::li(p.q0, ts, vs)" % d
        if k == 1:
            return d, "sexp ts = etr::coca(0, 1, 2.5, 4, 7); sexp vs = etr::coca(p.k0, 1, p.n0, 0.5, 2); %s = etr::cmr(p.q0, ts, vs)" % d
        if k == 2:
            return d, "%s = derivative(p)" % d
        if k == 3:
            return d, "std::ostringstream o; o << cs << %s; %s = (double)o.str().size()" % (r.choice(c19.DV), d)
        if k == 4:
            return d, "double h = 0; for (const auto &e : cs) h += e; %s = h" % d
        if k == 5:
            return d, "%s = etr::isNA(%s)" % (d, r.choice(c19.DV))
        if k == 6:
            return d, "%s = (double)etr::length(%s)" % (d, r.choice(c19.OWN + ["cs", "cm"]))
        return super().statement()


# every kind of index, in a matrix with three rows and four columns and values of the thread
ROWS = ["true", "2", "3.0", "ir", "dr", "br", "(br == true)", "(ir * 1)", "etr::coca(1, 3)"]
COLS = ["true", "4", "1.0", "ic", "dc", "bc", "(bc == true)", "(ic * 1)", "etr::colon(2, 4)"]
LIBRARY = [
    "sexp ts = etr::coca(0, 1, 2.5, 4, 7); sexp vs = ts * p.k0; OUT = etr::li(%s, ts, vs)" % x
    for x in ("2.0 + 0.25 * (p.c0 % 4)", "1", "etr::coca(3.25)", "ts(3)")
] + [
    "sexp ts = etr::coca(0, 1, 2.5, 4, 7); sexp vs = ts * p.k0; OUT = etr::cmr(%s, ts, vs)" % x
    for x in ("2.0 + 0.25 * (p.c0 % 4)", "1", "etr::coca(3.25)")
] + ["OUT = %s" % x for x in (
    "derivative(p)",
    "etr::coca(1, p.k0, true, m, ic)", "etr::coca(p.t0, false)", "etr::coca(ic, p.c0)",
    "etr::colon(1, 3 + p.c0 % 3) * p.k0", "etr::colon(2.5, p.k0)", "etr::colon(ic, p.k0)",
    "etr::rep(m, 2)", "etr::rep(p.k0, 3)", "etr::rep(etr::coca(p.k0, 1.0), etr::coca(2))",
    "etr::matrix(p.k0 * 1, 2, 3)", "etr::matrix(etr::colon(1.0, 6.0), 2, 3) * p.k0",
    "etr::vector_numeric(4) + p.k0", "etr::vector_integer(4) + p.k0", "etr::vector_logical(4) + p.k0",
    "etr::sinus(m)", "etr::asinus(m / 1000.0)", "etr::sinush(m / 10.0)", "etr::cosinus(m)", "etr::acosinus(m / 1000.0)", "etr::cosinush(m / 10.0)", "etr::tangens(m)", "etr::atangens(m)",
    "etr::tangensh(m)", "etr::exp(m / 10.0)", "etr::ln(m * m + 1.0)", "etr::sqroot(m * m)", "-m",
    "m + ic", "m - dc", "m * bc", "m / p.k1", "m ^ 2", "(m == p.k0)", "(m != cm)", "(m < cm)", "(m <= 1)", "(m > p.k0)", "(m >= ic)",
    "etr::isNA(m)", "etr::isInf(m)", "(double)etr::length(m)", "etr::dim(m)",
    "etr::at(m, 2)", "etr::at(m, 2.0)", "etr::at(m, 2, 3)", "etr::at(m, 2.0, 3)", "etr::at(m, 2, 3.0)", "etr::at(m, 2.0, 3.0)",
    "cs * p.k0", "cm",
)] + ["OUT = etr::subset(m, %s)" % i for i in ROWS] + [
    "m(%s) = p.k0; OUT = m" % i for i in ROWS] + [
    "OUT = etr::subset(m, %s, %s)" % (a, b) for a in ROWS for b in COLS] + [
    "m(%s, %s) = p.k0; OUT = m" % (a, b) for a in ROWS for b in COLS] + [
    "etr::Vec<int> x = m * 1.0; OUT = x", "etr::Vec<bool> x; x = m; OUT = x", "const sexp x = m; OUT = x", "sexp x = etr::coca(p.k0, 2.0); OUT = x",
    "sexp x = cs; OUT = x(x <= cs)", "sexp x = std::move(m); OUT = x", "auto f = [](sexp x, const sexp &y) { x = x + y; return x; }; sexp r = f(m, m); OUT = r",
    "OUT = m; OUT = 5", "w0 = etr::coca(p.k0, 2.0); OUT = w0 + 1", "w0(1) = p.k0; OUT = w0", "m = m(ir, true); OUT = m",
    "double h = 0; for (const auto &e : m) h += e; OUT = h", "double h = 0; for (auto e : m(ir, ic)) h += e; OUT = h",
    "std::ostringstream o; o << m << ic; OUT = (double)o.str().size()",
    "etr::Buffer<double> b; for (int i = 0; i < 9; i++) b.push_back(p.k0); b.realloc(12); OUT = b[8] + b[11]",
    "OUT = 1; OUT = etr::subset(m, 13)", "OUT = 1; OUT = etr::subset(m, 4, 1)", "OUT = 1; m(ic) = etr::coca(1.0)",
]


def library(f, n):
    """a part of the functions of the library, called by all threads"""
    code = '#include "threads.hpp"\nnamespace {\n'
    code += ("#define VARS auto &d0 = w.d0; auto &d1 = w.d1; auto &d2 = w.d2; auto &w0 = *w.w0_; const sexp &cs = *sharedVec; const sexp &cm = *sharedMat; "
             "sexp m; m = etr::matrix(etr::colon(1.0, 12.0), 3, 4); m(true) = etr::colon(1.0, 12.0) * p.k0; "
             "etr::Vec<int> ir, ic; ir = etr::coca(1, 3); ic = etr::coca(4, 2, 3); sexp dr, dc; dr = etr::coca(3.0, 2.0); dc = etr::coca(1.0, 4.0); "
             "etr::Vec<bool> br, bc; br = etr::coca(true, false, true); bc = etr::coca(true, false);\n")
    text = []
    mine = LIBRARY[f::n]
    for i, s in enumerate(mine):
        s = s.replace("OUT", "d%d" % (i % 3))
        code += "void s_%d(World &w, const Par &p) { VARS { %s; } }\n" % (i, s)
        text.append('  {"%s", "d%d", s_%d}' % (s.replace("etr::", "").replace("p.", ""), i % 3, i))
    code += "const Stmt all[] = {\n%s};\nvoid history(Ctx &c) { runThreads(c, all); }\n}\n" % ",\n".join(text)
    code += 'PBT_SUB("library_%d", 0.6, history);\n' % f
    return code


def generate(seed, tier, out):
    files = []
    for f in range(6):
        name = "library%d.cpp" % f
        open("%s/%s" % (out, name), "w").write(library(f, 6))
        files.append(name)
    for f in range(6 if tier == "quick" else 30):
        r = random.Random("C30-%d-%d" % (seed, f))
        g = G(r)
        code = '#include "threads.hpp"\nstruct Holder { sexp x; };\nnamespace {\n'
        code += "#define VARS auto &d0 = w.d0; auto &d1 = w.d1; auto &d2 = w.d2; auto &i0 = w.i0; auto &i1 = w.i1; auto &b0 = w.b0; auto &w0 = *w.w0_; auto &w1 = *w.w1_; const sexp &cs = *sharedVec; const sexp &cm = *sharedMat;\n"
        text = []
        for i in range(60):
            t, s = g.statement()
            code += "void s_%d(World &w, const Par &p) { VARS %s; }\n" % (i, s)
            text.append('  {"%s", "%s", s_%d}' % (s.replace("etr::", "").replace("p.", ""), t, i))
        code += "const Stmt all[] = {\n%s};\nvoid history(Ctx &c) { runThreads(c, all); }\n}\n" % ",\n".join(text)
        code += 'PBT_SUB("threads_%d", 1, history);\n' % f
        name = "threads%d.cpp" % f
        open("%s/%s" % (out, name), "w").write(code)
        files.append(name)
    return files
