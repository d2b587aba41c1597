import random
from exprgen import *


def generate(seed, tier, out):
    files = []
    kinds = list(KINDS)
    for f in range(2 if tier == "quick" else 12):
        r = random.Random("C20-%d-%d" % (seed, f))
        code = '#include "printing.hpp"\n'
        for i in range(24):
            mat = r.random() < 0.5
            g = Gen(r, kinds, ARITH[:4] + ["LT", "GE"], ["NEG", "SIN", "SQRT"], mat, maxops=4)
            defs, x = g.program()
            code += "static void prog_%d(Ctx &c) {\n  Env e(c, %s, -1);\n%s\n" % (i, "true" if mat else "false", defs)
            code += "  MV want = %s;\n  if (overflow()) return;\n" % x[1]
            code += '  const char *text = "%s";\n' % esc(x[0].replace("etr::", ""))
            code += '  c.log([&](auto &o) { o << "print(" << text << ") " << str(want); });\n  c.nontrivial(want.size() > 1);\n'
            code += "  if (want.im) c.label(\"matrix\");\n  MV got = readBack(%s);\n" % x[0]
            code += "  Precision p(c.s);\n  std::string out = printed([&]() { etr::print(%s); });\n" % x[0]
            code += "  expectText(c, out, got, p.prec, text);\n  std::ostringstream o; o.precision(p.prec); o << %s;\n" % x[0]
            code += "  expectStream(c, o.str(), got, p.prec, text);\n  expectMV(c, got, want, text);\n}\n"
            code += 'PBT_SUB("expr_%d_%02d", 0.04, prog_%d);\n' % (f, i, i)
        name = "expr%d.cpp" % f
        open("%s/%s" % (out, name), "w").write(code)
        files.append(name)
    return files
