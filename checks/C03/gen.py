import random
from exprgen import *


def generate(seed, tier, out):
    files = []
    kinds = list(KINDS) + ["mat", "mat", "imat", "mat"]
    for f in range(5 if tier == "quick" else 16):
        r = random.Random("C03-%d-%d" % (seed, f))
        code = HEAD
        for i in range(40):
            while True:
                g = Gen(r, kinds, ARITH + COMP, list(FNS), True, maxops=4 if f % 2 else 6)
                p = expression_program(i, g, True)
                if any(k in ("mat", "imat") for k, n in g.vars) or r.random() < 0.1:
                    break
            code += p
            code += 'PBT_SUB("expr_%d_%02d", 0.03, prog_%d);\n' % (f, i, i)
        name = "expr%d.cpp" % f
        open("%s/%s" % (out, name), "w").write(code)
        files.append(name)
    return files
