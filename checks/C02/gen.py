import random
from exprgen import *


def generate(seed, tier, out):
    files = []
    for f in range(2 if tier == "quick" else 12):
        r = random.Random("C02-%d-%d" % (seed, f))
        code = HEAD
        for i in range(40):
            g = Gen(r, list(KINDS), COMP * 2 + ["ADD", "SUB", "MUL"], ["NEG"], r.random() < 0.35)
            code += expression_program(i, g, g.mat)
            code += 'PBT_SUB("expr_%d_%02d", 0.03, prog_%d);\n' % (f, i, i)
        name = "expr%d.cpp" % f
        open("%s/%s" % (out, name), "w").write(code)
        files.append(name)
    return files
