import random
from exprgen import *


def generate(seed, tier, out):
    n = 40 if tier == "quick" else 120
    files = []
    for f in range(5 if tier == "quick" else 16):
        r = random.Random("C01-%d-%d" % (seed, f))
        code = HEAD
        for i in range(n):
            mat = r.random() < 0.35
            g = Gen(r, list(KINDS), ARITH, ["NEG"], mat)
            code += expression_program(i, g, mat)
            code += 'PBT_SUB("expr_%d_%02d", 0.03, prog_%d);\n' % (f, i, i)
        name = "expr%d.cpp" % f
        open("%s/%s" % (out, name), "w").write(code)
        files.append(name)
    return files
