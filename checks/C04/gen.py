import random
from exprgen import *


def generate(seed, tier, out):
    files = []
    kinds = list(KINDS)
    for f in range(4 if tier == "quick" else 16):
        r = random.Random("C04-%d-%d" % (seed, f))
        code = HEAD
        for i in range(40):
            mat = r.random() < 0.3
            while True:
                g = Gen(r, kinds, ["ADD","SUB","MUL"], list(FNS), mat, maxops=5)
                p = expression_program(i, g, mat)
                if "apply1" in p:
                    break
            code += p
            code += 'PBT_SUB("expr_%d_%02d", 0.03, prog_%d);\n' % (f, i, i)
        name = "expr%d.cpp" % f
        open("%s/%s" % (out, name), "w").write(code)
        files.append(name)
    return files
