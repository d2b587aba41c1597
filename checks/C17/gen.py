import random
import derivgen


def generate(seed, tier, out):
    files = []
    for f in range(8 if tier == "quick" else 32):
        r = random.Random("C17-%d-%d" % (seed, f))
        code = '#define FILE_NO %d\n#include "derivs.inc"\n' % f
        for i in range(9):
            code += derivgen.program(i, r, r.random() < 0.2)
        name = "progs%d.cpp" % f
        open("%s/%s" % (out, name), "w").write(code.replace("@F@", str(f)))
        files.append(name)
    return files
