import random
import derivgen


def generate(seed, tier, out):
    files = []
    for f in range(8 if tier == "quick" else 32):
        r = random.Random("C18-%d-%d" % (seed, f))
        code = '#define FILE_NO %d\n#include "same.inc"\n' % f
        for i in range(8):
            code += derivgen.program(i, r, r.random() < 0.25, True)
        name = "progs%d.cpp" % f
        open("%s/%s" % (out, name), "w").write(code)
        files.append(name)
    return files
