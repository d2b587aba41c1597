import random
import derivgen


def generate(seed, tier, out):
    files = []
    for f in range(4 if tier == "quick" else 16):
        r = random.Random("C27-%d-%d" % (seed, f))
        code = '#define DERIV_R\n#define FILE_NO %d\n#include "../../../checks/C17/derivs.inc"\n' % f
        for i in range(6):
            code += derivgen.program(i, r, r.random() < 0.25)
        name = "rderivs%d.cpp" % f
        open("%s/%s" % (out, name), "w").write(code)
        files.append(name)
    return files
