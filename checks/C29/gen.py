"""the statements of C19, executed while memory is exhausted"""
import importlib.util
import os
import random

HERE = os.path.dirname(os.path.abspath(__file__))
spec = importlib.util.spec_from_file_location("gen_c19", os.path.join(HERE, "..", "C19", "gen.py"))
c19 = importlib.util.module_from_spec(spec)
spec.loader.exec_module(c19)


def generate(seed, tier, out):
    files = []
    for f in range(8 if tier == "quick" else 40):
        r = random.Random("C29-%d-%d" % (seed, f))
        g = c19.G(r)
        code = '#include "oom.hpp"\nstruct Holder { sexp x; };\nnamespace {\n'
        code += "#define VARS auto &d0 = w.d0; auto &d1 = w.d1; auto &d2 = w.d2; auto &i0 = w.i0; auto &i1 = w.i1; auto &b0 = w.b0; auto &w0 = *w.w0_; auto &w1 = *w.w1_;\n"
        text = []
        for i in range(70):
            t, s = g.statement()
            # a variable which was handed over has no content
            kept = "false" if "std::move" in s else "true"
            code += "void s_%d(World &w, const Par &p) { VARS %s; }\n" % (i, s)
            text.append('  {{"%s", "%s", s_%d}, %s}' % (s.replace("etr::", "").replace("p.", ""), t, i, kept))
        code += "const OomStmt all[] = {\n%s};\nvoid history(Ctx &c) { runOom(c, all); }\n}\n" % ",\n".join(text)
        code += 'PBT_SUB_LEAK("statements_%d", 1, history);\n' % f
        name = "oom%d.cpp" % f
        open("%s/%s" % (out, name), "w").write(code)
        files.append(name)
    return files
