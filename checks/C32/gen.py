# where the library is, and a precompiled header for the programs which the check writes
import os
import subprocess


def generate(seed, tier, out):
    repo = os.environ.get("VERIF_REPO", "/repo")
    cxx = os.environ.get("VERIF_CXX", "g++")
    with open(os.path.join(out, "plain.hpp"), "w") as f:
        f.write("#define STANDALONE_ETR\n#include <string>\n#include <vector>\n"
                "#include \"%s/include/etr.hpp\"\n" % repo)
    with open(os.path.join(out, "plain.log"), "w") as log:
        subprocess.call([cxx, "-std=c++20", "-w", "-x", "c++-header", "plain.hpp", "-o",
                         "plain.hpp.gch"], cwd=out, stdout=log, stderr=log, timeout=300)
    with open(os.path.join(out, "paths.cpp"), "w") as f:
        f.write("const char *plainDir() { return \"%s\"; }\n"
                "const char *compiler() { return \"%s\"; }\n" % (out, cxx))
    return ["paths.cpp"]
