"""Build the resolved program (LLVM IR, flex tables, bison automaton) from /repo's current tree.

Nothing of the program is executed: bison and flex generate the parser and
scanner sources, clang lowers every translation unit to LLVM IR (unoptimised,
then SSA construction only) and the modules are linked into one.
"""
import os, sys, subprocess, tempfile, shutil, atexit, concurrent.futures as cf

REPO = os.environ.get("PASM_REPO", "/repo")

class BuildError(Exception):
    pass

def _run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), r.stdout[-4000:]))
    return r.stdout

def source_dir():
    d = os.path.join(REPO, "CMakePasm", "source")
    if not os.path.isdir(d):
        raise BuildError("source directory not found: " + d)
    return d

def scratch():
    d = tempfile.mkdtemp(prefix="pasmverif.")
    atexit.register(shutil.rmtree, d, ignore_errors=True)
    return d

PROBE = r'''
#include <stddef.h>
#include <stdio.h>
#include "pasm.h"
#include "node.h"
#include "opcodes.h"
#include "sym.h"
#include "error.h"
#include "dictionary.h"
#include "stacks.h"
#include "genlist.h"
#include "expand.h"
#include "pasm.tab.h"
#define E(n) extern "C" const long long probe_##n = (long long)(n);
#define O(s,f) extern "C" const long long probe_off_##s##__##f = offsetof(s, f);
#define OO(s,f,nm) extern "C" const long long probe_off_##s##__##nm = offsetof(s, f);
#define Z(s) extern "C" const long long probe_size_##s = sizeof(s);
'''

def probe_source(extra):
    return PROBE + "\n".join(extra) + "\n"

class Build:
    def __init__(self, eol=False, keep=None):
        self.src = source_dir()
        self.dir = keep or scratch()
        self.xml = os.path.join(self.dir, "pasm.xml")

    def generate(self):
        S = self.src
        def bis():
            _run(["bison", "-d", "-o", "pasm.tab.cc", "--defines=pasm.tab.h", "--xml=pasm.xml",
                  "-Wno-all", os.path.join(S, "pasm.y")], self.dir)
        def fl():
            _run(["flex", "-o", "pasm.flex.cc", os.path.join(S, "pasm.l")], self.dir)
        with cf.ThreadPoolExecutor(2) as ex:
            for f in [ex.submit(bis), ex.submit(fl)]:
                f.result()

    def compile(self, probes=(), mem2reg=True):
        S = self.src
        self.generate()
        srcs = [os.path.join(S, f) for f in sorted(os.listdir(S)) if f.endswith(".cc")]
        eol = os.path.join(REPO, "CMakePasm", "eolconvert", "eolconvert.cc")
        srcs += [os.path.join(self.dir, "pasm.tab.cc"), os.path.join(self.dir, "pasm.flex.cc")]
        p = os.path.join(self.dir, "zz_probe.cc")
        with open(p, "w") as f:
            f.write(probe_source(list(probes)))
        srcs.append(p)
        outs = []
        def one(s):
            o = os.path.join(self.dir, os.path.basename(s) + ".bc")
            _run(["clang++", "-std=c++17", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-exceptions", "-DNDEBUG",
                  "-g", "-w", "-fno-discard-value-names", "-I" + S, "-I" + self.dir, "-emit-llvm", "-c", s, "-o", o], self.dir)
            return o
        with cf.ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(one, srcs))
        linked = os.path.join(self.dir, "all.bc")
        _run(["llvm-link", "-o", linked] + outs, self.dir)
        final = os.path.join(self.dir, "ssa.bc")
        _run(["opt", "-passes=" + ("mem2reg" if mem2reg else "verify"), "-o", final, linked], self.dir)
        self.bc = final
        self.units = [os.path.basename(s) for s in srcs if not s.endswith("zz_probe.cc")]
        return self
