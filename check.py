#!/usr/bin/env python3
"""check.py <property> [--thorough]: decide one property from /repo's current source."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks.common import main
def selftest():
    """the tools are there and the current sources can be lowered"""
    from engine import build, llvm
    m = llvm.Module(build.Build().compile().bc)
    print("program lowered: %d functions" % sum(1 for f in m.functions.values() if not f.decl))
    return 0
if __name__ == "__main__":
    if sys.argv[1:2] == ["--selftest"]: sys.exit(selftest())
    sys.exit(main(sys.argv))
