"""newbug.py SPEC.py: writes seeded/<id>/ from BUGS = [(id, prop, [(file, old, new)...], demo, needs, breaks)] against /repo HEAD."""
import sys, os, json, subprocess, tempfile, shutil
V = "/verif/seeded"
PRE = r'''#!/bin/bash
# run in the repository's top directory after the build
P=$PWD/_build/pasm/bin/pasm
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cd "$T" || exit 2
fail() { echo "FAIL: $*" >&2; exit 1; }
# asm NAME OPTIONS... <source : assembles, prints the image as hex, status in $rc
asm() { local n=$1; shift; cat > $n.asm; rm -f $n.bin; timeout 20 $P "$@" -o $n.bin $n.asm > $n.out 2> $n.err; rc=$?; hex=; [ -f $n.bin ] && hex=$(od -An -v -tx1 $n.bin | tr -d ' \n'); return 0; }
# want HEX : the last assembly succeeded and its image is HEX
want() { [ $rc = 0 ] || fail "status $rc"; [ "$hex" = "$1" ] || fail "image $hex, expected $1"; }
# reject : the last assembly ended with a failure
reject() { [ $rc != 0 ] || fail "accepted: $hex"; }
'''
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = set(sys.argv[2:])
for bid, prop, edits, demo, needs, breaks in ns["BUGS"]:
    if only and bid not in only: continue
    d = tempfile.mkdtemp()
    subprocess.check_call(["git", "clone", "-q", "/repo", d + "/r"])
    for f, old, new in edits:
        p = d + "/r/" + f
        s = open(p, newline='').read()
        crlf = "\r\n" in s
        if crlf: old = old.replace("\n", "\r\n"); new = new.replace("\n", "\r\n")
        assert s.count(old) == 1, (bid, f, s.count(old), old)
        open(p, "w", newline='').write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", d + "/r", "diff"])
    shutil.rmtree(d)
    o = os.path.join(V, bid); os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "wb").write(diff)
    open(o + "/demo.sh", "w").write(PRE + demo.strip("\n") + "\nexit 0\n")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(o + "/meta.json", "w"), indent=1)
    print("wrote", bid)
