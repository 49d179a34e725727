"""which planted bugs the checks of their own property (and of those named in ALSO) report -> tools/design/caught.json"""
import json, os, sys, glob, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = V + "/tools/design/caught.json"
old = json.load(open(J)) if os.path.exists(J) else {}
def where(n): return next((d for d in (V + "/seeded/" + n, V + "/extra-bugs/" + n) if os.path.isdir(d)), None)
def one(n):
    p = json.load(open(where(n) + "/meta.json"))["property"]
    d = tempfile.mkdtemp(prefix="caught", dir="/tmp")
    shutil.copytree("/repo", d + "/r", symlinks=True, ignore=shutil.ignore_patterns("build*", "_build"))
    subprocess.run(["git", "-C", d + "/r", "apply", where(n) + "/patch.diff"], check=True)
    env = dict(os.environ, PASM_REPO=d + "/r", VERIF_EVIDENCE=d + "/ev"); got = []
    for c in dict.fromkeys([p] + os.environ.get("ALSO", "").split()):
        r = subprocess.run([sys.executable, V + "/check.py", c], capture_output=True, text=True, env=env)
        if r.returncode == 1: got.append(c)
        print(n, c, r.returncode, flush=True)
    shutil.rmtree(d)
    return n, got
names = sys.argv[1:] or sorted(x.split("/")[-2] for x in glob.glob(V + "/seeded/*/meta.json") + glob.glob(V + "/extra-bugs/*/meta.json"))
with ThreadPoolExecutor(2) as ex:
    for n, got in ex.map(one, names):
        old[n] = sorted(set(got))
json.dump({k: old[k] for k in sorted(old) if where(k)}, open(J, "w"), indent=1)
