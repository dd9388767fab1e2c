"""Make seeded/<id>/ from the edits of plants.py and confirm each one in a scratch copy:
builds, the test suite passes as before, the demonstration passes without and fails with it.
usage: python3 tools/plant.py [ID...]"""
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from plants import PLANTS
ROOT = os.path.join(os.path.dirname(HERE), "seeded")
W = "/tmp/plant"
SH = """#!/bin/bash
# run with cwd /repo; exit 0 on the unchanged tree
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1
exec /opt/%s/bin/python "$(dirname "$0")/demo.py"
"""

def tests(repo):
    out = []
    for v in ("venv", "venv-stdlib"):
        env = dict(os.environ, PYTHONPATH=repo + "/src", PYTHONDONTWRITEBYTECODE="1", LANG="C.UTF-8", TZ="UTC", PYTHONHASHSEED="0",
                   XDG_CONFIG_HOME="/opt/vp/xdg/config", XDG_CACHE_HOME="/opt/vp/xdg/cache")
        r = subprocess.run([f"/opt/{v}/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--continue-on-collection-errors", "-rfE"],
                           cwd=repo, env=env, capture_output=True, text=True)
        tail = r.stdout.strip().splitlines()[-1]
        out.append((re.sub(r" in [\d.]+s.*", "", tail), [l for l in r.stdout.splitlines() if l.startswith(("FAILED", "ERROR"))]))
    return out

def demo(repo, d):
    return subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=repo, capture_output=True, text=True, timeout=300)

def main():
    want = sys.argv[1:]
    base = None
    for p in PLANTS:
        if want and p["id"] not in want:
            continue
        shutil.rmtree(W, ignore_errors=True)
        os.makedirs(W)
        repo = W + "/repo"
        shutil.copytree("/repo", repo, symlinks=True)
        if base is None:
            base = tests(repo)
            print("base", [b[0] for b in base])
        d = W + "/demo"
        os.makedirs(d)
        open(d + "/demo.sh", "w").write(SH % p.get("py", "venv"))
        open(d + "/demo.py", "w").write(p["demo"].lstrip("\n"))
        r0 = demo(repo, d)
        for f, old, new, *nth in p["edits"]:
            path = repo + "/src/pymap3d/" + f
            s = open(path).read()
            parts = s.split(old)
            assert len(parts) == 2 if not nth else len(parts) > 2, (p["id"], f, len(parts) - 1)
            k = nth[0] + 1 if nth else 1
            open(path, "w").write(old.join(parts[:k]) + new + old.join(parts[k:]))
        diff = subprocess.run(["git", "diff"], cwd=repo, capture_output=True, text=True).stdout
        t = tests(repo)
        r1 = demo(repo, d)
        ok = t == base and r0.returncode == 0 and r1.returncode != 0 and diff
        print(p["id"], p["property"], "OK" if ok else "BAD", "" if t == base else t, r0.returncode, r1.returncode,
              "" if ok else (r0.stdout + r0.stderr)[-500:] + (r1.stdout + r1.stderr)[-300:], flush=True)
        if ok:
            o = os.path.join(ROOT, p["id"])
            os.makedirs(o, exist_ok=True)
            open(o + "/patch.diff", "w").write(diff)
            for f in ("demo.sh", "demo.py"):
                shutil.copy(d + "/" + f, o)
            json.dump(dict(property=p["property"], needs=p["needs"], what_it_breaks=p["breaks"]), open(o + "/meta.json", "w"), indent=1)
        shutil.rmtree(W, ignore_errors=True)
main()
