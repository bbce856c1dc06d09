"""plant bugs: python tools/mkseed.py FILE.py [ID ...]   FILE defines SEEDS = {id: dict(property, file, edits=[(old,new)], demo, needs, breaks)}
Each is confirmed in a private mount of a scratch copy: builds, stable tests pass, demo fails with the patch and passes without."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)


def build(sid, s):
    d = tempfile.mkdtemp(prefix="seed_")
    try:
        w = d + "/repo"
        shutil.copytree("/repo", w, symlinks=True)
        subprocess.run(["git", "-C", w, "checkout", "-q", "--", "."], check=True)
        edits = s["edits"]
        for e in edits:
            f, old, new = (s["file"],) + tuple(e) if len(e) == 2 else e
            p = os.path.join(w, f)
            t = open(p).read()
            if t.count(old) != 1:
                return sid, f"edit matches {t.count(old)} times: {old[:60]!r}"
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout
        out = os.path.join(V, "seeded", sid)
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        open(out + "/demo.sh", "w").write('#!/bin/bash\nexport HOME=/root PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg JAX_PLATFORMS=cpu PYTHONPATH="$PWD"\nexec timeout 280 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(out + "/demo.sh", 0o755)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(out + "/meta.json", "w"), indent=1)
        a = sh(f"bash {out}/demo.sh", "/repo")
        b = sh(f"bash {out}/demo.sh", w)
        if a.returncode != 0:
            return sid, "demo fails on the unchanged tree: " + (a.stdout + a.stderr)[-800:]
        if b.returncode == 0:
            return sid, "demo passes with the patch"
        if os.environ.get('DEMO_ONLY'):
            return sid, 'demo works: ' + (b.stdout + b.stderr).strip().splitlines()[-1][:160]
        # tests, with the copy shown as /repo
        r = sh(f"unshare -m bash -c 'mount --bind {w} /repo && bash /opt/vp/build.sh && bash /opt/vp/test.sh {d}/out.json'", "/tmp")
        base = set(json.load(open("/opt/vp/BASELINE.json")).get("passed") or json.load(open("/opt/vp/BASELINE.json")).get("stable") or [])
        try:
            o = json.load(open(d + "/out.json"))
        except Exception:
            return sid, "tests did not run: " + (r.stdout + r.stderr)[-500:]
        ok = set(o.get("passed", []))
        bad = sorted(base - ok)
        if bad or not base:
            return sid, f"stable tests broken: {bad[:5]}"
        return sid, "OK demo: " + (b.stdout + b.stderr).strip().splitlines()[-1][:160]
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    S = ns["SEEDS"]
    ids = sys.argv[2:] or list(S)
    with ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
        for sid, msg in ex.map(lambda i: build(i, S[i]), ids):
            print(sid, msg, flush=True)
            if not msg.startswith("OK"):
                shutil.rmtree(os.path.join(V, "seeded", sid), ignore_errors=True)
