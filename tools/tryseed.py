#!/usr/bin/env python3
"""tryseed.py ID... : in a scratch copy of /repo: patch applies, builds, stable tests pass, the demo passes without and
fails with it. With --check, also runs the property's quick check on the patched copy (VERIF_REPO)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from vlib import goenv, sh
ids = [a for a in sys.argv[1:] if not a.startswith("-")]
check = "--check" in sys.argv
only = "--only" in sys.argv   # only the check
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
for i in ids:
    d = os.path.join(V, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    w = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        sh(["git", "-C", "/repo", "worktree", "prune"])
        subprocess.check_call("git -C /repo archive HEAD | tar x -C " + w, shell=True)
        subprocess.check_call(["git", "-C", w, "init", "-q"])
        e = goenv(); e["GOFLAGS"] = "-mod=readonly"
        if not only:
            rc, o = sh(["bash", d + "/demo.sh"], env=e, cwd=w, timeout=300)
            print(i, "demo clean:", rc, "" if rc == 0 else o[-1500:])
        rc, o = sh(["git", "-C", w, "apply", d + "/patch.diff"])
        if rc:
            print(i, "PATCH DOES NOT APPLY", o); continue
        if not only:
            rc, o = sh(["go", "list", "-export", "-f", "{{.ImportPath}}", "./..."], env=e, cwd=w, timeout=600)
            print(i, "build:", rc, "" if rc == 0 else o[-1500:])
            rc, o = sh("go test -json -vet=off -count=1 -timeout 10m ./cmd/testgen/... ./crypto/... ./fuzz/util ./fuzz/weightedroulette ./ipc/marshaling ./mandos-go/... ./math/...".split(), env=e, cwd=w, timeout=600)
            ok = set()
            for l in o.splitlines():
                try: x = json.loads(l)
                except ValueError: continue
                if x.get("Action") == "pass" and x.get("Test"): ok.add(x["Package"] + "/" + x["Test"])
            print(i, "stable:", "ok" if stable <= ok else sorted(stable - ok))
            rc, o = sh(["bash", d + "/demo.sh"], env=e, cwd=w, timeout=300)
            print(i, "demo patched:", rc, "(want nonzero)", "" if rc else "!!!")
        if check or only:
            e2 = dict(os.environ); e2.update(VERIF_REPO=w, VERIF_SEED="1")
            rc, o = sh(["python3", V + "/check.py", prop, "quick"], env=e2, cwd=V, timeout=900)
            print(i, "CHECK", prop, "->", rc, [l for l in o.splitlines() if "VIOLATION" in l or "ERROR" in l][:2], o[-600:] if rc not in (0, 1) else "")
    finally:
        shutil.rmtree(w)
        import hashlib
        h = hashlib.sha1(w.encode()).hexdigest()[:8]
        for p in ("hmod-" + h, "bin-hmod-" + h):
            shutil.rmtree(os.path.join(V, ".build", p), ignore_errors=True)
    sys.stdout.flush()
