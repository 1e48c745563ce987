#!/usr/bin/env python3
"""Authoring aid: seedtool.py try ID [CHECK...]: apply seeded/ID to a scratch copy, run its demo with and without, and the checks against it.
seedtool.py make SPEC.py: create seeded/<id> from edits (list of (file, old, new))."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/seedwt"


def fresh():
    if not os.path.isdir(WT):
        subprocess.check_call(["cp", "-a", "/repo", WT])
    subprocess.check_call(["git", "-C", WT, "fetch", "-q", "/repo", "HEAD"])
    subprocess.check_call(["git", "-C", WT, "reset", "-q", "--hard", "FETCH_HEAD"])


def demo(i):
    r = subprocess.run(["bash", f"{V}/seeded/{i}/demo.sh"], cwd=WT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    return r.returncode, r.stdout[-1500:]


def tryone(i, checks=None):
    fresh()
    rc0, o0 = demo(i)
    subprocess.check_call(["git", "-C", WT, "apply", f"{V}/seeded/{i}/patch.diff"])
    rc1, o1 = demo(i)
    print(f"{i}: demo unchanged rc={rc0} patched rc={rc1}", "OK" if rc0 == 0 and rc1 != 0 else "BAD\n" + o0 + "\n" + o1)
    prop = json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]
    for c in checks or [prop]:
        e = dict(os.environ, VERIF_REPO=WT, VERIF_BUILD=f"/tmp/seedbuild", VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
        os.makedirs("/tmp/seedbuild", exist_ok=True)
        if not os.path.exists("/tmp/seedbuild/ccache"):
            os.symlink(f"{V}/build/ccache", "/tmp/seedbuild/ccache")
        r = subprocess.run(["python3", f"{V}/run.py", c, "quick"], cwd=V, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        tail = [l for l in r.stdout.splitlines() if l.startswith(("violation", "VIOLATION", "ERROR", "OK"))]
        print(f"   {c}: rc={r.returncode}", "CAUGHT" if r.returncode == 1 else "MISSED", "|", (tail or [r.stdout[-600:]])[0][:260])
    subprocess.check_call(["git", "-C", WT, "checkout", "-q", "--", "."])
    return rc0 == 0 and rc1 != 0


def make(i, prop, edits, demo_sh, needs, breaks, files=None, shim=False):
    fresh()
    d = f"{V}/seeded/{i}"
    os.makedirs(d, exist_ok=True)
    for f, old, new in edits:
        p = f"{WT}/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (i, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", WT, "diff"], text=True)
    open(f"{d}/patch.diff", "w").write(diff)
    subprocess.check_call(["git", "-C", WT, "checkout", "-q", "--", "."])
    open(f"{d}/demo.sh", "w").write(demo_sh)
    if shim:
        subprocess.check_call(["tar", "--sort=name", "--mtime=2026-01-01", "--owner=0", "--group=0", "-C", V, "-I", "gzip -n", "-cf", f"{d}/support.tgz", "shim", "proto"] + (["harness/store_env.h", "harness/svc.h", "harness/vh.h"] if shim == "store" else []))
    for n, t in (files or {}).items():
        os.makedirs(os.path.dirname(f"{d}/{n}"), exist_ok=True)
        open(f"{d}/{n}", "w").write(t)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)


if __name__ == "__main__":
    if sys.argv[1] == "try":
        ids = [sys.argv[2]] if sys.argv[2] != "all" else sorted(os.listdir(f"{V}/seeded"))
        for i in ids:
            tryone(i, sys.argv[3:] or None)
    elif sys.argv[1] == "make":
        sys.path.insert(0, f"{V}/lib")
        import runpy
        runpy.run_path(sys.argv[2], init_globals={"make": make})
