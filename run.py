#!/usr/bin/env python3
"""run.py <PROPERTY> [tier]: build the property's harnesses from /repo, run them, judge, write evidence."""
import json, os, re, resource, subprocess, sys, time, shutil, signal
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vb
from targets import TARGETS, CHECKS

V = vb.V


def known_findings():
    out = []
    p = f"{V}/known_findings.txt"
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out


def san_summary(err):
    m = re.search(r"SUMMARY: (\w+Sanitizer): (\S+)(?: \S+)? ?(?:in )?([^\n]*)", err)
    if m:
        return f"{m.group(1)}:{m.group(2)}"
    m = re.search(r"runtime error: ([^\n]*)", err)
    if m:
        return "UndefinedBehavior:" + re.sub(r"[^A-Za-z]+", "-", m.group(1))[:50]
    return None


def run_one(prop, run, tier, seed, idx):
    tgt, san, args = run["target"], run.get("san", "asan"), run.get("args", {})
    binp, und = vb.build(tgt, TARGETS[tgt], san)
    scratch = f"{vb.B}/run/{prop}-{idx}-{os.getpid()}"
    os.makedirs(scratch, exist_ok=True)
    out = f"{scratch}/out.json"
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0:handle_abort=0:detect_stack_use_after_return=1:allocator_may_return_null=1:" + run.get("asan", "")
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:abort_on_error=1:halt_on_error=1"
    e["TSAN_OPTIONS"] = f"halt_on_error=1:abort_on_error=1:second_deadlock_stack=1:history_size=4:suppressions={V}/lib/tsan.supp"
    if san != "none":
        e["VH_SAN"] = san
    cmd = [binp, f"--seed={seed}", f"--tier={tier}", f"--out={out}", f"--scratch={scratch}"] + [f"--{k}={v}" for k, v in args.items()]
    limit = run.get("timeout", 300 if tier == "quick" else 3600)
    attempts = 0
    while True:
        attempts += 1
        if os.path.exists(out):
            os.remove(out)
        t0 = time.time()
        timed = False
        with open(f"{scratch}/err", "wb") as ef:
            p = subprocess.Popen(cmd, stdout=ef, stderr=ef, cwd=scratch, env=e, start_new_session=True)
            try:
                rc = p.wait(limit)
            except subprocess.TimeoutExpired:
                timed = True
                os.killpg(p.pid, signal.SIGKILL)
                rc = p.wait()
        err = open(f"{scratch}/err", errors="replace").read()
        if timed and attempts < 2:
            continue
        break
    res = {}
    if os.path.exists(out):
        try:
            res = json.load(open(out))
        except Exception:
            res = {}
    fails, broken = list(res.get("fails", [])), None
    where = res.get("case", "")
    if timed:
        # Two watchdog expiries in a row, on a workload bounded by case count.
        if run.get("hang_is_violation", True):
            fails.append({"key": "no-progress", "detail": f"no result within {limit} s, twice; last case: {where}; tail: {err[-1500:]}"})
        else:
            broken = f"timeout {limit}s"
    elif rc == 0 and res.get("status") == "ok":
        pass
    elif rc == 10 and fails:
        pass
    elif rc in (3, 77) or "VERIF-STUB" in err:
        broken = f"exit {rc}: " + err[-3000:]
    else:
        s = san_summary(err)
        m = re.search(r"F\d{4,8} [^\n]*?([\w_]+\.(?:cc|h)):\d+\][^\n]*", err) or re.search(r"([\w_]+\.(?:cc|h)):\d+\] Check failed[^\n]*", err)
        if s:
            key = s
        elif m:
            key = "check-failed:" + m.group(1)
        elif "terminate called" in err:
            key = "uncaught-exception"
        elif rc < 0:
            key = f"signal-{-rc}"
        else:
            key, broken = None, f"exit {rc}: " + err[-3000:]
        if key:
            fails.append({"key": key, "detail": f"case: {where}\n" + err[-7000:]})
    res["wall"] = time.time() - t0
    res["und"] = len(und)
    shutil.rmtree(scratch, ignore_errors=True)
    return res, fails, broken


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    chk = CHECKS[prop]
    t0 = time.time()
    allf, notes, cov, runs = [], [], {"evaluations": 0, "distinct_nontrivial": 0, "rule": chk["rule"], "samples": [], "observed": {}, "runs": []}, chk["runs"]
    for i, run in enumerate(runs):
        if run.get("tier") and run["tier"] != tier:
            continue
        try:
            if run.get("py"):
                import importlib
                res, fails, broken = importlib.import_module(run["py"]).run(prop, run, tier, seed)
            else:
                res, fails, broken = run_one(prop, run, tier, seed, i)
        except vb.BuildError as ex:
            print(str(ex)[-8000:])
            print(f"ERROR property={prop} harness does not build")
            sys.exit(2)
        except subprocess.TimeoutExpired as ex:
            print(f"ERROR property={prop} build timeout {ex}")
            sys.exit(2)
        if broken:
            print(f"ERROR property={prop} run={i}: {broken}")
            if not fails:
                sys.exit(2)
        cov["evaluations"] += res.get("evaluations", 0)
        cov["distinct_nontrivial"] += res.get("distinct", 0)
        label = run.get("label") or f"{run.get('target', run.get('py'))}/{run.get('san', 'asan')}"
        cov["samples"] += [f"[{label}] {s}" for s in res.get("samples", [])]
        for k, v in res.get("counts", {}).items():
            cov["observed"][k] = cov["observed"].get(k, 0) + v
        cov["runs"].append({"run": label, "evaluations": res.get("evaluations", 0), "distinct": res.get("distinct", 0), "wall_s": round(res.get("wall", 0), 2)})
        for f in fails:
            f["run"] = label
            f["cmd"] = run
        allf += fails
    kn = [(p, k, d) for p, k, d in known_findings() if p == prop]
    new, seen = [], set()
    for f in allf:
        hit = [x for x in kn if x[1] == f["key"]]
        if hit:
            if f["key"] not in seen:
                print(f"KNOWN-FINDING: property={prop} {hit[0][2]}")
            seen.add(f["key"])
        else:
            new.append(f)
    if not new:
        # A run that saw nothing decides nothing.
        for k, lo in chk.get("require", {}).items():
            if cov["observed"].get(k, 0) < lo:
                print(f"ERROR property={prop}: observed {k}={cov['observed'].get(k, 0)} < {lo}")
                sys.exit(2)
        if cov["evaluations"] == 0:
            print(f"ERROR property={prop}: no case evaluated")
            sys.exit(2)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": chk.get("level", "exploration"), "coverage": cov,
          "assumptions": chk.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    cov["samples"] = cov["samples"][:24] or ["(none)"]
    os.makedirs(f"{V}/evidence", exist_ok=True)
    json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    if new:
        rdir = f"{vb.B}/replay"
        os.makedirs(rdir, exist_ok=True)
        rp = f"{rdir}/{prop}-{tier}-{seed}.json"
        json.dump({"property": prop, "seed": seed, "tier": tier, "reproduce": f"VERIF_SEED={seed} python3 {V}/run.py {prop} {tier}", "violations": new}, open(rp, "w"), indent=1)
        for f in new[:6]:
            print(f"violation key={f['key']} run={f['run']}: {f['detail'][:1500]}")
        print(f"VIOLATION property={prop} replay={rp}")
        sys.exit(1)
    print(f"OK property={prop} tier={tier} seed={seed} evaluations={cov['evaluations']} distinct={cov['distinct_nontrivial']} wall={ev['wall_s']}")
    sys.exit(0)


if __name__ == "__main__":
    main()
