"""Compiles the SDK's serialization package (as it stands in the tree) with the harness, runs it, returns a vh-style result.
Lombok is not installed: its field accessors are generated by a small source expansion into a scratch copy."""
import glob, hashlib, json, os, re, shutil, subprocess, time
import vb

ROOT = "java/dingo-sdk/src/main/java"
FILES = [f"{ROOT}/io/dingodb/sdk/common/serial"]


def accessors(t, n):
    c = n[0].upper() + n[1:]
    g = ("is" if t == "boolean" else "get") + c
    return f"    public {t} {g}() {{ return this.{n}; }}\n", f"    public void set{c}({t} {n}) {{ this.{n} = {n}; }}\n"


def delombok(src):
    lines, out, depth = src.split("\n"), [], 0
    pend, classes = set(), []  # classes: (depth inside, annotations)
    for l in lines:
        s = l.strip()
        if s.startswith("import lombok."):
            out.append("")
            continue
        m = re.fullmatch(r"@(Getter|Setter|AllArgsConstructor|NoArgsConstructor|ToString|EqualsAndHashCode)(\(.*\))?", s)
        if m:
            pend.add(m.group(1))
            out.append("")
            continue
        code = re.sub(r'"(\\.|[^"\\])*"|\'(\\.|[^\'\\])*\'|//.*', '', l)
        iscls = re.search(r"\b(class|enum|interface)\s+\w+", code) and not s.startswith("*")
        fm = re.match(r"\s*(?:private|protected)\s+(?!static)(?:final\s+)?([\w<>\[\], ]+?)\s+(\w+)\s*(=[^;]*)?;", code)
        out.append(l)
        if s and not s.startswith("*") and not s.startswith("/*"):
            if iscls:
                classes.append((depth + 1, set(pend)))
                pend = set()
            elif fm and not s.startswith("@"):
                ann = set(pend)
                for d, a in classes:
                    if d == depth:
                        ann |= a
                g, st = accessors(fm.group(1), fm.group(2))
                text = src
                if "Getter" in ann:
                    out.append(g)
                if "Setter" in ann and "final " not in code:
                    out.append(st)
                pend = set()
            elif not s.startswith("@"):
                pend = set()
        if not s.startswith("*"):
            depth += code.count("{") - code.count("}")
        classes = [(d, a) for d, a in classes if d <= depth + (1 if iscls else 0)]
    return "\n".join(out)


def run(prop, run, tier, seed):
    work = f"{vb.B}/java/{prop}-{os.getpid()}"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(f"{work}/src"); os.makedirs(f"{work}/cls")
    try:
        srcs = []
        for f in FILES:
            for p in glob.glob(f"{vb.REPO}/{f}/**/*.java", recursive=True):
                q = f"{work}/src/{os.path.relpath(p, vb.REPO + '/' + ROOT)}"
                os.makedirs(os.path.dirname(q), exist_ok=True)
                open(q, "w").write(delombok(open(p, encoding="utf-8").read()))
                srcs.append(q)
        srcs += glob.glob(f"{vb.V}/harness/java/stub/**/*.java", recursive=True)
        srcs.append(f"{vb.V}/harness/java/{run['main']}.java")
        r = subprocess.run(["javac", "-nowarn", "-proc:none", "-encoding", "UTF-8", "-sourcepath", f"{work}/cls", "-cp", f"{work}/cls", "-d", f"{work}/cls"] + srcs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise vb.BuildError("javac: " + r.stdout[-6000:])
        out = f"{work}/out.json"
        t0 = time.time()
        limit = 300 if tier == "quick" else 3600
        try:
            r = subprocess.run(["java", "-ea", "-Xmx2g", "-XX:-OmitStackTraceInFastThrow", "-XX:+UseSerialGC", "-cp", f"{work}/cls", run["main"], run["mode"], str(seed), tier, out],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit)
            rc, txt = r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            return {}, [{"key": "no-progress", "detail": f"no result within {limit} s"}], None
        res = json.load(open(out)) if os.path.exists(out) else {}
        res["wall"] = time.time() - t0
        if rc == 0 and res.get("status") == "ok":
            return res, [], None
        if rc == 10:
            return res, res["fails"], None
        return res, [], f"java exit {rc}: {txt[-3000:]}"
    finally:
        shutil.rmtree(work, ignore_errors=True)
