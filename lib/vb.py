"""Builds harness binaries from /repo's working tree (plus /verif's shims) with a content-keyed compiler cache."""
import glob, hashlib, os, re, shlex, subprocess, sys, concurrent.futures as cf, fcntl

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = f"{REPO}/src"
B = os.environ.get("VERIF_BUILD", f"{V}/build")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

DEFS = ["-DGLOG_CUSTOM_PREFIX_SUPPORT", "-DGLOG_USE_GLOG_EXPORT", "-DUSE_BTHREAD_MUTEX", "-DVERIF_HOOKS"]
# -w: the compiled code's warnings are not this framework's business.
COMMON = ["-std=c++17", "-w", "-pthread", "-fno-omit-frame-pointer", "-ffunction-sections", "-fdata-sections"]
SAN = {
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment", "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
    "none": ["-O1", "-g1"],
}
PROTO_FLAGS = ["-O0", "-g0"]


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(CCACHE_DIR=f"{B}/ccache", CCACHE_MAXSIZE="6G", CCACHE_NOHASHDIR="1", CCACHE_BASEDIR=V,
             CCACHE_SLOPPINESS="include_file_mtime,include_file_ctime,time_macros", LC_ALL="C")
    return e


def sh(cmd, cwd=None, timeout=800):
    r = subprocess.run(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors="replace", timeout=timeout)
    return r.returncode, r.stdout


def proto_files():
    return sorted(glob.glob(f"{V}/proto/*.proto"))


def gen_protos():
    out = f"{B}/pb/proto"
    os.makedirs(out, exist_ok=True)
    with open(f"{B}/pb.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = hashlib.sha256()
        for p in proto_files():
            h.update(p.encode() + open(p, "rb").read())
        stamp = f"{B}/pb/stamp"
        if os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
            return out
        rc, o = sh(["protoc", f"-I{V}/proto", f"--cpp_out={out}"] + proto_files())
        if rc:
            raise BuildError("protoc: " + o)
        # The project includes "proto/x.pb.h"; generated files include each other as "x.pb.h".
        open(stamp, "w").write(h.hexdigest())
    return out


def compile_one(job):
    src, obj, flags = job
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    cmd = ["ccache", "g++"] + flags + ["-c", src, "-o", obj]
    rc, o = sh(cmd)
    return rc, src, o


def objname(src, tag):
    return f"{B}/obj/{tag}/" + src.replace("/", "_") + ".o"


STUB_ASM_HEAD = """
.section .text.verifstub,"ax",@progbits
"""


def link(out, objs, libs, san, allow_stub):
    base = ["g++", "-pthread"] + [f for f in SAN[san] if f.startswith("-fsanitize")] + ["-no-pie", "-Wl,--gc-sections", "-rdynamic"]
    if not allow_stub:
        rc, o = sh(base + ["-o", out] + objs + libs)
        if rc:
            raise BuildError("link: " + o[-6000:])
        return []
    # First pass only to learn which symbols nothing defines.
    lkcmd = base + ["-Wl,--no-demangle", "-Wl,--warn-unresolved-symbols", "-o", out] + objs + libs
    rc, o = sh(lkcmd)
    if rc:
        raise BuildError("link: " + o[-6000:])
    und = sorted(set(re.findall(r"undefined reference to [`'\"]([^`'\"]+)['`\"]", o)))
    if und:
        asm = out + ".stubs.S"
        with open(asm, "w") as f:
            f.write('.section .note.GNU-stack,"",@progbits\n.text\n')
            for i, s in enumerate(und):
                if s.startswith(("_ZTV", "_ZTI", "_ZTS", "_ZTT")) or not s.startswith("_Z"):
                    f.write(f'.data\n.globl "{s}"\n.p2align 4\n.type "{s}",@object\n.size "{s}",256\n"{s}":\n')
                    if s.startswith("_ZTI"):
                        f.write(f"  .quad _ZTVN10__cxxabiv117__class_type_infoE+16\n  .quad .Lnm{i}\n  .zero 240\n")
                    elif s.startswith("_ZTS"):
                        f.write(f'  .asciz "{s[4:]}"\n')
                    else:
                        f.write(f"  .quad 0\n  .quad 0\n" + f"  .quad .Lstub{i}\n" * 40)
                else:
                    f.write(f'.text\n.globl "{s}"\n.type "{s}",@function\n"{s}":\n')
                f.write(f".text\n.Lstub{i}:\n  lea .Lnm{i}(%rip), %rdi\n  and $-16, %rsp\n  call verif_stub_hit\n")
                f.write(f'.section .rodata\n.Lnm{i}: .asciz "{s[4:] if s.startswith("_ZTI") else s}"\n')
        rc, o = sh(["gcc", "-c", asm, "-o", asm + ".o"])
        if rc:
            raise BuildError("stubs: " + o[-3000:])
        rc, o = sh(base + ["-o", out] + objs + [asm + ".o"] + libs)
        if rc:
            raise BuildError("link: " + o[-6000:])
    return und


def build(name, spec, san):
    """spec: harness (files under /verif), repo (files under src/), protos (names), flags {file: [..]}, stub, libs."""
    os.makedirs(B, exist_ok=True)
    inc = [f"-I{V}/harness"]
    if spec.get("shim", True):
        inc += [f"-I{V}/shim"]
    if spec.get("protos"):
        gen_protos()
        inc += [f"-I{B}/pb", f"-I{B}/pb/proto"]
    inc += [f"-I{SRC}"] + spec.get("inc", [])
    jobs, objs = [], []
    extra = spec.get("cflags", [])
    for s in spec.get("repo", []):
        f = f"{SRC}/{s}"
        fl = COMMON + SAN[san] + DEFS + inc + extra + spec.get("flags", {}).get(s, [])
        o = objname("repo_" + s, f"{name}-{san}")
        jobs.append((f, o, fl)); objs.append(o)
    for s in spec.get("harness", []):
        f = f"{V}/{s}"
        fl = COMMON + SAN[san] + DEFS + inc + extra
        o = objname(s, f"{name}-{san}")
        jobs.append((f, o, fl)); objs.append(o)
    if spec.get("stub"):
        o = objname("stubhit", f"{name}-{san}")
        jobs.append((f"{V}/shim/stubhit.cc", o, COMMON + SAN[san])); objs.append(o)
    pbs = spec.get("protos") or []
    if pbs == "all":
        pbs = [os.path.basename(p)[:-6] for p in proto_files()]
    for p in pbs:
        o = objname(p + ".pb", "pb")
        jobs.append((f"{B}/pb/proto/{p}.pb.cc", o, ["-std=c++17", "-w", "-pthread", "-ffunction-sections", "-fdata-sections"] + PROTO_FLAGS + [f"-I{B}/pb", f"-I{B}/pb/proto"])); objs.append(o)
    jobs.sort(key=lambda j: -os.path.getsize(j[0]) if os.path.exists(j[0]) else 0)
    with open(f"{B}/build-{name}-{san}.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with cf.ThreadPoolExecutor(JOBS) as ex:
            errs = [(s, o) for rc, s, o in ex.map(compile_one, jobs) if rc]
        if errs:
            raise BuildError("\n".join(f"--- {s}\n{o[:int(os.environ.get('VB_ERR', '5000'))]}" for s, o in errs))
        os.makedirs(f"{B}/bin", exist_ok=True)
        out = f"{B}/bin/{name}-{san}"
        libs = spec.get("libs", []) + (["-lprotobuf"] if pbs else []) + ["-lglog", "-lgflags", "-lfmt", "-lpthread", "-ldl"]
        und = link(out, objs, libs, san, spec.get("stub"))
    return out, und
