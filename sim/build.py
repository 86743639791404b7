#!/usr/bin/env python3
"""Builds, from /repo's working tree, the TEE and client libraries of the simulator and its driver.

Variant A: AddressSanitizer + load/store/edge hooks.  Variant T: every access reported to the simulator's own
race detector (compiled with -fsanitize=thread, linked against the simulator instead of the TSan runtime).
Nothing is written in /repo.  Output goes to /verif/build/<variant>-<hash of everything it depends on>.
"""
import hashlib, os, subprocess, sys, shutil, glob, re, fcntl, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SIM_REPO", "/repo")
SRC = REPO + "/reference/src"
BUILD = os.environ.get("SIM_BUILD", VERIF + "/build")
NPROC = 8
NCLIENTS = 4

INC = ["taimpl/include", "client/include", "util/include", "taimpl/include/internal", "clientimpl/src/internal",
       "clientimpl/src/porting", "clientimpl/include", "client/src"]
INCFLAGS = ["-I%s/%s" % (SRC, i) for i in INC] + ["-isystem", REPO + "/reference/include"]

COMMON = ["clang", "-std=gnu11", "-g1", "-O1", "-fPIC", "-fno-omit-frame-pointer", "-w", "-fno-builtin-memcmp",
          "-Werror=implicit-function-declaration", "-D_GNU_SOURCE", "-DENABLE_SOC_KEY_TESTS"]
VAR = {
    "A": ["-fsanitize=address,bounds", "-fno-sanitize-recover=all",
          "-fsanitize-coverage=edge,trace-pc-guard,trace-loads,trace-stores"],
    "T": ["-fsanitize=thread"],
}
# byte-at-a-time primitives: still sanitised, but not a scheduling point per byte
NOCOV_A = ["-fsanitize=address,bounds", "-fno-sanitize-recover=all"]
NOCOV_FILES = {"memory.c"}

CXX = ["clang++", "-std=c++20", "-g1", "-O1", "-fno-omit-frame-pointer", "-Wall", "-Wno-unused-function",
       "-Wno-deprecated-declarations"]


def sources():
    def rec(d):
        r = []
        for root, dirs, files in os.walk(os.path.join(SRC, d)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(".c"):
                    r.append(os.path.join(root, f))
        return r
    return {"ta": rec("taimpl/src") + rec("util/src"), "client": rec("clientimpl/src"), "prov": rec("client/src")}


def all_inputs():
    files = []
    for root, dirs, fs in os.walk(REPO + "/reference"):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "test", "tests", "doc"))
        for f in sorted(fs):
            if f.endswith((".c", ".h", ".p12")):
                files.append(os.path.join(root, f))
    files.append(REPO + "/reference/test/root_keystore.p12")
    for f in sorted(glob.glob(HERE + "/*")):
        if os.path.isfile(f) and f.endswith((".cc", ".h", ".S", ".py", ".txt")) and not f.endswith("check.py"):
            files.append(f)
    return files


def digest(files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode() + b"\0")
        try:
            with open(f, "rb") as fd:
                h.update(fd.read())
        except FileNotFoundError:
            h.update(b"-")
        h.update(b"\0")
    return h.hexdigest()[:20]


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        sys.stderr.write("BUILD FAILED: %s\n%s\n" % (" ".join(cmd), p.stdout[-6000:]))
        raise SystemExit(3)
    return p.stdout


def seam_map():
    """symbol -> seam name, per library, from seams.txt"""
    ta, cl, pr, faults = {}, {}, {}, []
    for line in open(HERE + "/seams.txt"):
        line = line.split("#")[0].split()
        if not line:
            continue
        kind, names = line[0], line[1:]
        for n in names:
            if kind == "both":
                ta[n] = cl[n] = pr[n] = "sim_" + n
            elif kind == "perlib":
                ta[n] = "sim_ta_" + n
                cl[n] = "sim_cl_" + n
                pr[n] = "sim_pr_" + n
            elif kind == "ta":
                ta[n] = "sim_" + n
            elif kind == "client":
                cl[n] = "sim_" + n
            elif kind == "fault":
                ta[n] = "simf_" + n
                faults.append(n)
            elif kind == "pfault":
                pr[n] = "simf_" + n
                if n not in faults:
                    faults.append(n)
            elif kind == "prov":
                pr[n] = "sim_pr_" + n
    return ta, cl, pr, faults


def gen_tramp(faults, out):
    # One trampoline per OpenSSL entry point that can fail: ask the simulator whether this call fails; if so
    # return 0/NULL, else tail-call the real function with its arguments untouched.
    with open(out, "w") as f:
        f.write(".text\n")
        for i, n in enumerate(faults):
            f.write(f"""
.globl simf_{n}
.type simf_{n},@function
simf_{n}:
  pushq %rbp
  movq %rsp,%rbp
  pushq %rdi
  pushq %rsi
  pushq %rdx
  pushq %rcx
  pushq %r8
  pushq %r9
  pushq %rax
  subq $136,%rsp
  movups %xmm0,0(%rsp)
  movups %xmm1,16(%rsp)
  movups %xmm2,32(%rsp)
  movups %xmm3,48(%rsp)
  andq $-16,%rsp
  movl ${i},%edi
  movq %rbp,%rsi
  call sim_ossl_fault
  movl %eax,%r11d
  leaq -192(%rbp),%rsp
  movups 0(%rsp),%xmm0
  movups 16(%rsp),%xmm1
  movups 32(%rsp),%xmm2
  movups 48(%rsp),%xmm3
  leaq -56(%rbp),%rsp
  popq %rax
  popq %r9
  popq %r8
  popq %rcx
  popq %rdx
  popq %rsi
  popq %rdi
  popq %rbp
  testl %r11d,%r11d
  jne 1f
  jmp *real_{n}(%rip)
1: xorl %eax,%eax
  ret
.size simf_{n},.-simf_{n}
""")
        f.write(".data\n.align 8\n")
        for n in faults:
            f.write(f"real_{n}: .quad {n}\n")
        f.write(".section .rodata\n.globl sim_fault_names\nsim_fault_names:\n")
        for i, n in enumerate(faults):
            f.write(f" .quad .Lfn{i}\n")
        f.write(" .quad 0\n")
        for i, n in enumerate(faults):
            f.write(f".Lfn{i}: .asciz \"{n}\"\n")
        f.write(".section .note.GNU-stack,\"\",@progbits\n")


def undefined(obj):
    out = subprocess.run(["nm", "-u", obj], stdout=subprocess.PIPE, text=True).stdout
    return set(l.split()[-1].split("@")[0] for l in out.splitlines() if l.strip())


def defined(obj):
    out = subprocess.run(["nm", "--defined-only", obj], stdout=subprocess.PIPE, text=True).stdout
    return set(l.split()[-1] for l in out.splitlines() if l.strip())


PORTING = {  # seams on functions the TEE itself defines: references from other objects go to the simulator
    "ta": ["transport_authenticate_caller", "video_output_poll", "memory_is_valid_svp", "memory_is_valid_clear",
           "log_entry"],
    "client": ["log_entry", "ta_open_session_handler", "ta_close_session_handler", "ta_invoke_command_handler"],
    "prov": ["log_entry"],
}


def compile_lib(variant, lib, srcs, d):
    ta, cl, pr, _ = seam_map()
    smap = {"ta": ta, "client": cl, "prov": pr}[lib]
    objs = []

    def one(src):
        name = lib + "_" + re.sub(r"[^A-Za-z0-9]", "_", os.path.relpath(src, SRC)) + ".o"
        obj = os.path.join(d, name)
        flags = VAR[variant]
        if variant == "A" and os.path.basename(src) in NOCOV_FILES:
            flags = NOCOV_A
        run(COMMON + flags + INCFLAGS + ["-c", src, "-o", obj])
        und, dfn = undefined(obj), defined(obj)
        args = []
        for u in sorted(und):
            if u in smap:
                args += ["--redefine-sym", u + "=" + smap[u]]
            elif u in PORTING[lib] and u not in dfn:
                args += ["--redefine-sym", u + "=sim_" + u]
        base = os.path.basename(src)
        if lib == "client" and "sa_svp_memory_alloc" in dfn and "malloc" in und:
            args = ["--redefine-sym", "malloc=sim_svp_malloc"] + [a for i, a in enumerate(args)]
            args = fix(args, "malloc", "sim_svp_malloc")
        if lib == "client" and "sa_svp_memory_free" in dfn and "free" in und:
            args = fix(args, "free", "sim_svp_free")
        if args:
            run(["objcopy"] + args + [obj])
        return obj

    def fix(args, sym, to):
        res = []
        i = 0
        while i < len(args):
            if args[i + 1].split("=")[0] != sym:
                res += args[i:i + 2]
            i += 2
        return res + ["--redefine-sym", sym + "=" + to]

    with ThreadPoolExecutor(NPROC) as ex:
        objs = list(ex.map(one, srcs))
    return objs


def prune(keep):
    """keep the newest few build directories"""
    ds = [p for p in glob.glob(BUILD + "/[AT]-*") if os.path.isdir(p) and p != keep]
    ds.sort(key=os.path.getmtime)
    for p in ds[:-6]:
        shutil.rmtree(p, ignore_errors=True)


def sim_objects(variant, d):
    """compiles the simulator itself (independent of /repo's sources except its public headers)"""
    ccs = sorted(glob.glob(HERE + "/*.cc"))
    heads = sorted(glob.glob(HERE + "/*.h")) + [HERE + "/build.py", HERE + "/seams.txt"]
    pub = []
    for root, dirs, fs in os.walk(SRC + "/client/include"):
        pub += [os.path.join(root, f) for f in sorted(fs)]
    for f in ("ta.h", "ta_sa_types.h"):
        pub.append(SRC + "/taimpl/include/" + f)
    cache = BUILD + "/simobj"
    os.makedirs(cache, exist_ok=True)
    _, _, _, faults = seam_map()
    objs = []

    def one(cc):
        h = digest([cc] + heads + pub)
        o = os.path.join(cache, "%s-%s-%s.o" % (variant, os.path.basename(cc), h))
        if not os.path.exists(o):
            for old in glob.glob(os.path.join(cache, "%s-%s-*.o" % (variant, os.path.basename(cc)))):
                if time.time() - os.path.getmtime(old) > 3600:
                    os.unlink(old)
            tmp = o + ".%d.tmp" % os.getpid()
            run(CXX + (["-fsanitize=address"] if variant == "A" else []) +
                ["-DVARIANT_" + variant, "-I" + HERE, "-I%s/client/include" % SRC, "-I%s/taimpl/include" % SRC,
                 "-c", cc, "-o", tmp])
            os.rename(tmp, o)
        return o

    with ThreadPoolExecutor(NPROC) as ex:
        objs = list(ex.map(one, ccs))
    s = os.path.join(d, "tramp.S")
    gen_tramp(faults, s)
    so = os.path.join(d, "tramp.o")
    run(["clang", "-c", s, "-o", so])
    return objs + [so]


def build(variant, quiet=True):
    os.makedirs(BUILD, exist_ok=True)
    h = digest(all_inputs())
    d = os.path.join(BUILD, "%s-%s" % (variant, h))
    lock = open(os.path.join(BUILD, "lock-" + variant), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(d + "/ok"):
            os.utime(d)
            return d
        if os.path.exists(d):
            shutil.rmtree(d)
        os.makedirs(d)
        s = sources()
        prune(d)
        so = sim_objects(variant, d)
        libs = []
        san = ["-fsanitize=address,bounds"] if variant == "A" else []
        taobjs = compile_lib(variant, "ta", s["ta"], d)
        run(["clang", "-shared", "-Wl,-Bsymbolic", "-Wl,-soname,libta.so", "-Wl,-z,now", "-o", d + "/libta.so"] + san +
            taobjs + ["-lcrypto", "-lyajl"])
        clobjs = compile_lib(variant, "client", s["client"], d)
        run(["clang", "-shared", "-Wl,-Bsymbolic", "-Wl,-soname,libclient.so", "-Wl,-z,now", "-o", d + "/libclient0.so"]
            + san + clobjs)
        for k in range(1, NCLIENTS):
            # a distinct file (and soname) per process, so that each has its own data
            run(["clang", "-shared", "-Wl,-Bsymbolic", "-Wl,-soname,libclient%d.so" % k, "-Wl,-z,now", "-o",
                 d + "/libclient%d.so" % k] + san + clobjs)
        # the OpenSSL provider of process 0, on top of that process's client library
        probjs = compile_lib(variant, "prov", s["prov"] + [x for x in s["ta"] if "/util/src/" in x], d)
        run(["clang", "-shared", "-Wl,-Bsymbolic", "-Wl,-soname,libprov.so", "-Wl,-z,now", "-Wl,-rpath,$ORIGIN", "-o",
             d + "/libprov.so"] + san + probjs + [d + "/libclient0.so", "-lcrypto"])
        run(["clang++", "-o", d + "/sim", "-rdynamic"] + (["-fsanitize=address", "-shared-libasan"] if False else
            (["-fsanitize=address"] if variant == "A" else [])) + so + ["-lcrypto", "-ldl", "-lpthread"])
        shutil.copy(REPO + "/reference/test/root_keystore.p12", d + "/root_keystore.p12")
        for o in glob.glob(d + "/*.o"):
            os.unlink(o)
        open(d + "/ok", "w").write("ok\n")
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
    return d


if __name__ == "__main__":
    t = time.time()
    for v in (sys.argv[1:] or ["A", "T"]):
        print(build(v))
    print("build %.1fs" % (time.time() - t))
