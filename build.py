#!/usr/bin/env python3
"""Builds harnesses (and the two command-line programs) from /repo's current
working tree.  Objects are cached by *content* (sources, every header, flags),
never by time stamps, so a changed tree is always rebuilt."""
import hashlib, os, subprocess, sys, glob, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
OUT = os.path.join(VERIF, "build")

VARIANTS = {
    # in-process harnesses: sanitized, asserts on (as in the project's own test build)
    "asan": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread", "-D_GLIBCXX_ASSERTIONS"],
    # like asan; the code under test also reports the blocks it runs (see Coverage in lib/pbt.h)
    "cov": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
    # throughput variant for the differential checks, asserts on
    "fast": ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS"],
}
COMMON = ["-std=c++20", "-DLOG_LEVEL=0", "-w", "-I" + SRC, "-I" + os.path.join(SRC, "common"),
          "-I" + os.path.join(VERIF, "lib"), "-pthread"]

LIB_DIRS = ["common", "t86", "t86-parser", "debugger"]


def repo_sources():
    res = []
    for d in LIB_DIRS:
        for root, _, files in os.walk(os.path.join(SRC, d)):
            for f in sorted(files):
                if f.endswith(".cpp"):
                    res.append(os.path.join(root, f))
    return sorted(res)


def headers_digest():
    h = hashlib.sha256()
    hs = []
    for base in (SRC, os.path.join(VERIF, "lib")):
        for root, dirs, files in os.walk(base):
            dirs[:] = sorted(d for d in dirs if d not in ("tests", "benchmarks"))
            for f in sorted(files):
                if f.endswith((".h", ".hpp")):
                    hs.append(os.path.join(root, f))
    for p in sorted(hs):
        h.update(p.encode())
        h.update(open(p, "rb").read())
    return h.digest()


def repo_headers_digest():
    h = hashlib.sha256()
    hs = []
    for root, dirs, files in os.walk(SRC):
        dirs[:] = sorted(d for d in dirs if d not in ("tests", "benchmarks"))
        for f in sorted(files):
            if f.endswith((".h", ".hpp")):
                hs.append(os.path.join(root, f))
    for p in sorted(hs):
        h.update(p.encode())
        h.update(open(p, "rb").read())
    return h.digest()


def compile_one(args):
    src, flags, hd, outdir, cc = args
    key = hashlib.sha256()
    key.update(hd)
    key.update(src.encode())
    key.update(" ".join([cc] + flags).encode())
    key.update(open(src, "rb").read())
    obj = os.path.join(outdir, os.path.basename(src).replace(".", "_") + "-" + key.hexdigest()[:24] + ".o")
    if os.path.exists(obj):
        return obj, None
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run([cc] + flags + ["-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode != 0:
        return None, "%s\n%s" % (src, r.stderr[-6000:])
    os.replace(tmp, obj)
    return obj, None


TARGETS = {}  # name -> (extra sources, variant, extra link flags)


def build(name, variant="asan", exe_sources=None, extra_flags=(), quiet=True):
    """Builds build/<name>-<variant> and returns its path."""
    vflags = VARIANTS[variant]
    outdir = os.path.join(OUT, "obj-" + variant)
    os.makedirs(outdir, exist_ok=True)
    hd_repo = repo_headers_digest()
    hd_all = headers_digest()
    jobs = []
    for s in repo_sources():
        jobs.append((s, COMMON + vflags + (["-fsanitize-coverage=trace-pc"] if variant == "cov" else []), hd_repo, outdir, "g++"))
    for s in exe_sources:
        if s.endswith(".c"):
            jobs.append((s, ["-w"] + vflags, hd_repo, outdir, "gcc"))
        else:
            jobs.append((s, COMMON + vflags + list(extra_flags), hd_all, outdir, "g++"))
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        # heaviest translation units first
        jobs.sort(key=lambda j: -os.path.getsize(j[0]))
        res = list(ex.map(compile_one, jobs))
    errs = [e for _, e in res if e]
    if errs:
        sys.stderr.write("\n".join(errs[:3]) + "\n")
        raise SystemExit(3)
    objs = sorted(o for o, _ in res)
    h = hashlib.sha256("\n".join(objs).encode()).hexdigest()[:16]
    exe = os.path.join(OUT, "%s-%s-%s" % (name, variant, h))
    if not os.path.exists(exe):
        for old in glob.glob(os.path.join(OUT, "%s-%s-*" % (name, variant))):
            try:
                os.remove(old)
            except OSError:
                pass
        tmp = exe + ".tmp%d" % os.getpid()
        r = subprocess.run(["g++"] + vflags + ["-pthread", "-o", tmp] + objs + ["-lfmt"], capture_output=True, text=True)
        if r.returncode != 0:
            sys.stderr.write(r.stderr[-4000:])
            raise SystemExit(3)
        os.replace(tmp, exe)
    return exe


def build_harness(name, variant="asan"):
    return build(name, variant, [os.path.join(VERIF, "harness", name + ".cpp")])


def build_cli(which, variant="asan"):
    d = os.path.join(SRC, which)
    srcs = []
    for root, dirs, files in os.walk(d):
        dirs[:] = sorted(x for x in dirs if x != "tests")
        srcs += [os.path.join(root, f) for f in sorted(files) if f.endswith((".cpp", ".c"))]
    return build(which, variant, srcs)


if __name__ == "__main__":
    for n in sys.argv[1:]:
        n, _, v = n.partition(":")
        v = v or "asan"
        print(build_cli(n, v) if n in ("t86-cli", "dbg-cli") else build_harness(n, v))
