"""Builds nzbget's sources (taken from /repo's working tree) with AddressSanitizer, and
the harnesses of /verif/cpp against them.  Objects are cached under /verif/build by the
hash of their text, of all headers and of the flags; nothing is written in /repo."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
OUT = os.path.join(VERIF, "build")
CPP = os.path.join(VERIF, "cpp")
CXX = "clang++"
DIRS = ["connect", "extension", "feed", "frontend", "main", "nntp", "nserv",
        "postprocess", "queue", "remote", "util"]
BASE = ["-std=c++14", "-w", "-O1", "-g1", "-fno-omit-frame-pointer", "-DHAVE_CONFIG_H",
        "-D_DEFAULT_SOURCE", "-D_XOPEN_SOURCE=600", "-U_FORTIFY_SOURCE", "-pthread"]
SAN = {"asan": ["-fsanitize=address"],
       "fuzz": ["-fsanitize=address,fuzzer-no-link", "-fno-sanitize=vptr"],
       "plain": []}
LIBS = ["-lxml2", "-lncurses", "-ltinfo", "-lgnutls", "-lnettle", "-lz", "-lpthread"]
# calls made by nzbget that the shim stands in front of (fake clock, kill points)
WRAP = ["time", "gettimeofday", "fopen", "fopen64", "fwrite", "fclose", "fflush", "rename", "unlink", "remove",
        "fdatasync", "fsync", "mkdir", "rmdir", "ftruncate", "ftruncate64", "open", "open64"]


class BuildError(Exception):
    pass


def incs():
    r = [os.path.join(CPP, "config")]
    r += [os.path.join(REPO, "daemon", d) for d in DIRS]
    r += [os.path.join(REPO, "lib/par2"), os.path.join(REPO, "lib/yencode"),
          "/usr/include/libxml2", "/usr/include/p11-kit-1", CPP]
    return ["-I" + d for d in r]


def sources():
    s = []
    for d in DIRS:
        s += sorted(glob.glob(os.path.join(REPO, "daemon", d, "*.cpp")))
    s += sorted(glob.glob(os.path.join(REPO, "lib/par2", "*.cpp")))
    s += sorted(glob.glob(os.path.join(REPO, "lib/yencode", "*.cpp")))
    s.append(os.path.join(CPP, "config", "code_revision.cpp"))
    return s


def extra(src):
    b = os.path.basename(src)
    f, pch = [], True
    if "/lib/par2/" in src:
        pch = False
    if "/lib/yencode/" in src:
        pch = False
        if "Sse2" in b: f = ["-msse2"]
        elif "Ssse3" in b: f = ["-mssse3"]
        elif "Pclmul" in b: f = ["-msse4.1", "-mpclmul"]
    if b == "code_revision.cpp":
        pch = False
    if b == "nzbget.cpp":
        pch = False
    return f, pch


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str): p = p.encode()
        h.update(len(p).to_bytes(8, "little")); h.update(p)
    return h.hexdigest()[:32]


def headers_hash():
    fs = []
    for r in ("daemon", "lib"):
        for d, _, names in os.walk(os.path.join(REPO, r)):
            fs += [os.path.join(d, n) for n in names if n.endswith((".h", ".hpp", ".inc"))]
    fs += [os.path.join(CPP, "config", "config.h"), os.path.join(CPP, "config", "pch.h")]
    h = hashlib.sha256()
    for f in sorted(fs):
        h.update(os.path.relpath(f, "/").encode()); h.update(rd(f))
    return h.hexdigest()


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout.decode("utf8", "replace")[-6000:])


def compile_one(src, flags, hh, pch, defs=()):
    f, use = extra(src)
    if "/lib/yencode/" in src:
        # by design the SIMD kernels read the rest of the last aligned 16-byte block, which
        # AddressSanitizer would report; harnesses check the bytes behind buffers instead
        flags = [x for x in flags if not x.startswith("-fsanitize")]
    allf = BASE + flags + f + list(defs)
    # an included .cpp (SimdDecoder & co. include code) is covered by hashing siblings
    sib = b"".join(rd(x) for x in sorted(glob.glob(os.path.join(os.path.dirname(src), "*.cpp")))) \
        if "/lib/yencode/" in src else b""
    key = sha(rd(src), os.path.basename(src), hh, " ".join(allf), sib, CXX)
    obj = os.path.join(OUT, "obj", key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        cmd = [CXX] + allf + incs() + (["-include-pch", pch] if use and pch else []) + ["-c", src, "-o", tmp]
        run(cmd)
        os.rename(tmp, obj)
    else:
        os.utime(obj)
    return obj


def objects(kind="asan", nomain=False):
    """All objects of the program; nomain: with main() renamed to nzbget_main()."""
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    os.makedirs(os.path.join(OUT, "bin"), exist_ok=True)
    flags = SAN[kind]
    hh = headers_hash()
    pkey = "t" + sha(hh, " ".join(BASE + flags), CXX)
    pch = os.path.join(OUT, "obj", pkey + ".pch")
    ex = ThreadPoolExecutor(os.cpu_count() or 4)
    nopch = [s for s in sources() if not extra(s)[1]]
    # sources that take no PCH need not wait for it
    futs = {}
    for s in nopch:
        defs = ["-Dmain=nzbget_main"] if nomain and os.path.basename(s) == "nzbget.cpp" else []
        futs[s] = ex.submit(compile_one, s, flags, hh, None, defs)
    if not os.path.exists(pch):
        tmp = pch + ".%d.tmp" % os.getpid()
        run([CXX] + BASE + flags + incs() + ["-Xclang", "-fno-pch-timestamp", "-x", "c++-header", os.path.join(CPP, "config/pch.h"), "-o", tmp])
        os.rename(tmp, pch)
    rest = sorted([s for s in sources() if extra(s)[1]], key=lambda s: -os.path.getsize(s))
    for s in rest:
        futs[s] = ex.submit(compile_one, s, flags, hh, pch)
    objs = [futs[s].result() for s in sources()]
    ex.shutdown()
    return objs, hh, pch


class Lock:
    def __enter__(self):
        os.makedirs(OUT, exist_ok=True)
        self.f = open(os.path.join(OUT, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()


def link(objs, extra_objs, flags, name, wrap=()):
    key = sha(" ".join(objs), " ".join(extra_objs), " ".join(flags), " ".join(wrap))
    exe = os.path.join(OUT, "bin", "%s-%s" % (name, key))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        run([CXX, "-pthread", "-g1"] + (["-fuse-ld=lld"] if os.path.exists("/usr/bin/ld.lld") or os.path.exists("/usr/lib/llvm-18/bin/ld.lld") else []) + flags +
            ["-Wl,--wrap=" + w for w in wrap] + extra_objs + objs + LIBS + ["-ldl", "-o", tmp])
        os.rename(tmp, exe)
    else:
        os.utime(exe)
    return exe


def prune():
    """Keeps the cache below a few GB."""
    fs = []
    for d in ("obj", "bin"):
        for n in os.listdir(os.path.join(OUT, d)):
            p = os.path.join(OUT, d, n)
            try: st = os.stat(p)
            except OSError: continue
            fs.append((st.st_mtime, st.st_size, p))
    tot = sum(f[1] for f in fs)
    for m, s, p in sorted(fs):
        if tot < 6 << 30: break
        try: os.unlink(p)
        except OSError: pass
        tot -= s


def daemon(kind="asan"):
    with Lock():
        objs, hh, pch = objects(kind)
        shim = compile_one(os.path.join(CPP, "shim.cpp"), SAN[kind], "", None)
        exe = link(objs, [shim], SAN[kind], "nzbget-" + kind, WRAP)
        prune()
        return exe


def harness(name, kind="asan", wrap=(), extra_src=(), fuzz=False):
    """Links /verif/cpp/<name>.cpp with all of nzbget."""
    with Lock():
        k = "fuzz" if fuzz else kind
        objs, hh, pch = objects(k, nomain=True)
        h2 = sha(hh, *[rd(f) for f in sorted(glob.glob(os.path.join(CPP, "*.h")))])
        defs = ["-DPBT_FUZZ"] if fuzz else []
        mine = [compile_one(os.path.join(CPP, n + ".cpp"), SAN[k], h2, pch, defs) for n in (name,) + tuple(extra_src)]
        fl = ["-fsanitize=address,fuzzer"] if fuzz else SAN[k]
        exe = link(objs, mine, fl, name + ("-fuzz" if fuzz else ""), wrap)
        prune()
        return exe


if __name__ == "__main__":
    import time
    t = time.time()
    try:
        for a in sys.argv[1:] or ["daemon"]:
            print(daemon() if a == "daemon" else harness(a))
    except BuildError as e:
        print(e); sys.exit(2)
    print("%.1f s" % (time.time() - t))
