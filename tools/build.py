"""Builds harness binaries from /repo's current working tree (content-hash cached under /verif/build)."""
import hashlib, os, re, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor
V = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
REPO = os.environ.get("DSIM_REPO", "/repo")
BUILD = os.environ.get("DSIM_BUILD", os.path.join(V, "build"))

def sha(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:20]

def tree_hash(root, exts):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                p = os.path.join(d, f); h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def perl_flags():
    """compile and link flags for the embedded perl interpreter"""
    d = subprocess.run(["perl", "-MConfig", "-e", "print qq($Config{archlibexp}\\n$Config{libperl}\\n$Config{libpth})"], stdout=subprocess.PIPE).stdout.decode().split("\n")
    core = d[0] + "/CORE"
    for lib in [core + "/libperl.so"] + [p + "/" + d[1] for p in d[2].split()]:
        if os.path.exists(lib): break
    return ["-fwrapv", "-D_REENTRANT", "-I" + core], [lib]

def gen_headers(out):
    """what cmake's CONFIGURE_FILE does for the one generated header"""
    src = open(os.path.join(REPO, "include/Lintel/PThread.hpp.in")).read()
    src = src.replace("@HAS_PTHREAD_ISLOCKED@", "1").replace("@PTHREAD_ISLOCKED_EXPR@", "m.__data.__lock != 0")
    d = os.path.join(out, "Lintel"); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "PThread.hpp")
    if not os.path.exists(p) or open(p).read() != src:
        tmp = p + ".%d" % os.getpid(); open(tmp, "w").write(src); os.replace(tmp, p)
    return out

BASE = ["-g1", "-U_FORTIFY_SOURCE", "-std=gnu++17", "-w", "-fno-strict-aliasing", "-Dpthread_mutexattr_setkind_np=pthread_mutexattr_settype",
        "-DSYS_POSIX=1", "-DLIBLINTEL_VERSION=\"sim\"", "-DBOOST_BIND_GLOBAL_PLACEHOLDERS", "-DBOOST_ALLOW_DEPRECATED_HEADERS"]
MODES = {
    # every memory access of library and workload is a schedule point
    "tsan":  dict(lib=["-O1", "-fsanitize=thread"], har=["-O1", "-fsanitize=thread"], link=["-rdynamic"]),
    "asan":  dict(lib=["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"], har=["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"], link=["-fsanitize=address", "-rdynamic"]),
    "plain": dict(lib=["-O1"], har=["-O1"], link=["-rdynamic"]),
    # rewritten assembly: every instruction that touches shared memory is a schedule point, stores are buffered
    "tso": dict(lib=["-O2"], har=["-O2", "-mno-red-zone", "-fcf-protection=none", "-fno-stack-protector"], link=["-rdynamic"]),
    "clock": dict(lib=["-O1", "-mno-red-zone", "-fsanitize=thread"], har=["-O1", "-mno-red-zone", "-fsanitize=thread"], link=["-rdynamic"]),
}

def build(name, harness, sims, libs, mode, extra=(), linkextra=(), libextra=(), verbose=False):
    """returns the path of the harness binary"""
    os.makedirs(BUILD, exist_ok=True)
    m = MODES[mode]
    rh = tree_hash(os.path.join(REPO, "include"), (".hpp", ".h", ".in", "memory")) 
    dh = tree_hash(os.path.join(V, "dsim"), (".hpp", ".h"))
    hh = tree_hash(os.path.join(V, "harness"), (".hpp", ".h"))
    gen = gen_headers(os.path.join(BUILD, "inc-" + sha(open(os.path.join(REPO, "include/Lintel/PThread.hpp.in")).read())))
    incs = ["-I" + gen, "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "include/Lintel"), "-I/usr/include/libxml2"]
    od = os.path.join(BUILD, "obj"); os.makedirs(od, exist_ok=True)
    jobs, objs = [], []
    def add(src, flags, deps):
        text = open(src, "rb").read()
        o = os.path.join(od, os.path.basename(src).replace(".", "_") + "-" + sha(text, " ".join(flags), *deps) + ".o")
        objs.append(o)
        if not os.path.exists(o): jobs.append((src, flags, o))
    for s in sims: add(os.path.join(V, "dsim", s), BASE + ["-O2", "-I" + os.path.join(V, "dsim")] + (perl_flags()[0] if s == "plperl.cpp" else []), [dh])
    linkextra = list(linkextra) + (perl_flags()[1] if "plperl.cpp" in sims else [])
    libs_all = []
    for l in libs: add(os.path.join(REPO, l), BASE + m["lib"] + list(libextra) + incs, [rh])
    asmsim = open(os.path.join(V, "tools/asmsim.py")).read() if mode == "tso" else ""
    for h in harness: # "file.cpp flag flag" compiles it with more flags
        add(os.path.join(V, "harness", h.split()[0]), BASE + m["har"] + list(extra) + incs + ["-I" + os.path.join(V, "dsim"), "-I" + os.path.join(V, "harness")] + h.split()[1:], [rh, dh, hh, asmsim])
    def cc(j):
        src, flags, o = j; tmp = o + ".%d.tmp" % os.getpid()
        if mode == "tso" and "/harness/" in src:
            r = subprocess.run(["g++"] + flags + ["-S", src, "-o", tmp + ".s"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode == 0:
                open(tmp + ".r.s", "w").write(asm_rewrite(open(tmp + ".s").read()))
                r = subprocess.run(["as", tmp + ".r.s", "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            for x in (".s", ".r.s"):
                if os.path.exists(tmp + x) and not os.environ.get("DSIM_KEEP"): os.unlink(tmp + x)
        else: r = subprocess.run(["g++"] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode == 0: os.replace(tmp, o)
        return src, r
    # the most expensive ones first
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for src, r in ex.map(cc, jobs):
            if r.returncode != 0:
                sys.stderr.write("compile failed: %s\n%s\n" % (src, r.stdout.decode(errors="replace")[-3000:])); raise SystemExit(2)
    out = os.path.join(BUILD, "%s-%s" % (name, sha(*(objs + [mode] + list(linkextra) + m["link"]))))
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        def link(more): return subprocess.run(["g++"] + m["link"] + objs + ["-o", tmp] + list(linkextra) + more + ["-lboost_thread", "-lboost_system", "-ldl", "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        r = link([])
        if r.returncode != 0 and libs:
            # the library's own dependencies may have changed: add everything else that is part of the library
            n0 = len(objs); jobs.clear()
            for f in sorted(os.listdir(os.path.join(REPO, "src"))):
                l = "src/" + f
                if f.endswith(".cpp") and l not in libs and not re.search(r"\bint\s+main\s*\(", open(os.path.join(REPO, l), errors="replace").read()):
                    add(os.path.join(REPO, l), BASE + m["lib"] + list(libextra) + incs, [rh])
            with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex: list(ex.map(cc, jobs))
            more = [o for o in objs[n0:] if os.path.exists(o)]; del objs[n0:]
            ar = tmp + ".a"
            subprocess.run(["ar", "rcs", ar] + more); r = link([ar, "-lxml2"]); os.unlink(ar)
        if r.returncode != 0:
            sys.stderr.write("link failed: %s\n" % r.stdout.decode(errors="replace")[-3000:]); raise SystemExit(2)
        os.replace(tmp, out)
    return out

def asm_rewrite(text):
    import asmsim
    return asmsim.Rewriter(text).run()
