#!/usr/bin/env python3
"""Builds the simulator from /repo's current working tree. Content-hashed cache in .build (git-ignored)."""
import os, sys, re, glob, hashlib, subprocess, fcntl, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V); import pages
REPO = os.environ.get("ONION_REPO", "/repo")
B = os.path.join(V, ".build")
DEFS = ["-DHAVE_GNUTLS", "-DHAVE_PAM", "-DHAVE_PTHREADS", "-DHAVE_REDIS", "-DHAVE_SQLITE3", "-DHAVE_SYSTEMD", "-DHAVE_WEBDAV",
        "-DJPEG_ENABLED", "-DPNG_ENABLED", '-DONION_VERSION="0.8.0.GIT"', "-D_BSD_SOURCE", "-D_DEFAULT_SOURCE", "-D_ISOC99_SOURCE",
        "-D_POSIX_C_SOURCE=200112L", "-DNDEBUG", "-DONION_SIM_HOOKS"]
ONION_SKIP = {"poller_libev.c", "poller_libevent.c", "random-default.c"}
CFLAGS = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fno-optimize-sibling-calls", "-fPIC", "-w", "-U_FORTIFY_SOURCE",
          "-fsanitize=address,array-bounds", "-fsanitize-trap=array-bounds", "-mllvm", "-asan-instrumentation-with-call-threshold=0", "-mllvm", "-asan-opt=0"]
CXXFLAGS = ["-std=gnu++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-w", "-U_FORTIFY_SOURCE", "-DONION_VERSION=\"0.8.0.GIT\"", "-DHAVE_PTHREADS", "-DHAVE_GNUTLS", "-DHAVE_SQLITE3", "-DHAVE_REDIS"]

COV = os.environ.get("ONIONSIM_COV") # coverage build, only for tools/cov.py
if COV: CFLAGS += ["-fsanitize-coverage=trace-pc-guard,pc-table"]

def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else p.encode()); m.update(b"\0")
    return m.hexdigest()[:24]
def rd(p):
    with open(p, "rb") as f: return f.read()
def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode, r.stdout.decode(errors="replace")

def wrapped_symbols():
    s = set()
    for p in sorted(glob.glob(V + "/sim/*.cpp")):
        t = rd(p).decode()
        s |= set(re.findall(r"^W\([^,(]*,\s*(\w+)", t, re.M))
        s |= set(re.findall(r"\b__wrap_(\w+)\s*\(", t))
        for m in re.findall(r"^A\(.*$", t, re.M): s |= {"__asan_" + x for x in re.findall(r"A\((\w+)\)", m)}
        for m in re.findall(r"^AN\(.*$", t, re.M): s |= {"__asan_" + x for x in re.findall(r"AN\((\w+)\)", m)}
    s.discard("")
    return sorted(s)

def main(quiet=False):
    os.makedirs(B + "/obj", exist_ok=True); os.makedirs(B + "/gen/onion", exist_ok=True)
    lock = open(B + "/lock", "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    ver = rd(REPO + "/src/onion/version.h.in").decode()
    ver = ver.replace("#cmakedefine", "#define")
    ver = re.sub(r"@ONION_VERSION_MAJOR@|\$\{ONION_VERSION_MAJOR\}", "0", ver); ver = re.sub(r"@ONION_VERSION_MINOR@|\$\{ONION_VERSION_MINOR\}", "8", ver)
    ver = re.sub(r"@ONION_VERSION_PATCH@|\$\{ONION_VERSION_PATCH\}", "0", ver); ver = re.sub(r"@ONION_VERSION@|\$\{ONION_VERSION\}", "0.8.0.GIT", ver)
    ver = re.sub(r"@\w+@|\$\{\w+\}", "0", ver)
    vp = B + "/gen/onion/version.h"
    if not os.path.exists(vp) or rd(vp).decode() != ver: open(vp, "w").write(ver)
    CPP = REPO + "/src/bindings/cpp"
    inc = ["-I" + REPO + "/src", "-I" + CPP, "-I" + B + "/gen", "-I/usr/include/libxml2"]
    hdrs = b"".join(rd(p) for p in sorted(glob.glob(REPO + "/src/onion/*.h") + glob.glob(REPO + "/src/onion/handlers/*.h") + [vp]))
    hpps = b"".join(rd(p) for p in sorted(glob.glob(CPP + "/*.hpp")))
    srcs = [p for p in sorted(glob.glob(REPO + "/src/onion/*.c")) if os.path.basename(p) not in ONION_SKIP] + sorted(glob.glob(REPO + "/src/onion/handlers/*.c"))
    wraps = wrapped_symbols()
    redef = "\n".join("%s __wrap_%s" % (w, w) for w in wraps) + "\n"
    rp = B + "/redef." + h(redef)
    open(rp, "w").write(redef)
    jobs, objs = [], []
    for p in srcs:
        key = h(rd(p), hdrs, " ".join(DEFS + CFLAGS), redef)
        o = "%s/obj/%s-%s.o" % (B, os.path.basename(p)[:-2], key)
        objs.append(o)
        if not os.path.exists(o): jobs.append((["clang", "-c"] + CFLAGS + DEFS + inc + ["-o", o + ".t", p], o, True))
    for p in sorted(glob.glob(CPP + "/*.cpp")):
        cx = ["-std=gnu++11"] + CFLAGS + ["-DHAVE_PTHREADS"]
        o = "%s/obj/cpp_%s-%s.o" % (B, os.path.basename(p)[:-4], h(rd(p), hdrs, hpps, " ".join(cx), redef))
        objs.append(o)
        if not os.path.exists(o): jobs.append((["clang++", "-c"] + cx + inc + ["-o", o + ".t", p], o, True))
    T = REPO + "/tools"
    toolh = b"".join(rd(p) for p in sorted(glob.glob(T + "/*/*.h")))
    for p, ex in [(T + "/common/updateassets.c", []), (T + "/opack/opack.c", ["-Dmain=opack_main"]), (T + "/otemplate/templatetags/i18n.c", ["-Dplugin_init=i18n_plugin_init"])] + [(x, ["-Dmain=otemplate_main"]) for x in sorted(glob.glob(T + "/otemplate/*.c"))]:
        o = "%s/obj/tool_%s-%s.o" % (B, os.path.basename(p)[:-2], h(rd(p), toolh, hdrs, " ".join(DEFS + CFLAGS + ex), redef))
        objs.append(o)
        if not os.path.exists(o): jobs.append((["clang", "-c"] + CFLAGS + DEFS + ex + inc + ["-o", o + ".t", p], o, True))
    simh = b"".join(rd(p) for p in sorted(glob.glob(V + "/sim/*.h")))
    for p in sorted(glob.glob(V + "/sim/*.cpp")):
        key = h(rd(p), simh, hdrs, hpps if b".hpp" in rd(p) else b"", " ".join(CXXFLAGS))
        o = "%s/obj/sim_%s-%s.o" % (B, os.path.basename(p)[:-4], key)
        objs.append(o)
        if not os.path.exists(o): jobs.append((["clang++", "-c"] + CXXFLAGS + inc + ["-I" + V + "/sim", "-o", o + ".t", p], o, False))
    if COV:
        o = "%s/obj/cov-%s.o" % (B, h(rd(V + "/tools/cov.c"))); objs.append(o); jobs.append((["clang", "-c", "-O1", "-o", o + ".t", V + "/tools/cov.c"], o, False))
    def do(j):
        cmd, o, ren = j
        c, out = run(cmd)
        if c == 0 and ren: c, out = run(["objcopy", "--redefine-syms=" + rp, o + ".t"])
        if c == 0: os.rename(o + ".t", o)
        return c, out, cmd[-1]
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(do, jobs))
    bad = [(o, p) for c, o, p in res if c]
    if bad:
        for o, p in bad: sys.stderr.write("compile failed: %s\n%s\n" % (p, o))
        return None
    global LAST; LAST = {"objs": objs, "redef": rp, "inc": inc, "srcs": srcs}
    def link(exe, objs):
        if os.path.exists(exe): return True
        c, out = run(["clang++", "-fsanitize=address", "-rdynamic", *(["-no-pie"] if COV else []), "-o", exe + ".t"] + objs + ["-lxml2", "-lsqlite3", "-lpthread", "-lm", "-ldl"])
        if c: sys.stderr.write("link failed\n" + out[-6000:]); return False
        os.rename(exe + ".t", exe); return True
    # the pages of P24 are generated by the real generators, inside the simulator, and compiled as the library is
    pid = h(*objs, rd(V + "/pages.py")); exe = "%s/onionsim-%s" % (B, pid)
    if not os.path.exists(exe):
        first = "%s/onionsim0-%s" % (B, h(*objs))
        if not link(first, objs): return None
        d = "%s/pages-%s" % (B, pid); shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/out"); pages.write(d); gen, err = [], ""
        try: r = subprocess.run([first, "one", "--prop", "GEN", "--seed", "1"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, ONIONSIM_GEN=d), timeout=300); err = "" if r.returncode == 0 else r.stdout.decode(errors="replace")[:600]
        except subprocess.TimeoutExpired: err = "the generators do not end"
        def comp(p):
            o = p[:-2] + ".o"; c, out = run(["timeout", "200", "clang", "-c"] + CFLAGS + DEFS + inc + ["-o", o, p])
            if c == 0: c, out = run(["objcopy", "--redefine-syms=" + rp, o])
            return o, "" if c == 0 else os.path.basename(p) + ": " + out[:600]
        if not err:
            with ThreadPoolExecutor(8) as ex: res = list(ex.map(comp, sorted(glob.glob(d + "/out/*.c"))))
            gen = [o for o, e in res]; err = "".join(e for o, e in res)[:900]
        for err in [err, err or "the generated code can not be linked"]:
            if err: gen = []
            open(d + "/glue.c", "w").write(pages.glue(err)); c, out = run(["clang", "-c", "-O1", "-w"] + inc + ["-o", d + "/glue.o", d + "/glue.c"])
            if c: sys.stderr.write("compile failed: glue.c\n" + out[-3000:]); return None
            if link(exe, objs + gen + [d + "/glue.o"]): break
        else: return None
        shutil.rmtree(d, ignore_errors=True); os.remove(first)
    # keep the cache small
    keep = set(objs) | {exe}
    for f in glob.glob(B + "/obj/*.o") + glob.glob(B + "/onionsim-*"):
        if f not in keep and os.path.getmtime(f) < __import__("time").time() - 6 * 3600:
            try: os.remove(f)
            except OSError: pass
    return exe

if __name__ == "__main__":
    e = main()
    if not e: sys.exit(2)
    print(e)
