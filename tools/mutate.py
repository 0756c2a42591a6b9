#!/usr/bin/env python3
"""Development aid: plants small random changes (mutants) in onion's sources, one at a time, and tells which no check sees.
mutate.py COUNT SECONDS_PER_PROPERTY SEED OUT [file.c ...]   Nothing in /repo is touched; works in a scratch directory."""
import os, sys, re, random, subprocess, tempfile, shutil, json, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import build
PROPS = {"request_parser.c": "P01 P02 P08 P09 P03 P07", "request.c": "P01 P04 P10 P19 P03 P13 P07", "response.c": "P03 P10 P04 P19 P01 P07", "poller.c": "P04 P05 P06 P16 P07", "onion.c": "P06 P04 P10 P19 P20 P07", "listen_point.c": "P06 P04 P05 P17 P20 P07",
  "http.c": "P04 P03 P05 P01 P07 P20", "https.c": "P17 P13 P06 P20 P07", "sessions.c": "P10 P11 P18 P07", "sessions_mem.c": "P10 P18", "sessions_sqlite3.c": "P10 P11", "sessions_redis.c": "P10", "dict.c": "P01 P10 P19 P12", "block.c": "P01 P10 P08 P15 P12", "codecs.c": "P01 P10 P18 P13 P14 P09 P12",
  "websocket.c": "P13 P07", "url.c": "P19 P18 P14 P09", "handler.c": "P19 P03 P13 P10 P07", "shortcuts.c": "P14 P15 P19 P07 P21", "mime.c": "P14", "random-gnutls.c": "P10", "ptr_list.c": "P19 P13", "low.c": "P01 P04 P06 P07",
  "auth_pam.c": "P18", "exportlocal.c": "P14", "webdav.c": "P15", "path.c": "P19", "static.c": "P19", "internal_status.c": "P19 P07", "version.c": "P01", "log.c": "P04 P06"}
if os.environ.get("MUT_EXTRA"):
    for k in PROPS: PROPS[k] += " " + os.environ["MUT_EXTRA"]
def mutants(path):
    out = []; L = open(path, errors="replace").read().split("\n"); depth = 0; incom = False
    for i, l in enumerate(L):
        s = l.strip()
        if incom:
            if "*/" in s: incom = False
            continue
        if s.startswith("/*") and "*/" not in s: incom = True; continue
        d0 = depth; code = re.sub(r'"(\\.|[^"\\])*"|//.*$', lambda m: " " * len(m.group(0)) if not m.group(0).startswith('"') else '"' + "_" * (len(m.group(0)) - 2) + '"', l)
        depth += code.count("{") - code.count("}")
        if d0 == 0 or not s or s.startswith(("#", "//", "*", "/*")) or "ONION_" in l and not re.search(r"\bif\b|\breturn\b|=", code): continue
        def sub(rx, rep, what):
            for m in re.finditer(rx, code):
                n = l[:m.start()] + (rep(m) if callable(rep) else rep) + l[m.end():]
                if n != l: out.append((i, n, what))
        sub(r"(?<=[\w\)\]] )<(?= [\w\(&])", "<=", "< to <="); sub(r"(?<=[\w\)\]] )>(?= [\w\(&])", ">=", "> to >="); sub(r"<=(?= )", "<", "<= to <"); sub(r">=(?= )", ">", ">= to >")
        sub(r"==", "!=", "== to !="); sub(r"!=", "==", "!= to =="); sub(r"&&", "||", "&& to ||"); sub(r"\|\|", "&&", "|| to &&")
        sub(r" \+ 1\b", "", "drop + 1"); sub(r" - 1\b", "", "drop - 1"); sub(r"(?<=[\w\]]) \+ (?=\w)", " - ", "+ to -"); sub(r"(?<=[\w\]\)]) - (?=\w)", " + ", "- to +")
        sub(r"\+\+", "--", "++ to --"); sub(r"\bif \((?=!)", "if (!", "negate if"); sub(r"(?<=if \()!", "", "drop !"); sub(r"\breturn 0;", "return 1;", "return 1"); sub(r"\breturn 1;", "return 0;", "return 0"); sub(r"\breturn NULL;", "return (void *)0;", "x") if False else None
        sub(r"\b(?<![\w.])(\d+)(?![\w.xX])", lambda m: str(int(m.group(1)) + 1), "number + 1"); sub(r" \| (?=[A-Z])", " & ", "| to &"); sub(r" &= ~", " |= ", "&= ~ to |=")
        sub(r"\|= ", "= ", "|= to ="); sub(r"\+= ", "= ", "+= to =")
        if re.match(r"^[\w\->\.\[\]\*\(]+.*;\s*(//.*|/\*.*\*/\s*)?$", s) and d0 > 0 and not re.match(r"^(return|break|goto|case|default|else|do|const|static|struct|int|char|size_t|ssize_t|void|unsigned|onion\w* \*|onion_\w+ \w+|time_t|off_t|FILE|sqlite3\w* \*|pthread_\w+_t |[\w]+ \*\w+( =|;))", s) and s.count("(") == s.count(")"): out.append((i, re.match(r"^\s*", l).group(0) + ";", "delete statement: " + s[:60]))
        if re.match(r"^(return\b.*;)$", s) is None and re.match(r"^(break|continue);$", s): out.append((i, "    ;", "delete " + s))
        m = re.match(r"^(\s*)(?:\} else )?if \((.*)\)( \{)?$", code)
        if m and code.count("(") == code.count(")"):
            a = l.index("if (") + 4; e = l.rindex(")"); out.append((i, l[:a] + "0 && (" + l[a:e] + ")" + l[e:], "if never")); out.append((i, l[:a] + "1 || (" + l[a:e] + ")" + l[e:], "if always"))
    return L, out
def main():
    n, secs, seed, outf = int(sys.argv[1]), float(sys.argv[2]), int(sys.argv[3]), sys.argv[4]; only = sys.argv[5:]
    exe = build.main(); assert exe; LAST = build.LAST; rnd = random.Random(seed); cand = []
    for src, obj in zip(LAST["srcs"], LAST["objs"]):
        b = os.path.basename(src)
        if b not in PROPS or (only and b not in only): continue
        L, ms = mutants(src); cand += [(src, obj, L, m) for m in ms]
    rnd.shuffle(cand); print(len(cand), "candidates"); cand = cand[:n]
    tmp = tempfile.mkdtemp(prefix="onionmut-"); res = {"nocompile": 0, "same": 0, "killed": 0, "survived": 0}
    done = set()
    def one(k):
        src, obj, L, (i, new, what) = cand[k]; d = "%s/%d" % (tmp, k); os.makedirs(d); b = os.path.basename(src)
        try:
            t = list(L); old = t[i]; t[i] = new; p = d + "/" + b; open(p, "w").write("\n".join(t)); o = d + "/m.o"
            inc = LAST["inc"] + ["-I" + os.path.dirname(src)]
            if build.run(["clang", "-c"] + build.CFLAGS + build.DEFS + inc + ["-o", o, p])[0]: return "nocompile", None
            build.run(["objcopy", "--redefine-syms=" + LAST["redef"], o]); e = d + "/sim"
            objs = [o if x == obj else x for x in LAST["objs"]]
            if build.run(["clang++", "-fsanitize=address", "-rdynamic", "-o", e] + objs + ["-lxml2", "-lsqlite3", "-lpthread", "-lm", "-ldl"])[0]: return "nocompile", None
            for pr in PROPS[b].split():
                subprocess.run([e, "run", "--prop", pr, "--seed", "1", "--count", "1000000", "--time", str(secs), "--out", d + "/o", "--maxviol", "1"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=secs + 200)
                v = d + "/o.viol"
                if os.path.exists(v):
                    for x in open(v, errors="replace"):
                        if x.startswith("VIOL"): return "killed", "%s:%d [%s] %s -- %s" % (b, i + 1, what, pr, x.split(" ", 3)[2:4])
                        if x.startswith("ERR"): return "killed", "%s:%d [%s] %s -- %s" % (b, i + 1, what, pr, x[:100])
            return "survived", "%s:%d [%s]\n  - %s\n  + %s" % (b, i + 1, what, old.strip(), new.strip())
        except subprocess.TimeoutExpired: return "killed", "%s:%d timeout" % (b, i + 1)
        finally: shutil.rmtree(d, ignore_errors=True)
    with open(outf, "w") as f, ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "8"))) as ex:
        for r, t in ex.map(one, range(len(cand))):
            res[r] += 1
            if t: f.write(r.upper() + " " + t + "\n"); f.flush()
        f.write(json.dumps(res) + "\n")
    shutil.rmtree(tmp, ignore_errors=True); print(res)
if __name__ == "__main__": main()
