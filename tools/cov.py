#!/usr/bin/env python3
"""Which lines of the code under test no simulated run reaches. cov.py SECONDS_PER_PROPERTY [PROPS...]"""
import os, sys, subprocess, collections, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
os.environ["ONIONSIM_COV"] = "1"
import build, json
exe = build.main()
f = "/tmp/onionsim.cov.%d" % os.getpid(); os.environ["COVFILE"] = f
props = sys.argv[2:] or [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
if os.path.exists(f): os.remove(f)
for p in props:
    ps = [subprocess.Popen([exe, "run", "--prop", p, "--seed", str(1 + w), "--stride", "8", "--count", "100000", "--time", sys.argv[1], "--out", "/tmp/onionsim.cov.out%d" % w], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) for w in range(8)]
    for x in ps: x.wait()
out = subprocess.run([exe, "cov"], stdout=subprocess.PIPE, text=True).stdout.split("\n")
rows = [l.split() for l in out if l]
r = subprocess.run(["llvm-symbolizer-18" if os.path.exists("/usr/bin/llvm-symbolizer-18") else "llvm-symbolizer", "--obj=" + exe, "--output-style=GNU", "-f", "--no-inlines"], input="\n".join("0x" + x[1] for x in rows), stdout=subprocess.PIPE, text=True).stdout.split("\n")
cov = collections.defaultdict(lambda: [0, 0]); fn = {}; miss = collections.defaultdict(list)
cur = None
for i, x in enumerate(rows):
    name, loc = r[2 * i], r[2 * i + 1]; file, line = re.match(r"(.*?):(\d+|\?)", loc).groups(); b = os.path.basename(file)
    if "/onion/" not in file and "/cpp/" not in file: continue
    c = cov[b]; c[1] += 1; c[0] += x[0] == "1"
    if x[0] == "0": miss[b, name].append(line)
    if x[2] == "1": fn[b, name] = x[0] == "1"
for b in sorted(cov): print("%-28s %5d/%5d edges %3d%%" % (b, cov[b][0], cov[b][1], 100 * cov[b][0] / cov[b][1]))
for (b, name), ls in sorted(miss.items()): print(b, name, "NEVER" if not fn.get((b, name), True) else " ".join(sorted(set(ls), key=lambda z: int(z) if z.isdigit() else 0)))
for w in range(8):
    try: os.remove("/tmp/onionsim.cov.out%d" % w)
    except OSError: pass
os.remove(f)
