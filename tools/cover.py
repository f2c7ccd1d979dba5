#!/usr/bin/env python3
"""Development aid: lines of the library whose instrumented accesses no run reached.
  SIM_COVER=1 SIM_BUILD=/tmp/simcov python3 sim/build.py
  SIM_COV=/tmp/cov.bin /tmp/simcov/sim search ...
  tools/cover.py /tmp/simcov/sim /tmp/cov.bin [source substring]"""
import collections, re, subprocess, sys
exe, cov = sys.argv[1], open(sys.argv[2], "rb").read()
want = sys.argv[3] if len(sys.argv) > 3 else ""
d = subprocess.run(["objdump", "-d", "--no-show-raw-insn", exe], stdout=subprocess.PIPE, text=True).stdout
rets, prev = [], False
for l in d.splitlines():
    m = re.match(r"\s+([0-9a-f]+):\s+(\S+)\s*(.*)", l)
    if not m:
        continue
    if prev:
        rets.append(int(m.group(1), 16))
    prev = m.group(2).startswith("call") and "__tsan_" in m.group(3) and "func_" not in m.group(3)
a = subprocess.run(["addr2line", "-e", exe], input="\n".join("%x" % (r - 1) for r in rets), stdout=subprocess.PIPE, text=True).stdout.splitlines()
line = collections.defaultdict(lambda: [0, 0])
for r, x in zip(rets, a):
    x = x.split(" ")[0]
    if "/libs/MeshKernel" not in x:
        continue
    f, n = x.rsplit(":", 1)
    if not n.isdigit():
        continue
    c = line[(f.split("/libs/")[1], int(n))]
    c[0] += 1
    c[1] += cov[r]
by = collections.defaultdict(list)
for (f, n), (t, h) in sorted(line.items()):
    by[f].append((n, h))
tl = th = 0
for f, v in sorted(by.items()):
    hit = sum(1 for n, h in v if h)
    tl += len(v); th += hit
    if want in f:
        miss = [n for n, h in v if not h]
        out, i = [], 0
        while i < len(miss):
            j = i
            while j + 1 < len(miss) and miss[j + 1] - miss[j] < 4:
                j += 1
            out.append("%d-%d" % (miss[i], miss[j]) if j > i else "%d" % miss[i])
            i = j + 1
        print("%4d/%4d %s %s" % (hit, len(v), f, " ".join(out)))
print("lines with accesses: %d, reached %d (%.1f %%)" % (tl, th, 100.0 * th / max(tl, 1)))
