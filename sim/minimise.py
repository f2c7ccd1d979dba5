"""Reduce a failing trace: drop operations, then simplify faults, schedules and run parameters,
keeping the class of the violation."""
import json, os, re, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor

SIM = os.path.join(os.environ.get("SIM_BUILD", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "build")), "sim")


def replay_file(path, timeout=300):
    try:
        p = subprocess.run([SIM, "replay", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None
    m = re.search(r"^RESULT \S+ (\{.*\})", p.stdout, re.M)
    return json.loads(m.group(1)) if m else None


def split(text):
    head, ops = [], []
    for l in text.splitlines():
        if l.startswith("op "):
            ops.append(l)
        elif l and not l.startswith("#"):
            head.append(l)
    return head, ops


def minimise(text, cls, scratch, budget=150, jobs=8):
    head, ops = split(text)
    used = [0]

    def test(cand):
        h, o = cand
        fd, f = tempfile.mkstemp(suffix=".trace", dir=scratch)
        os.close(fd)
        with open(f, "w") as g:
            g.write("\n".join(h + o) + "\n")
        r = replay_file(f)
        os.unlink(f)
        return r is not None and r["kind"] != 0 and r["kind"] != 6 and r["cls"] == cls

    def first(cands):
        if not cands:
            return None
        used[0] += len(cands)
        with ThreadPoolExecutor(max_workers=jobs) as ex:
            res = list(ex.map(test, cands))
        for c, ok in zip(cands, res):
            if ok:
                return c
        return None

    cur = (head, ops)
    # cut after the failing operation
    r = None
    n = 2
    while len(cur[1]) >= 2 and used[0] < budget * 8:
        size = max(1, len(cur[1]) // n)
        cands = []
        i = 0
        while i < len(cur[1]):
            cands.append((cur[0], cur[1][:i] + cur[1][i + size:]))
            i += size
        cands.reverse()
        c = first(cands)
        if c is not None:
            cur = c
            n = max(2, n - 1)
        elif size == 1:
            break
        else:
            n = min(len(cur[1]), n * 2)
    # simplify each operation
    for i in range(len(cur[1])):
        toks = cur[1][i].split()
        cands = []
        if any(t.startswith("threads=") for t in toks):
            cands.append([t for t in toks if not re.match(r"(threads|sched|mode|period)=", t)])
        if any(t.startswith("fault=") for t in toks):
            cands.append([t for t in toks if not re.match(r"(fault|sticky)=", t)])
        if "sticky=1" in toks:
            cands.append([t for t in toks if t != "sticky=1"])
        if "bad=1" in toks:
            cands.append([t for t in toks if t != "bad=1"])
        c = first([(cur[0], cur[1][:i] + [" ".join(t)] + cur[1][i + 1:]) for t in cands])
        if c is not None:
            cur = c
    for name, val in (("place", 0), ("fill", 0), ("clients", 1), ("cap", 50)):
        for i, l in enumerate(cur[0]):
            if l.startswith("param %s " % name) and l != "param %s %d" % (name, val):
                c = first([(cur[0][:i] + ["param %s %d" % (name, val)] + cur[0][i + 1:], cur[1])])
                if c is not None:
                    cur = c
                break
    return "\n".join(cur[0] + cur[1]) + "\n"


if __name__ == "__main__":
    import sys
    t = open(sys.argv[1]).read()
    r = replay_file(sys.argv[1])
    d = tempfile.mkdtemp()
    m = minimise(t, r["cls"], d)
    os.rmdir(d)
    open(sys.argv[1] + ".min", "w").write(m)
    print(m)
    print(replay_file(sys.argv[1] + ".min"))
