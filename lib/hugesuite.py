"""Objects of more than 2 GiB (hugedrv): recorded in units of 16 MiB and judged by SeqSpec."""
import vf, seqgen as g, seqsuite
from seqgen import O

N = 130


def units(n, base=0):
    return [(base + k) % 200 + 1 for k in range(n)]


def slices(t):
    o = [O("newlit", 1, v=units(N)), O("newcopy", 2, 1)]
    for i, j in [(0, 1), (0, -1), (1, -1), (1, 128), (128, 1), (129, 5), (-1, 1), (-1, -1), (-130, 2), (-129, 128), (-200, 3), (130, -1), (131, 1), (0, -2), (5, -100), (0, -129), (1, -140), (0, 130), (0, 131), (2, 0)]:
        o += [O("newsub", 3, 1, i=i, j=j), O("del", 3)]
    o += [O("newcopy", 3, 1), O("slice", 3, i=1, j=-1), O("newcopy", 4, 3), O("slice", 4, i=127, j=-1), O("slice", 3, i=0, j=1)]
    o += [O("dropf", 1, n=1), O("dropb", 1, n=1), O("dropb", 1, n=127), O("dropf", 2, n=127), O("dropb", 2, n=1 if t == "S" else 2)]
    return dict(type=t, ops=o + [g.end()])


def compare():
    o = [O("newlit", 1, v=units(N)), O("newsub", 2, 1, i=0, j=1), O("newsub", 3, 1, i=0, j=129), O("newsub", 4, 1, i=1, j=1), O("newsub", 5, 1, i=0, j=0)]
    for a, b in [(1, 2), (2, 1), (1, 3), (3, 1), (1, 5), (5, 1), (1, 4), (4, 1), (3, 3), (3, 2)]:
        o += [O("rel", a, b), O("eq", a, b)] + [O("cmp", a, b, n=n) for n in (-1, 1, 129, 130, 127)]
    return dict(type="S", ops=o + [g.end()])


def search(t):
    o = [O("newlit", 1, v=units(N)), O("newsub", 2, 1, i=128, j=2), O("newlit", 3, v=[130, 128])]
    for x in (1, 2, 129, 130, 150):
        o += [O("find", 1, x=x), O("rfind", 1, x=x)]
    o += [O("find", 1, i=i, x=130) for i in (1, 128, 129, 130, 131)] + [O("at", 1, i=i) for i in (0, 127, 128, 129, 130, 131)] + [O("len", 1)]
    if t == "S":
        o += [O("fsub", 1, 2), O("fsub", 1, 2, i=128), O("fsub", 1, 2, i=129), O("fsub", 1, 2, i=131), O("fsub", 1, 3)]
    return dict(type=t, ops=o + [g.end()])


def edits(t):
    o = [O("newlit", 1, v=units(127)), O("newlit", 2, v=[201, 202]), O("appseq", 1, 2), O("newsub", 3, 1, i=126, j=2), O("insseq", 1, 2, i=128), O("replseq", 1, 2, i=130), O("insseq", 1, 2, i=0, n=1),
         O("replseq", 1, 2, i=128), O("resizef", 1, n=135, x=9), O("insseq", 1, 2, i=136), O("resize", 1, n=129), O("appseq", 1, 2, n=1), O("sliceasg", 1, 2, i=129, j=2), O("slice", 1, i=128, j=-1), O("appseq", 1, 3)]
    return dict(type=t, ops=o + [g.end()])


def run(chk, label, sessions, conds, focus="all"):
    free = [int(l.split()[1]) for l in open("/proc/meminfo") if l.startswith("MemAvailable")][0] / 2**20
    if free < 12:
        chk.add(label, dict(states=0, transitions=0, traces=0), config="skipped: %.0f GB of memory free" % free)
        return True
    exe = vf.build("hugedrv", seqsuite.SRCS, "opt")
    return seqsuite.run(chk, label, sessions, conds, focus, "opt", exe)
