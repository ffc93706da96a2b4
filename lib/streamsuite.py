"""Stream suite (C15, C16, part of C12)."""
import os
import vf, suite, mcsuite

FS0 = [dict(e=0, v=[], mode=0)] * 3
DEF = dict(d=1, s=0, x=1, n=10**9, c=0, w=0, m=0, f=0, mode=384, hit="", keep=1, cnt=0, fs=FS0, fds=0, pv=[])
EMPTY = dict(post=[dict(l=0, v=[], pos=0, cap=0, n=0)] * 3, sv=[[], []], ret=0)
WRAP = "open openat creat lseek mmap munmap close ftruncate truncate fstat fsync fdatasync msync fchmod chmod dup posix_fallocate write pwrite read pread mkstemp mkostemp rename link unlink remove fdopen fopen".split()


def O(op, **k):
    return dict(op=op, **k)


def T(s):
    return list(s.encode("latin1"))


TEXTS = [T(x) for x in ("", "a", "\n", "ab\n", "one\ntwo\n\nthree", "x" * 30, "\nab", "no newline here", "a\0b\nc\0")]


def exe(config="asan"):
    return vf.build("streamdrv", ["String.cpp", "ReferenceCountedArray.cpp", "Stream.cpp"], config, wrap=WRAP)


def S(ops, head="."):
    return dict(head=head, ops=ops + [O("end")], defaults=DEF)


def contexts():
    """stream 1 in different conditions; stream 2 / strings may share its storage"""
    c = []
    for t in TEXTS:
        c.append([O("newlit", v=t)])
    body = T("one\ntwo\n\nthree")
    c += [[O("new")], [O("newsize", n=10)], [O("newsize", n=1024)], [O("newsize", n=-3)],
          [O("newlit", v=body), O("seek", n=4, w=0)],
          [O("newlit", v=body), O("seek", n=len(body), w=0)],
          [O("newlit", v=body), O("seek", n=len(body) - 1, w=0)],
          [O("newlit", v=body), O("newcopy", d=2, s=1), O("seek", n=2, w=0)],
          [O("sset", x=1, v=body), O("newstr", x=1), O("seek", n=3, w=0)],
          [O("sset", x=1, v=body), O("newstrmv", x=1), O("seek", n=3, w=0)],
          [O("newlit", v=body), O("reserve", n=3000), O("seek", n=3, w=0)],
          [O("newlit", v=body), O("reserve", n=3000), O("seek", n=40, w=0)],
          [O("newlit", v=body), O("reserve", n=3000), O("seek", n=0, w=2)],
          [O("newsize", n=20), O("puts", v=body, m=0), O("seek", n=0, w=0)],
          [O("newsize", n=20), O("puts", v=body, m=1)],
          [O("newsize", n=20), O("puts", v=body, m=1), O("seek", n=5, w=0), O("trunc")],
          [O("newlit", v=body), O("seek", n=9, w=0), O("trunc"), O("seek", n=4, w=0)],
          [O("newlit", v=body), O("newcopy", d=2, s=1), O("clear")],
          [O("newlit", d=2, v=body), O("seek", d=2, n=4, w=0), O("newmove", d=1, s=2)],
          [O("newlit", d=2, v=body), O("seek", d=2, n=4, w=0), O("new"), O("asg", d=1, s=2)],
          [O("newlit", v=body), O("seek", n=4, w=0), O("newmove", d=2, s=1)],
          [O("newlit", v=body), O("conv", x=1), O("smut", x=1, v=[90], m=1), O("seek", n=6, w=0)]]
    return c


def tests():
    t = []
    for v in TEXTS[:6]:
        for m in range(4):
            t.append([O("puts", v=v, m=m)])
    t += [[O("sset", x=2, v=T("QRS")), O("putvar", x=2, m=m), O("smut", x=2, v=[90], m=1)] for m in range(4)]
    t += [[O("putst", s=1, m=m)] for m in range(2)] + [[O("putst", s=2, m=m)] for m in range(2)]
    for n in (0, 1, 2, 3, 4, 7, 100, 10**8):
        t += [[O("read", n=n)], [O("read", n=n, c=10)], [O("read", n=n, c=111)], [O("getline", n=n)], [O("readvar", n=n, x=2), O("smut", x=2, v=[81], m=1)]]
    t += [[O("getline")] * 6, [O("getline", n=3)] * 5, [O("getline", n=4)] * 4, [O("read", n=3, c=10)] * 6, [O("read", n=5)] * 5]
    t += [[O("peek")], [O("tell")], [O("trunc")], [O("clear")], [O("len")], [O("not")], [O("conv", x=2), O("smut", x=2, v=[81], m=1)], [O("conv", x=2), O("puts", v=[81], m=0)],
          [O("asg", s=1)], [O("asg", s=2)], [O("swap", s=2)], [O("newcopy", d=3, s=1), O("puts", d=3, v=T("ZZ"), m=0)], [O("newmove", d=3, s=1), O("puts", d=3, v=T("ZZ"), m=0)]]
    for w in (0, 1, 2, 3, 7):
        for n in (-5, -1, 0, 1, 4, 14, 15, 16, 1023, 1024, 1025, 5000):
            t.append([O("seek", n=n, w=w)])
    t += [[O("reserve", n=n)] for n in (0, 1, 15, 16, 100, 1023, 1024, 1025, 2048)]
    t += [[O("trunc"), O("seek", n=0, w=0), O("getline")], [O("trunc"), O("puts", v=T("W"), m=1)], [O("seek", n=0, w=2), O("puts", v=T("W"), m=1)], [O("seek", n=0, w=2), O("puts", v=[], m=0)], [O("seek", n=2, w=2), O("read", n=5, c=10)]]
    return t


AFTER = [O("tell"), O("peek"), O("puts", v=T("!?"), m=0), O("seek", n=1, w=0), O("getline"), O("read", n=4), O("seek", n=-2, w=1), O("read", n=9, c=33)]


def systematic():
    out = []
    for c in contexts():
        for t in tests():
            out.append(S(c + t + AFTER))
    return out


def rop(r):
    d = r.choice([1, 1, 1, 2, 3])
    s = r.choice([1, 2, 3])
    c = r.random()
    tx = lambda: [r.choice([97, 98, 10, 99, 0]) for _ in range(r.choice([0, 1, 2, 3, 5, 9]))]
    if c < .06:
        return r.choice([O("new", d=d), O("newsize", d=d, n=r.choice([0, 5, 1024, 1025])), O("newlit", d=d, v=tx()), O("newcopy", d=d, s=s), O("newmove", d=d, s=s), O("newstr", d=d, x=1), O("newstrmv", d=d, x=2), O("del", d=d)])
    if c < .11:
        return r.choice([O("asg", d=d, s=s), O("swap", d=d, s=s), O("putst", d=d, s=s, m=r.randint(0, 1))])
    if c < .40:
        return O("puts", d=d, v=tx(), m=r.randint(0, 3))
    if c < .45:
        return O("putvar", d=d, x=r.randint(1, 2), m=r.randint(0, 3))
    if c < .60:
        return r.choice([O("read", d=d, n=r.randint(0, 6)), O("read", d=d, n=r.randint(0, 6), c=r.choice([10, 97])), O("getline", d=d), O("getline", d=d, n=r.randint(0, 5))])
    if c < .80:
        return O("seek", d=d, n=r.randint(-6, 20), w=r.choice([0, 0, 0, 1, 1, 2]))
    if c < .84:
        return O("trunc", d=d)
    if c < .87:
        return r.choice([O("clear", d=d), O("reserve", d=d, n=r.choice([3, 30, 1030]))])
    if c < .93:
        return r.choice([O("peek", d=d), O("tell", d=d), O("len", d=d), O("not", d=d)])
    return r.choice([O("conv", d=d, x=r.randint(1, 2)), O("readvar", d=d, n=r.randint(0, 5), x=r.randint(1, 2)), O("sset", x=r.randint(1, 2), v=tx()), O("smut", x=r.randint(1, 2), v=[98], m=r.randint(0, 2))])


def random_sessions(r, n, length):
    return [S([O("newlit", v=T("line1\nline2\n")), O("sset", x=1, v=T("word\n"))] + [rop(r) for _ in range(length)]) for _ in range(n)]


SIZES = [0, 1, 2, 255, 300, 301, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 65536, 65537, 100000, 1048576, 1048577]


def file_sessions(r, sizes, fd=True):
    out = []
    names = ["wfile"] + (["wfd"] if fd else [])
    loads = ["lfile"] + (["lfd"] if fd else [])
    prior = [None, 0, 1, 700, 4096, 5000, 20000]
    for n in sizes:
        for w in names:
            for ld in loads:
                for p in prior:
                    for posn in ("start", "end"):
                        o = [O("new"), O("putpat", n=n, seed=r.randint(1, 99), m=r.randint(0, 1))] if n else [O("new")]
                        if posn == "start":
                            o.append(O("seek", n=0, w=0))
                        if p is not None:
                            o.append(O("fset", f=0, n=p, seed=3))
                        o.append(O(w, f=0, **({"off": r.choice([0, 3, 700])} if w == "wfd" else r.choice([{}, {"mode": 0o644}]))))
                        o += [O("newlit", d=2, v=T("old text")), O("seek", d=2, n=3, w=0), O(ld, d=2, f=0, **({"off": r.choice([0, 2, 5000])} if ld == "lfd" else {}))]
                        o += [O("tell", d=2), O("len", d=2), O(w, d=2, f=1), O(ld, d=1, f=1), O("clear", d=2), O(w, d=2, f=0), O(ld, d=1, f=0)]
                        out.append(S(o, "files"))
    return out


def small_file_sessions(r, fd=True):
    out = []
    for t in TEXTS + [[0], [0, 0, 10], [13, 10, 26, 255]]:
        for ld in ["lfile"] + (["lfd"] if fd else []):
            out.append(S([O("newlit", v=t), O("wfile", f=0), O("fset", f=1, v=T("former, longer content\n")), O("wfile", f=1), O("newlit", d=2, v=T("zzz")), O("conv", d=2, x=1), O(ld, d=2, f=1), O("getline", d=2), O("seek", d=2, n=0, w=0), O("puts", d=2, v=T("N"), m=0), O("wfile", d=2, f=1), O(ld, d=1, f=1),
                          O("lfile", d=1, f=0), O("lfile", d=1, f=2), O("lfile", d=1, f=9), O("wfile", d=1, f=9), O("wfile", d=1, f=8), O("lfile", d=1, f=8), O("puts", v=T("more"), m=1), O("wfile", f=0), O("frm", f=0), O("lfile", f=0)], "files"))
    return out


def fault_sessions(r, maxcalls=12, fd=True):
    out = []
    for n in (0, 5, 1000, 4096, 5000, 70000):
        for w in ["wfile"] + (["wfd"] if fd else []):
            for k in range(1, maxcalls + 1):
                for fk in (1, 2):
                    base = [O("new")] + ([O("putpat", n=n, seed=7, m=0)] if n else [])
                    out.append(S(base + [O("fset", f=0, n=300, seed=1), O(w, f=0, fail=k, fk=fk), O(w, f=0), O("lfile", f=0)], "files"))
        for ld in ["lfile"] + (["lfd"] if fd else []):
            for k in range(1, maxcalls + 1):
                for fk in (1, 2):
                    if ld == "lfile":
                        out.append(S([O("fset", f=0, n=n, seed=5), O("lsub", f=0, m=k % 2), O("lsub", f=0, m=k % 2, fail=k, fk=fk), O("lsub", f=2), O("lsub", f=8)], "files"))
                    out.append(S([O("newlit", v=T("before")), O("newcopy", d=2, s=1), O("fset", f=0, n=n, seed=5), O(ld, f=0, fail=k, fk=fk), O(ld, f=0), O("tell"), O(ld, d=2, f=0, fail=k, fk=fk)], "files"))
        for lim in (0, 1, 100, 4096):
            if lim < n:
                out.append(S([O("new"), O("putpat", n=n, seed=9, m=0), O("wfile", f=0, fsize=lim), O("wfile", f=0), O("lfile", f=0)], "files"))
    return out


MC = dict(core=dict(NS=2, MaxLen=2, MaxDepth=100, Vars="FALSE", Files="FALSE"), vars=dict(NS=1, MaxLen=2, MaxDepth=100, Vars="TRUE", Files="FALSE"),
          files=dict(NS=1, MaxLen=3, MaxDepth=100, Vars="FALSE", Files="TRUE"))
MCDEEP = dict(core=dict(NS=2, MaxLen=3, MaxDepth=100, Vars="FALSE", Files="FALSE"), vars=dict(NS=1, MaxLen=4, MaxDepth=100, Vars="TRUE", Files="FALSE"),
              files=dict(NS=2, MaxLen=2, MaxDepth=100, Vars="FALSE", Files="TRUE"))


def behaviour_sessions(r, which, n, fd=True):
    """every reachable state of the small stream machine x every call, as a history of the real class"""
    out = []
    for b in mcsuite.sample(r, "StreamMC", MC[which], n):
        o = []
        for e in b:
            e = {k: v for k, v in e.items() if k != "err"}
            if e["op"] in ("puts", "putst"):
                e["m"] = r.randint(0, {"puts": 3}.get(e["op"], 1))
            if which == "files" and fd and e["op"] in ("wfile", "lfile") and r.random() < .3:
                e["op"] = e["op"][0] + "fd"
                e["off"] = r.choice([0, 1, 3])
            o.append(e)
        tail = [O("tell"), O("peek"), O("puts", v=[33, 10], m=0), O("seek", n=0, w=0), O("getline")]
        out.append(S(o + tail, "files" if which == "files" else "."))
    return out


def run(chk, label, sessions, config="asan"):
    env = dict(vf.RUNENV, VF_SCRATCH=chk.work)
    return suite.run(chk, label, exe(config), "StreamTrace", sessions, EMPTY, config=config, driver="streamdrv", env=env)
