"""Script interpreter suite: sessions and runs (C21-C25, C29)."""
import struct
import vf, suite, mcsuite

L = suite.L
EMPTY = dict(post=0, calls=[], hooks=[], pv={}, peek=[dict(on=0, c=[], v=[])] * 2, ret=[], code=0)
DEF = dict(hasla=0, la=[], hasna=0, nested=[], args=[], v=[], vl=[], q=0, m=0, slot=1, ty="", nm="x", n=0, to="-", us="", h="v0", mn=-1, ro=0, hk=0, pv1="i8", k=1, fn=[], ex=0)
HIDE = ("hasla", "hasna", "nested")
PVS = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "b", "d", "s", "s2", "c1", "c4", "c9", "c90", "ki", "ks", "kc"]
INTS = PVS[:8]
VARS = ["a", "b", "ns::c", "ar(k)"]
CMDS = ["x", "y", "zed"]
LIM = {"i8": (-2**7, 2**7 - 1), "u8": (0, 2**8 - 1), "i16": (-2**15, 2**15 - 1), "u16": (0, 2**16 - 1), "i32": (-2**31, 2**31 - 1), "u32": (0, 2**32 - 1),
       "i64": (-2**63, 2**63 - 1), "u64": (0, 2**64 - 1)}
NPAR = dict(v0=0, s1a=1, s1b=1, four=4, ints1=4, ints2=4, mix=3, lp=2, thrS=1, thrE=1, thrI=1, reg=2, cbnow=2)
NPAR["del"] = 2
NPAR["rep"] = 2
NPAR["evg"] = 1
NPAR["thrN"] = NPAR["retN"] = 1


def B(s):
    return list(s.encode() if isinstance(s, str) else s)


EDGE = sorted({v + d for lo, hi in LIM.values() for v in (lo, hi) for d in (-1, 0, 1)} | {0, 1, -1, 5, 42, -(2**64) + 1, -(2**64), 2**65, 2**64 + 5, -(2**63) - 2**33, 10**30})
INTTX = [str(v) for v in EDGE] + ["0x7f", "010", "0b11", " 5 ", "+5", "\t-3", "-0", "0o17", "00"]
NONNUM = ["", "abc", "1.5", "12x", "1e3", "--1", "0x", "5 6", "1_0", "é"]
BOOLTX = ["0", "1", "2", "-1", "0.0", "0.5", "true", "false", "tru", "TRUE", "yes", "no", "on", "off", "y", "n", "", "bogus", "0x1", "00", "5x", "1e3"]
DBLTX = ["1.5", "-0.25", "5", "0", "", "abc", "1e3", "1e100", "0x10", "-7", "1.5x", " 2.5 "]
TEXTS = ["", "a", "hello world", "{", "}", "$x", "[exit 3]", "a;b", "\\", "\"q\"", "a\nb", "#c", "x" * 300, "tab\there", "é€", "{a b} {c", "\\}", "-1", " lead", "trail ", "%s", "~", "a{b}c", "\\n", "]", "\x7f", "\U0001d11e"[:0] + "日本"]
NULTX = ["\0", "a\0b", "\0\0x", "end\0"]
ASCII = [t for t in TEXTS if all(ord(c) < 128 for c in t)]


def O(op, **k):
    return dict(op=op, **k)


def call(nm, args=(), la=None, nested=None, **k):
    o = O("call", nm=nm, args=L([B(a) for a in args]), **k)
    if la is not None:
        o.update(la=L([B(a) for a in la]), hasla=1)
    if nested is not None:
        o.update(na=L([B(a) for l in nested for a in l]), nn=[len(l) for l in nested], nested=[[B(a) for a in l] for l in nested], hasna=1)
    return o


def session(ops, peek=0):
    ops = [dict(o, k=o.get("k", 1)) for o in ops]
    return dict(head="%d" % peek, ops=ops + [O("end")], defaults=DEF, hide=HIDE)


def textfor(r, pv):
    if pv in INTS or pv == "ki":
        return r.choice(INTTX + NONNUM + ["7", "-7", "100"])
    if pv == "b":
        return r.choice(BOOLTX)
    if pv == "d":
        return r.choice(DBLTX)
    if pv[0] == "c":
        return r.choice([t for t in ASCII] + ["123", "1234", "12345", "12345678", "123456789"])
    return r.choice(TEXTS)


def canon(r, pv, nul=False):
    """a text the program can store in pv"""
    if pv in INTS:
        lo, hi = LIM[pv]
        return str(r.choice([lo, hi, 0, 1, hi // 2, lo + 1, min(hi, 100)]))
    if pv == "b":
        return r.choice("01")
    if pv == "d":
        return r.choice(["1.5", "-0.25", "5", "1e100", "0"])
    if pv[0] == "c":
        return r.choice(["", "abc", "ab", "a"] if pv == "c4" else [""] if pv == "c1" else ["", "abcdefgh", "abc def"])
    return r.choice(TEXTS + NULTX) if nul else r.choice(TEXTS)


def getq(r, nm):
    return r.choice([0, 1, 2, 3, 4, 5, 6, 7] if nm in "ab" else [0, 1, 3, 4, 7] if nm == "ns::c" else [0, 1, 3, 4, 5, 6, 7])


def setq(r, nm):
    return r.choice([0, 1, 2, 3, 4, 5, 6, 7] if nm in "ab" else [0, 1, 3, 4, 5, 6, 7] if nm == "ns::c" else [0, 1, 3, 4, 5, 6, 7])


def setq_texts(nm):
    return [0, 1, 2, 3, 4, 5, 6, 7] if nm in "ab" else [0, 1, 3, 4, 5, 6, 7]


class Gen:
    """random sessions; keeps just enough track of its own calls to stay inside what the specification covers"""

    def __init__(self, r, kinds, two=True):
        self.r, self.kinds, self.two = r, kinds, two
        self.link = {}          # (k, nm) -> pv
        self.intv = {}          # pv with a small known value
        self.reg = {}           # k, nm -> h  (last created under this program name)

    def k(self):
        return self.r.choice([1, 1, 2]) if self.two else 1

    def args(self, h):
        r = self.r
        if h == "del" or h == "rep":
            return [r.choice(CMDS), r.choice(CMDS)]
        if h == "reg":
            return [r.choice("123"), r.choice(["rec", "rec p", "echo", "err", "nosuch", "y", "::y", "y p", "::rec a b"])]
        if h in ("ints1", "ints2"):
            return [r.choice(INTTX + NONNUM) for _ in range(4)]
        if h == "mix":
            return [r.choice(BOOLTX), r.choice(TEXTS), r.choice(TEXTS)]
        if h and h.startswith("id_"):
            t = h[3:]
            return [r.choice(INTTX + NONNUM) if t in LIM else r.choice(BOOLTX) if t == "b" else r.choice(DBLTX) if t == "d" else r.choice(TEXTS)]
        return [r.choice(TEXTS) for _ in range(NPAR.get(h, 1))]

    def cmdop(self):
        r, k = self.r, self.k()
        c = r.random()
        nm = r.choice(CMDS)
        if c < .28:
            special = nm == "zed"
            h = r.choice(["del", "rep", "reg", "cbnow", "reg", "cbnow", "s1a"] if special else ["v0", "s1a", "s1a", "s1b", "four", "four", "ints1", "ints2", "mix", "lp", "thrS", "thrE", "thrI", "evg", "id_i8", "id_u64", "id_s", "id_b", "id_d"])
            n = NPAR.get(h, 1)
            self.reg[k, nm] = h
            return O("cmd", k=k, nm=nm, h=h, mn=r.choice([-1, -1, 0, n, r.randint(0, n)]), us=r.choice(["", "u1", "u2"]), q=r.randint(0, 1))
        if c < .36:
            return O("delc", k=k, nm=nm)
        if c < .44 and nm != "zed":
            to = r.choice(["x", "y", "-"])
            return O("ren", k=k, nm=nm, to=to, m=0)
        if c < .48:
            return O("proc", k=k, nm=nm if nm != "zed" else "x")
        h = self.reg.get((k, nm))
        a = self.args(h)
        if h == "lp" or h == "cbnow":
            if h == "lp":
                la = [r.choice(TEXTS) for _ in range(r.randint(0, 4))]
                return call(nm, [r.choice(TEXTS)] * r.randint(0, 2), la=la, k=k, q=r.randint(0, 6), m=r.randint(0, 1))
            cb = r.choice(["rec", "rec p", "echo", "err", "nosuch", "y", "::y", "y p"])
            if r.random() < .7:
                return call(nm, [cb, r.choice(["", "a", "a b", "a b c", "{a"])], k=k, q=r.randint(0, 6), m=r.randint(0, 1))
            return call(nm, [cb], k=k, q=r.randint(0, 6), m=r.randint(0, 1))
        if r.random() < .3:
            a = a[:r.randint(0, len(a))] if r.random() < .6 else a + [r.choice(TEXTS)]
        return call(nm, a, k=k, q=r.randint(0, 6), m=r.randint(0, 1))

    def varop(self):
        r, k = self.r, self.k()
        nm = r.choice(VARS)
        c = r.random()
        if c < .2:
            pv = r.choice(PVS)
            self.link[k, nm] = pv
            return O("link", k=k, nm=nm, pv1=pv, ro=int(r.random() < .25), hk=r.choice([0, 1, 2]) if pv != "kc" else 0, q=r.randint(0, 1))
        if c < .26:
            self.link.pop((k, nm), None)
            return O("unlink", k=k, nm=nm)
        if c < .29:
            self.link.pop((k, nm), None)
            return O("unset", k=k, nm=nm)
        if c < .45:
            ks = [v for v in self.link.values() if v[0] != "k"]
            pv = r.choice(ks) if ks and r.random() < .8 else r.choice(PVS[:16])
            return O("pset", pv1=pv, v=B(canon(r, pv)))
        if c < .65:
            return O("get", k=k, nm=nm, q=getq(r, nm), m=r.randint(0, 1))
        pv = self.link.get((k, nm), "s")
        return O("setv", k=k, nm=nm, v=B(textfor(r, pv) if r.random() < .9 else r.choice(ASCII)), q=setq(r, nm), m=int(r.random() < .3))

    def cbop(self):
        r = self.r
        return O("cbcall", slot=r.randint(1, 3), args=L([B(r.choice(TEXTS)) for _ in range(r.choice([0, 1, 1, 2, 3, 9]))]), q=int(r.random() < .1))

    def rtop(self):
        return rt(self.r, self.k())

    def make(self, n):
        r = self.r
        ops = [O("mk", k=1)] + ([O("mk", k=2)] if self.two else [])
        if "cbop" in self.kinds:
            ops += [O("cmd", nm="zed", h="reg")] + ([O("cmd", nm="zed", h="reg", k=2)] if self.two else [])
            self.reg[1, "zed"] = self.reg[2, "zed"] = "reg"
            ops += [call("zed", [str(j), r.choice(["rec", "rec p", "echo", "err", "y"])], k=self.k()) for j in (1, 2, 3)]
        for _ in range(n):
            k = r.choice(self.kinds)
            ops.append(getattr(self, k)())
            if self.two and r.random() < .02:
                j = r.randint(1, 2)
                ops += [O("rm", k=j)] + ([O("mk", k=j)] if r.random() < .7 else [])
                for key in [q for q in list(self.link) + list(self.reg) if q[0] == j]:
                    self.link.pop(key, None)
                    self.reg.pop(key, None)
        return session(ops, int(r.random() < .6))


PACK = dict(i8="<b", u8="<B", i16="<h", u16="<H", i32="<i", u32="<I", i64="<q", u64="<Q", d="<d")


def anybytes(r):
    c = r.random()
    if c < .5:
        return B(r.choice(TEXTS))
    if c < .7:
        return [r.randint(1, 127) for _ in range(r.choice([1, 3, 16, 200]))]
    return [r.choice([0, 128, 255, 65, 10, 123, 92]) for _ in range(r.choice([1, 2, 5, 40]))]


def rt(r, k):
    ty = r.choice(list(PACK) + ["d", "b", "s", "s", "s", "l", "l", "n", "n"])
    q = r.randint(0, 4)
    if ty == "d":
        v = r.choice([0.0, 1.5, -0.0, 0.1, 1e308, 5e-324, 1 / 3, 123456789.123456789, float("inf"), -1e-300, r.random() * 10 ** r.randint(-300, 300), struct.unpack("<d", struct.pack("<Q", r.randint(0, 0x7fe << 52)))[0]])
        return O("rt", k=k, ty=ty, q=q, v=list(struct.pack("<d", v)))
    if ty in PACK:
        lo, hi = LIM[ty]
        v = r.choice([lo, hi, 0, 1, lo + 1, hi - 1, hi // 2, hi // 2 + 1, r.randint(lo, hi)])
        return O("rt", k=k, ty=ty, q=q, v=list(struct.pack(PACK[ty], v)))
    if ty == "b":
        return O("rt", k=k, ty=ty, q=q, v=[r.randint(0, 1)])
    if ty == "s":
        return O("rt", k=k, ty=ty, q=q, v=anybytes(r))
    if ty == "l":
        return O("rt", k=k, ty=ty, q=q, vl=L([anybytes(r) for _ in range(r.choice([0, 1, 2, 3, 17]))]))
    n = [r.randint(0, 3) for _ in range(r.choice([0, 1, 2, 4]))]
    els = [[anybytes(r) for _ in range(c)] for c in n]
    return O("rt", k=k, ty=ty, q=q, vl=L([e for l in els for e in l]), nn=n, nested=els)


def random_sessions(r, n, length, kinds, two=True):
    return [Gen(r, kinds, two).make(length) for _ in range(n)]


def convert_sessions(r):
    """every type against every interesting text: as command argument, result and linked variable"""
    out = []
    for ty in INTS + ["b", "d", "s"]:
        tx = INTTX + NONNUM if ty in LIM else BOOLTX if ty == "b" else DBLTX if ty == "d" else TEXTS
        for part in range(0, len(tx), 12):
            ops = [O("mk", k=1), O("cmd", nm="x", h="id_" + ty), O("link", nm="a", pv1=ty, hk=1), O("link", nm="b", pv1=ty, ro=1)]
            for t in tx[part:part + 12]:
                ops += [call("x", [t], q=r.randint(0, 6)), O("setv", nm="a", v=B(t), q=r.randint(0, 7)), O("get", nm="a", q=r.randint(0, 7)), O("get", nm="b"), O("setv", nm="b", v=B(t), q=r.randint(0, 4))]
            out.append(session(ops, 0))
    for h, n in (("ints1", 4), ("ints2", 4)):
        for i in range(0, len(INTTX)):
            ops = [O("mk", k=1), O("cmd", nm="x", h=h, mn=0)]
            for c in range(n + 2):
                ops.append(call("x", [INTTX[(i + 7 * j) % len(INTTX)] for j in range(c)]))
            out.append(session(ops, 0))
    for i in range(40):
        ops = [O("mk", k=1), O("cmd", nm="x", h="id_l"), O("cmd", nm="y", h="id_n"), O("cmd", nm="zed", h="lp", mn=r.randint(0, 2))]
        for _ in range(8):
            ops.append(call("x", la=[r.choice(TEXTS) for _ in range(r.choice([0, 1, 2, 5]))], q=7))
            ops.append(call("y", nested=[[r.choice(TEXTS) for _ in range(r.randint(0, 3))] for _ in range(r.randint(0, 4))], q=8))
            ops.append(call("zed", [r.choice(TEXTS)] * r.randint(0, 1), la=[r.choice(TEXTS) for _ in range(r.randint(0, 3))]))
        out.append(session(ops, 0))
    return out


LISTTX = ["", " ", "a", "a b", "  a\tb\nc ", "{a b} c", "{a {b c}} d", "{a", "a}", "{a}b", "\"a b\" c", "\"a b", "\"a\"b", "a\"b c", "a{b c}d", "{}", "{} {}", "\\{ a", "a\\ b", "\\", "a\\", "{a\\}b}", "{a\\}", "\\n\\t\\\\", "a\\\n  b",
          "{a\\\nb}", "\"a\\\"b\" c", "\"\\[x\\] $y\"", "[exit] $x;#", "é {日 本}", "{\"} \"{\"", "x" * 200 + " y"]


def list_sessions(r):
    """list arguments given as text, well-formed or not"""
    out = []
    for h in ("id_l", "lp"):
        for i in range(0, len(LISTTX), 6):
            out.append(session([O("mk", k=1), O("cmd", nm="x", h=h, mn=1)] + [call("x", [t], q=7 if h == "id_l" else r.randint(0, 6)) for t in LISTTX[i:i + 6]], 0))
    for i in range(0, len(LISTTX), 6):
        out.append(session([O("mk", k=1), O("cmd", nm="x", h="id_n", mn=1)] + [call("x", [t], q=8) for t in LISTTX[i:i + 6]] + [call("x", ["{" + t + "} {x y} " + t], q=8) for t in LISTTX[i:i + 6]], 0))
    for _ in range(60):
        tx = ["".join(r.choice([" ", "\t", "\n", "{", "}", '"', "\\", "a", "b", "n", "$", "[", "]"]) for _ in range(r.randint(1, 9))) for _ in range(10)]
        out.append(session([O("mk", k=1), O("cmd", nm="x", h="id_l"), O("cmd", nm="y", h="lp", mn=1)] + [call("x", [t], q=7) for t in tx] + [call("y", [t]) for t in tx] + [O("cmd", nm="x", h="id_n")] + [call("x", [t], q=8) for t in tx], 0))
    return out


def rt_sessions(r, n):
    return [session([O("mk", k=1), O("mk", k=2)] + [rt(r, r.randint(1, 2)) for _ in range(40)], 0) for _ in range(n)]


def command_sessions(r):
    """every registration x renaming history x call form, short histories enumerated"""
    out = []
    hs = ["v0", "s1a", "four", "mix", "lp", "thrS", "thrE", "thrI", "ints1", "evg"]
    steps = [[O("ren", nm="x", to="y")], [O("ren", nm="x", to="-")], [O("delc", nm="x")], [O("delc", nm="y")], [O("proc", nm="x")], [O("proc", nm="y")],
             [O("cmd", nm="x", h="s1b", us="u1")], [O("cmd", nm="y", h="s1b")], [O("ren", nm="y", to="x")], [O("rm", k=1), O("mk", k=1)], [O("rm", k=2), O("mk", k=2)],
             [O("cmd", nm="x", h="s1b", k=2)], [O("delc", nm="x", k=2)], [O("cmd", nm="x", h="four", mn=1, k=1)]]
    calls = lambda: [call(n, ["t%d" % i for i in range(r.randint(0, 4))], k=k, q=r.randint(0, 6), m=r.randint(0, 1)) for n in ("x", "y") for k in (1, 2)]
    for h in hs:
        for mn in (-1, 0, 1):
            for us in ("", "u1", "u2"):
                for q in range(7):
                    ops = [O("mk", k=1), O("cmd", nm="x", h=h, mn=min(mn, NPAR[h]), us=us, q=q % 2)]
                    ops += [call("x", [r.choice(TEXTS) for _ in range(c)], q=q, m=r.randint(0, 1)) for c in range(NPAR[h] + 2)] if h != "lp" else [call("x", ["t"] * c, la=["p", "q r"], q=q) for c in range(3)]
                    out.append(session(ops, 1))
    for h in ("thrN", "retN"):          # results and errors with a NUL inside
        for q in range(7):
            out.append(session([O("mk", k=1), O("cmd", nm="x", h=h)] + [call("x", [t], q=q) for t in ("", "a", "hello world", "{", "é", "x" * 300)], 1))
    for a in steps:
        for b in steps:
            for c in steps:
                ops = [O("mk", k=1), O("mk", k=2), O("cmd", nm="x", h="s1a", us="u1")] + a + calls()[:2] + b + calls() + c + calls()
                out.append(session(ops, 1))
    # a handler that deletes or replaces commands while it runs, under another name too
    for h in ("del", "rep"):
        for ren in (0, 1):
            for t in CMDS:
                for as_ in CMDS:
                    ops = [O("mk", k=1), O("cmd", nm="x", h=h), O("cmd", nm="zed", h="s1a")] + ([O("ren", nm="x", to="y")] if ren else [])
                    ops += [call("y" if ren else "x", [t, as_]), call("x", [t, as_]), call("y", [t, as_]), call("zed", ["q"]), call("x", ["q"])]
                    out.append(session(ops, 1))
    return out


def variable_sessions(r):
    """every program variable x way to name it x history of linking, enumerated"""
    out = []
    for pv in PVS:
        for nm in VARS:
            for ro in (0, 1):
                for hk in ((0, 1) if pv != "kc" else (0,)):
                    ops = [O("mk", k=1), O("mk", k=2), O("link", nm=nm, pv1=pv, ro=ro, hk=hk, q=r.randint(0, 1))]
                    for q in setq_texts(nm):
                        ops += ([O("pset", pv1=pv, v=B(canon(r, pv)))] if pv[0] != "k" else []) + [O("get", nm=nm, q=getq(r, nm)), O("setv", nm=nm, v=B(textfor(r, pv)), q=q), O("get", nm=nm, q=getq(r, nm))]
                    if pv in INTS and not ro:
                        ops += [O("pset", pv1=pv, v=B("9")), O("incr", nm=nm, n=5), O("get", nm=nm), O("incr", nm=nm, n=-20), O("get", nm=nm)]
                    out.append(session(ops, r.randint(0, 1)))
    for pv in ("s", "s2"):
        for nm in VARS:
            ops = [O("mk", k=1), O("link", nm=nm, pv1=pv, hk=1)]
            for t in NULTX + ["", "x"]:
                ops += [O("pset", pv1=pv, v=B(t)), O("get", nm=nm, q=r.choice([0, 1]), m=1), O("get", nm=nm, q=r.choice([0, 1]), m=0)]
            out.append(session(ops, 0))
    steps = [[O("unlink", nm="a")], [O("unset", nm="a")], [O("link", nm="a", pv1="i32", hk=2)], [O("link", nm="a", pv1="s", ro=1)], [O("link", nm="a", pv1="c4", hk=1)], [O("link", nm="b", pv1="s", hk=2)],
             [O("unlink", nm="b")], [O("link", nm="a", pv1="s", k=2, hk=2)], [O("unlink", nm="a", k=2)], [O("rm", k=2), O("mk", k=2)], [O("setv", nm="a", v=B("plain"))], [O("link", nm="a", pv1="ks")], [O("pset", pv1="s", v=B("from program"))]]
    tail = lambda: [O("get", nm="a", q=getq(r, "a")), O("setv", nm="a", v=B(r.choice(["17", "text", "12345"])), q=setq(r, "a")), O("get", nm="a", k=2), O("setv", nm="b", v=B(r.choice(TEXTS))), O("setv", nm="a", k=2, v=B("two"))]
    for a in steps:
        for b in steps:
            for c in steps:
                out.append(session([O("mk", k=1), O("mk", k=2), O("link", nm="a", pv1="s", hk=1)] + a + tail()[:2] + b + tail() + c + tail(), r.randint(0, 1)))
    return out


def callback_sessions(r, n):
    out = []
    for i in range(n):
        ops = [O("mk", k=1), O("mk", k=2), O("cmd", nm="zed", h="reg"), O("cmd", nm="zed", h="reg", k=2), O("cmd", nm="y", h=r.choice(["four", "s1a", "lp", "thrS"]), mn=r.choice([-1, 0]))]
        if ops[-1]["h"] == "lp":
            ops[-1]["h"] = "s1b"
            ops[-1]["mn"] = -1
        slots = {}
        for j in range(1, 4):
            slots[j] = r.choice(["rec", "rec p q", "echo", "err", "nosuch", "y", "::y", "y p", "::rec"])
            ops.append(call("zed", [str(j), slots[j]], k=r.randint(1, 2)))
        for _ in range(3):
            j = r.randint(1, 3)
            if slots[j] != "err" and not (slots[j][-1] != "c" and "y" in slots[j] and ops[4]["h"] == "thrS"):
                ops.append(O("cbcall", slot=j, args=L([B(r.choice(NULTX + TEXTS[:3])) for _ in range(r.choice([1, 1, 2, 3]))]), q=0))
        for _ in range(10):
            args = [r.choice(TEXTS) if r.random() < .8 else "".join(chr(r.choice([32, 34, 36, 91, 92, 93, 123, 125, 59, 10, 35, 97, 233])) for _ in range(r.choice([1, 2, 3, 8, 1000 if r.random() < .1 else 5]))) for _ in range(r.choice([0, 1, 1, 2, 3, 12]))]
            ops.append(O("cbcall", slot=r.randint(1, 3), args=L([B(a) for a in args]), q=0))
            if r.random() < .15:
                ops.append(r.choice([O("delc", nm="y"), O("proc", nm="y"), O("cmd", nm="y", h="s1a"), O("rm", k=2), O("mk", k=2)]))
        ops2 = [O("cmd", nm="zed", h="cbnow", mn=r.randint(0, 2))] + [call("zed", [r.choice(["rec", "rec p", "echo", "err", "nosuch", "y"])] + ([r.choice(["", "a", "a b", "a b c"])] if r.random() < .8 else []), m=r.randint(0, 1)) for _ in range(6)]
        out.append(session(ops + ops2, 0))
    return out


def pair_sessions(r):
    """every short history of equal names in two interpreters, one of them destroyed and made again"""
    out = []
    A = [lambda k: [O("cmd", k=k, nm="x", h="s1a", us="u1")], lambda k: [O("cmd", k=k, nm="x", h="four", mn=1)], lambda k: [O("delc", k=k, nm="x")], lambda k: [O("ren", k=k, nm="x", to="y")],
         lambda k: [O("link", k=k, nm="a", pv1="s", hk=k)], lambda k: [O("link", k=k, nm="a", pv1="i32", hk=3 - k)], lambda k: [O("unlink", k=k, nm="a")], lambda k: [O("rm", k=k)], lambda k: [O("rm", k=k), O("mk", k=k)],
         lambda k: [O("unset", k=k, nm="a")]]
    look = lambda k: [call("x", ["1"], k=k, m=1), call("y", ["1"], k=k), O("setv", k=k, nm="a", v=B("4%d" % k)), O("get", k=k, nm="a"), O("get", k=3 - k, nm="a")]
    base = [O("mk", k=1), O("mk", k=2), O("cmd", k=1, nm="x", h="s1a"), O("cmd", k=2, nm="x", h="s1b"), O("link", k=1, nm="a", pv1="s", hk=1), O("link", k=2, nm="a", pv1="s2", hk=2)]
    steps = [f(k) for f in A for k in (1, 2)]
    for a in steps:
        for b in steps:
            for c in steps:
                out.append(session(base + a + look(1)[:3] + b + look(2) + c + look(1) + look(2), r.randint(0, 1)))
    return out


FILES = ["t.tcl", "t.tcl.bak", "x", ".tcl", "tcl", "t.TCL", "a b.tcl", "t.tclx", "a.tcl.tcl", "t.tc", "x.tcl~", "-.tcl", "[exit].tcl", "$a.tcl", "n.sh", "long" * 30 + ".tcl"]


def load_sessions(r, n):
    out = []
    for i in range(n):
        ops = [O("mk", k=1), O("mk", k=2), O("cmd", nm="x", h=r.choice(["s1a", "thrS", "thrE", "v0", "four", "id_s", "evg", "evg"]), mn=r.choice([-1, 0]), us=r.choice(["", "u1"])), O("link", nm="a", pv1=r.choice(["s", "i8", "c9", "ks"]), hk=r.choice([0, 1]))]
        if ops[3]["pv1"] == "ks":
            ops[3]["hk"] = 0
        for _ in range(12):
            st = [B(r.choice("sssseerxxxgg#") + r.choice(TEXTS)) for _ in range(r.choice([0, 1, 2, 3, 6]))]
            if r.random() < .3:
                st.insert(r.randint(0, len(st)) if r.random() < .4 else len(st), B("N" + r.choice(["", "a", "hello world", "-1"])))
            k = r.choice([1, 1, 1, 2])
            if r.random() < .6:
                fn = r.choice(FILES)
                ex = 0 if r.random() < .15 or fn == "" else 1
                if r.random() < .04:
                    fn, ex = "dir.tcl", 0
                ops.append(O("load", k=k, fn=B(fn), ex=ex, vl=L(st)))
            else:
                ops.append(O("evs", k=k, vl=L(st), m=r.randint(0, 1)))
            if r.random() < .3:
                ops.append(call("x", [r.choice(TEXTS)], k=k, q=r.randint(0, 6), m=r.randint(0, 1)))
            if r.random() < .3:
                ops.append(O("get", k=k, nm="a"))
        out.append(session(ops, r.randint(0, 1)))
    return out


TCLLIB = ["/usr/include/tcl8.6", "/usr/include/tcl"]


def mc(group, ni):
    return dict(NI=ni, MaxDepth=100, Group='"%s"' % group)


def behaviour_sessions(r, group, ni, n):
    """every reachable state of the small interpreters x every call, as a history of the real class"""
    out = []
    for b in mcsuite.sample(r, "ScriptMC", mc(group, ni), n):
        o = []
        for e in b:
            e = dict(e)
            if "args" in e:
                e["args"] = L(e["args"])
            e.pop("la", 0), e.pop("hasla", 0)
            if e["op"] == "get":
                e["q"] = getq(r, e["nm"])
            if e["op"] == "setv":
                e["q"] = setq(r, e["nm"])
            o.append(e)
        for k in range(1, ni + 1):
            o += {"cmds": [call("x", ["y", "y"], k=k), call("y", ["u"], k=k)], "vars": [O("pset", pv1="s", v=[53]), O("setv", nm="a", k=k, v=[52], q=setq(r, "a"))],
                  "cbs": [O("cbcall", slot=k, args=L([[113]]))]}[group]
        out.append(session(o, 1 if r.random() < .5 else 0))
    return out


def exe(config):
    return vf.build("tcldrv", ["ScriptInterpTCL.cpp", "String.cpp", "ReferenceCountedArray.cpp"], config, incs=TCLLIB, libs=["-ltcl8.6"], wrap=["Tcl_GetStringFromObj", "Tcl_GetString", "Tcl_GetStringResult"])


def run(chk, label, sessions, config="asan"):
    return suite.run(chk, label, exe(config), "ScriptTrace", sessions, EMPTY, config=config, driver="tcldrv")
