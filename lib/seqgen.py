"""Script generation for the String/Array driver (seqdrv)."""
import random

A, B, C_, Z, SPC, NLB, CRB = 97, 98, 99, 122, 32, 10, 13
TYPES = "SIVT"


def O(op, d=1, s=0, i=0, j=0, n=-1, v=None, w=None, x=None, m=".", kv=None):
    return dict(op=op, m=m, d=d, s=s, i=i, j=j, n=n, v=v if v is not None else [], w=w if w is not None else [],
                x=x if x is not None else 0, kv=kv or [])


def hexs(b):
    return "x" + "".join("%02x" % c for c in b)


def lit(t, v):
    if t == "S":
        return hexs(v)
    if t == "V":
        return "v" + "".join("".join("%02x" % c for c in e) + "," for e in v)
    return "i" + "".join("%d," % e for e in v)


def line(t, o):
    if o["op"] == "end":
        return "end . 0 0 %s 0 0 - - -\n" % o["i"]
    v = lit(t, o["v"]) if o["op"] not in ("rdword", "rdline", "sub", "cmpc", "relc", "applit", "inslit", "repllit") else hexs(o["v"])
    if o["op"] == "subst":
        w = "x" + "".join("".join("%02x" % c for c in k) + ":" + "".join("%02x" % c for c in b) + ";" for k, b in o["kv"])
    else:
        w = hexs(o["w"])
    x = hexs(o["x"]) if isinstance(o["x"], list) else str(o["x"])
    return "%s %s %d %d %s %s %s %s %s %s\n" % (o["op"], o["m"], o["d"], o["s"], o["i"], o["j"], o["n"], v, w, x)


def script_of(s):
    return "session %s\n" % s["type"] + "".join(line(s["type"], o) for o in s["ops"])


def events(s, res):
    """merge script and results into trace events"""
    ev = []
    for o, r in zip(s["ops"], res):
        e = {k: o[k] for k in ("op", "m", "d", "s", "v", "w", "x", "kv")}
        e["i"], e["j"], e["n"] = r.get("i", 0), r.get("j", 0), r.get("n", -1)
        e["err"], e["ret"] = r["err"], r["ret"]
        e["post"] = r.get("post", [dict(l=0, v=[], rc=0, b=0, sh=0)] * 5)
        ev.append(e)
    return ev


# ---------------------------------------------------------------- values
def el(t, k):
    """k-th distinct element of type t"""
    if t == "S":
        return 97 + k % 26
    if t == "V":
        return [97 + k % 26] * (k % 3 + 1)
    return 10 + k


def seq(t, n, base=0):
    return [el(t, base + k) for k in range(n)]


NEWLIT_M = {"S": ["ptr", "il", "cstr", "std", "vec", "list", "in"], "I": ["ptr", "il", "vec", "list", "in", "zt"],
            "V": ["ptr", "il", "vec", "list", "in"], "T": ["ptr", "il", "vec", "list", "in"]}
SET_M = [".", "wr", "wrmv", "rd", "it", "ite", "rit", "mg", "md", "mv"]


def contexts(t, n=4):
    """(name, ops) building slot 1 with n elements in differently arranged storage; slots 2,3 may
    share storage with it."""
    X = seq(t, n)
    big = seq(t, n + 4, 5)
    c = []
    for m in NEWLIT_M[t]:
        c.append(("lit-" + m, [O("newlit", 1, v=X[:6], m=m)]))
    c.append(("cap", [O("newcap", 1, n=n + 6)] + [O("app", 1, x=e) for e in X]))
    c.append(("grow", [O("new", 1)] + [O("app", 1, x=e) for e in X]))
    c.append(("fill", [O("newfill", 1, n=n, x=X[0])]))
    c.append(("offs", [O("newlit", 1, v=big), O("slice", 1, i=2, j=n)]))
    if t != "S":
        c.append(("shifted", [O("newlit", 1, v=big), O("shift", 1), O("shift", 1), O("pop", 1)]))
    c.append(("popped", [O("newlit", 1, v=big), O("popb", 1), O("popb", 1), O("popb", 1)]))
    c.append(("copy", [O("newlit", 1, v=X), O("newcopy", 2, 1)]))
    c.append(("copied", [O("newlit", 2, v=X), O("newcopy", 1, 2), O("newcopy", 3, 2)]))
    c.append(("midslice", [O("newlit", 2, v=big), O("newsub", 1, 2, i=2, j=n)]))
    c.append(("neighb", [O("newlit", 5, v=big), O("newsub", 1, 5, i=2, j=n), O("newsub", 2, 5, i=0, j=3),
                         O("newsub", 3, 5, i=-3, j=-1), O("del", 5)]))
    c.append(("lastown", [O("newlit", 2, v=big), O("newsub", 1, 2, i=2, j=n), O("del", 2)]))
    c.append(("tailown", [O("newlit", 2, v=big), O("newsub", 1, 2, i=-n, j=-1), O("del", 2)]))
    c.append(("headown", [O("newlit", 2, v=big), O("newsub", 1, 2, i=0, j=n), O("del", 2)]))
    c.append(("movedin", [O("newlit", 2, v=X), O("newcopy", 3, 2), O("newmove", 1, 2)]))
    c.append(("reuse", [O("newlit", 1, v=big), O("clear", 1)] + [O("app", 1, x=e) for e in X]))
    c.append(("reassign", [O("newlit", 1, v=big), O("asglit", 1, v=X, m="il"), O("newsub", 2, 1, i=1, j=2)]))
    c.append(("resz", [O("newlit", 1, v=X[:2]), O("resizef", 1, n=n, x=X[3 % n])]))
    c.append(("swapped", [O("newlit", 2, v=X), O("newsub", 3, 2, i=1, j=-1), O("newlit", 1, v=big[:2]), O("swap", 1, 2)]))
    c.append(("hashed", [O("newlit", 1, v=X), O("hashf", 1, 1), O("newcopy", 2, 1), O("hashf", 2, 1)]))
    c.append(("resv", [O("newlit", 1, v=X), O("reserve", 1, n=n + 3), O("newcopy", 2, 1)]))
    if t == "S":
        c.append(("cstrd", [O("newlit", 2, v=big), O("newsub", 1, 2, i=1, j=n), O("newcopy", 3, 1), O("cstr", 1)]))
        c.append(("split", [O("newlit", 2, v=[A, SPC] + X + [SPC, B]), O("newsub", 1, 2, i=2, j=n), O("newsplit", 2, x=SPC)]))
    return c


def empty_contexts(t):
    X = seq(t, 4)
    return [("e-new", [O("new", 1)]), ("e-cap", [O("newcap", 1, n=5)]),
            ("e-clr", [O("newlit", 1, v=X), O("clear", 1)]),
            ("e-clrsh", [O("newlit", 1, v=X), O("newcopy", 2, 1), O("clear", 1)]),
            ("e-past", [O("newlit", 1, v=X), O("newcopy", 2, 1), O("slice", 1, i=9)]),
            ("e-slice", [O("newlit", 2, v=X), O("newsub", 1, 2, i=2, j=0)]),
            ("e-moved", [O("newlit", 1, v=X), O("newmove", 2, 1)]),
            ("e-lit0", [O("newlit", 1, v=[], m="il")]),
            ("e-resz", [O("newlit", 1, v=X), O("resize", 1, n=0)]),
            ("e-fill0", [O("newfill", 1, n=0, x=X[0])])]


POS = [0, 1, "L-1", "L", "L+1", "L+5", -1, 2, 1 << 33]
BIG = 1 << 33


def op_edit(t):
    """editing operations on slot 1 (source: slot 4 = fresh literal of 3, 2 = partner, 1 = itself)"""
    y, z = el(t, 20), el(t, 22)
    L3 = seq(t, 3, 12)
    r = []
    for k, m in enumerate([".", "mv", "pb", "pbmv", "bi", "op"]):
        r.append(O("app", x=y, m=m))
    for i in POS:
        for m in (".", "mv"):
            r.append(O("ins", i=i, x=y, m=m))
            r.append(O("repl", i=i, x=y, m=m))
    for i in (0, 1, "L-1", "L"):
        r.append(O("ins", i=i, x=y, m="it"))
        r.append(O("ins", i=i, x=y, m="itmv"))
        for m in ("vec", "list", "nc", "in"):
            r.append(O("insrange", i=i, v=L3, m=m))
        r.append(O("insrange", i=i, v=[], m="vec"))
        r.append(O("insrange", i=i, v=seq(t, 9, 3), m="vec"))
    for i in (0, "L-1", 1):
        for m in SET_M:
            r.append(O("set", i=i, x=y, m=m))
        r.append(O("appown", i=i, m="."))
        r.append(O("appown", i=i, m="pb"))
        r.append(O("appown", i=i, m="it"))
        for j in (0, "L-1"):
            r.append(O("insown", i=i, j=j))
            r.append(O("replown", i=i, j=j))
            r.append(O("setfrom", s=1, i=i, j=j))
            r.append(O("setfrom", s=2, i=i, j=0, m="r"))
            r.append(O("setfrom", s=4, i=i, j=1, m="w"))
    r.append(O("insown", i="L", j=0))
    r.append(O("replown", i="L", j=0))
    r.append(O("set", i=0, x=y, m="fr"))
    r.append(O("set", i="L-1", x=y, m="bk"))
    for s in (4, 2, 1):
        for n in (-1, 0, 1, 2, "M", "M+3"):
            for m in (".", "np", "op"):
                if n != -1 and m != ".":
                    continue
                if m != "np":
                    r.append(O("appseq", s=s, n=n, m=m))
                if m != "op":
                    for i in (0, 1, "L-1", "L", "L+1"):
                        r.append(O("insseq", s=s, i=i, n=n, m=m))
                        r.append(O("replseq", s=s, i=i, n=n, m=m))
    for s in (4, 2):
        for n in (-1, 0, 1, "M", "M+3"):
            for m in (".", "np", "op"):
                if n != -1 and m != ".":
                    continue
                if m != "np":
                    r.append(O("appseqmv", s=s, n=n, m=m))
                if m != "op":
                    for i in (0, 1, "L", "L+1"):
                        r.append(O("insseqmv", s=s, i=i, n=n, m=m))
                        r.append(O("replseqmv", s=s, i=i, n=n, m=m))
    for n in (0, 1, "L-1", "L"):
        r.append(O("resize", n=n))
    for n in (0, 1, "L-1", "L", "L+1", "L+2", "L+9", 40):
        r.append(O("resizef", n=n, x=z))
        r.append(O("reserve", n=n))
    r.append(O("reserve", n="L+5", m="f"))
    r += [O("clear"), O("popb"), O("asg", s=1), O("asg", s=2), O("asg", s=4), O("asgmove", s=2), O("asgmove", s=4), O("asgmove", s=1),
          O("asglit", v=L3, m="il"), O("asglit", v=[], m="il"), O("asglit", v=seq(t, 6, 7), m="il"),
          O("swap", s=2), O("swap", s=4), O("swap", s=1), O("swap", s=4, m="std"), O("swap", s=2, m="std"),
          O("asgsub", s=2, i=1, j=2), O("asgsub", s=1, i=1, j=2), O("asgsub", s=1, i=1, j=-1, m="call"), O("asgsub", s=1, i=-2, j=-1, m="slice"),
          O("plus", s=4), O("plus", s=2), O("plus", s=1), O("plus", s=4, m="mv"), O("del")]
    if t == "S":
        for n in (-1, 0, 1, 3):
            for i in (0, 1, "L-1", "L", "L+1", -1):
                r.append(O("inslit", i=i, n=n, v=[Z, B, C_]))
                r.append(O("repllit", i=i, n=n, v=[Z, B, C_]))
            r.append(O("applit", n=n, v=[Z, B, C_]))
        r += [O("applit", n=-1, v=[Z, B], m="op"), O("applit", n=-1, v=[]), O("inslit", i=1, n=-1, v=[]), O("repllit", i=1, n=-1, v=[]),
              O("inslit", i=0, n=3, v=[0, 200, 0]), O("repllit", i="L", n=20, v=list(range(60, 80))), O("repllit", i="L-1", n=20, v=list(range(60, 80))),
              O("asglit", v=[Z, B], m="cstr"), O("asglit", v=[], m="cstr"), O("asglit", v=[Z, 0, 255], m="std"), O("asglit", v=[], m="std"),
              O("asglit", v=list(range(70, 90)), m="std"), O("asglit", v=list(range(70, 90)), m="cstr")]
        for (i, n) in ((0, "L"), (1, 2), ("L-1", 1), (0, 1), (1, 0)):
            r.append(O("appself", i=i, n=n))
            for j in (0, 1, "L", "L-1", "L+1"):
                r.append(O("insself", i=i, n=n, j=j))
                r.append(O("replself", i=i, n=n, j=j))
    if t == "V":
        for i in (0, "L-1"):
            for m in (".", "rd", "it", "set"):
                r.append(O("elapp", i=i, w=[90, 91], m=m))
    return r


def op_slice(t):
    r = []
    II = [0, 1, 2, "L-1", "L", "L+1", -1, -2, -9, BIG, -BIG]
    JJ = [-1, 0, 1, 2, "L", "L-1", "L+3", -2, -3, -9, BIG, -BIG]
    for i in II:
        for j in JJ:
            r.append(O("slice", i=i, j=j))
            r.append(O("sliceasg", s=4, i=i, j=j))
    for i in (0, 1, "L-1", "L", "L+1", -1, -2):
        for j in (-1, 0, 1, 2, -2, "L"):
            r.append(O("asgsub", s=1, i=i, j=j))
            r.append(O("sliceasg", s=2, i=i, j=j))
            r.append(O("sliceasg", s=1, i=i, j=j))
            r.append(O("sliceasgmv", s=4, i=i, j=j))
        r.append(O("sliceasg", s=4, i=i, j=-1, m="dflt"))
    for i in (0, 1, "L-1", "L", "L+1"):
        for j in (-1, 0, 1, 2):
            for k in (0, 1, 2, -1, -2, 9):
                for n in (-1, 1, 2, 0, -2):
                    for s in (1, 2, 4):
                        if (len(r) + n) % 11 == 0 or (k, n, i) == (1, 2, 1):
                            r.append(O("sliceasgsl", s=s, i=i, j=j, x=k, n=n, m=".c"[(k + n) % 2]))
                        else:
                            r.append(None)
    r = [o for o in r if o]
    for i in (0, 1, -2, "M", "M-1", "M+1", BIG, -BIG):
        for j in (-1, 0, 2, -2, -BIG, BIG, "M"):
            for m in ("sub", "call", "slice", "get"):
                r.append(O("newsub", 5, 1, i=i, j=j, m=m))
    pm = "S" if t == "S" else "A"
    r += [O("postinc", m=pm), O("postdec", m=pm), O("dropb", n=1, m="pre")]
    for n in (0, 1, 2, "L-1", "L", "L+1", "L+5"):
        r.append(O("dropb", n=n))
        if t != "I":
            r.append(O("dropf", n=n))
    if t != "I":
        r.append(O("dropf", n=1, m="pre"))
    return r


def op_queue(t):
    y = el(t, 21)
    return [O("shift"), O("pop"), O("pop", m="op"), O("unshift", x=y), O("unshift", x=y, m="mv"), O("push", x=y), O("push", x=y, m="mv"), O("push", x=y, m="pb")] + \
        [O(k, m="copy") for k in ("tfirst", "tlast", "tinc", "tdec")] + \
        [O(k, i=i, j=j, m="sub") for k in ("tfirst", "tlast", "tinc", "tdec") for (i, j) in ((0, -1), (0, 1), (1, -1), (1, 2), (-1, 1), (-2, -1))]


def op_range(t):
    r = []
    y = el(t, 1)
    for i in POS + [3, 1 << 62, -(1 << 62), "L+2"]:
        r += [O("at", i=i), O("find", i=i, x=y), O("ins", i=i, x=y), O("repl", i=i, x=y), O("insseq", s=4, i=i), O("replseq", s=4, i=i),
              O("insseq", s=4, i=i, n=1), O("replseq", s=4, i=i, n=1), O("insseqmv", s=4, i=i), O("replseqmv", s=4, i=i), O("insseq", s=2, i=i), O("insseq", s=1, i=i), O("replseq", s=1, i=i),
              O("insseq", s=4, i=i, n=0), O("replseq", s=4, i=i, n=0), O("insseqmv", s=4, i=i, n=2), O("replseqmv", s=4, i=i, n=2),
              O("insown", i=i, j=0), O("replown", i=i, j=0), O("sliceasg", s=4, i=i, j=-1), O("sliceasgmv", s=4, i=i, j=1)]
        if t == "S":
            r += [O("at", i=i, m="ch"), O("fsub", s=4, i=i), O("fsub", s=1, i=i), O("inslit", i=i, v=[Z, B], n=-1), O("repllit", i=i, v=[Z, B], n=-1),
                  O("inslit", i=i, v=[Z, B], n=2), O("repllit", i=i, v=[Z, B], n=2), O("inslit", i=i, v=[Z], n=0),
                  O("insself", i=0, n=1, j=i), O("replself", i=0, n=1, j=i)]
    return r


def op_read(t):
    r = []
    for i in (0, 1, "L-1"):
        for m in (".", "nc", "get", "rd", "rdnc", "data"):
            r.append(O("idx", i=i, m=m))
    r += [O("idx", i=0, m="fr"), O("idx", i="L-1", m="bk")]
    for m in (".", "nc", "rf", "rfnc", "md"):
        r.append(O("iter", m=m))
    for m in (".", "nc", "c"):
        r.append(O("riter", m=m))
    r += [O("len"), O("empty"), O("eq", s=2), O("eq", s=4), O("eq", s=1), O("hashf", s=2), O("hashf", s=4), O("hashf", s=1), O("newcopy", 5, 1)]
    if t != "S":
        r += [O("eqn", s=s, n=n) for s in (1, 2, 4) for n in (-1, 0, 1, "L", 9)]
    if t == "S":
        r += [O("ostream", m="sh")]
        r += [O("cstr"), O("cstr", m="op"), O("dup"), O("stdstr"), O("ostream"), O("ostream", m="rv")]
        r += [O("copyout", n=n) for n in (-1, 0, 1, "L-1", "L", "L+1", 50)]
    return r


def end(k=0):
    return O("end", i=k)


def std_session(t, ctx, op, epi, endk, src=None):
    ops = list(ctx) + [O("newlit", 4, v=seq(t, 3, 12) if src is None else src)] + [op]
    ops += epi
    ops.append(end(endk))
    return dict(type=t, ops=ops)


def epilogues(t):
    y = el(t, 24)
    return [[], [O("app", 1, x=y), O("app", 2, x=y)], [O("set", 2, i=0, x=y), O("iter", 1), O("app", 3, x=y)],
            [O("del", 2), O("set", 1, i="L-1", x=y), O("hashf", 1, 3)], [O("hashf", 1, 2), O("ins", 1, i=0, x=y), O("hashf", 1, 2)],
            [O("newcopy", 5, 1), O("del", 1), O("app", 5, x=y), O("clear", 2)]]


def systematic(types, opsf, ctxs=None, rng=None, limit=None, withempty=True, pre=None):
    out = []
    for t in types:
        cs = contexts(t) + (empty_contexts(t) if withempty else [])
        if ctxs:
            cs = [c for c in cs if c[0] in ctxs]
        epis = epilogues(t)
        k = 0
        for name, ctx in cs:
            for op in opsf(t):
                epi = epis[k % len(epis)]
                pr = pre(t, k) if pre else []
                out.append(std_session(t, ctx + pr, op, epi, k % 2))
                k += 1
    if limit and len(out) > limit:
        out = (rng or random.Random(1)).sample(out, limit)
    return out


USES_S = set("newcopy newmove newsub asg asgmove asgsub swap appseq appseqmv insseq insseqmv replseq replseqmv setfrom sliceasg sliceasgsl sliceasgmv eq hashf cmp rel eqn fsub rfsub ifsub rifsub split plus".split())


def rand_sessions(t, opsf, count, length, rng, big=False):
    """random walks over all slots using operation templates; liveness is tracked so that nearly
    all calls are within their preconditions; big: objects of tens to hundreds of elements"""
    NS = [0, 1, 2, -1, -2, "M-1", 5] if not big else [0, 1, 15, 16, 63, 64, 65, 100, 128, -1, -64, -100, "M-1", "M-64"]
    NJ = [-1, -1, 1, 2, 3, -2, 0] if not big else [-1, -1, 1, 16, 63, 64, 65, 100, 128, 200, -2, -64, 0]
    by = {}
    for o in opsf(t):
        if o["op"] != "del":
            by.setdefault(o["op"], []).append(o)
    names = sorted(by)
    out = []
    for _ in range(count):
        ops, live, est = [], set(), {}
        while len(ops) < length:
            r = rng.random()
            dead = [k for k in range(1, 6) if k not in live]
            if not live or (dead and r < 0.18):
                d = rng.choice(dead)
                k = rng.choice(["newlit", "newcopy", "newcopy", "newsub", "newsub", "newmove", "newcap", "newfill", "newlit"]) if live else "newlit"
                o = O(k, d, rng.choice(sorted(live)) if live else 0)
                if k == "newlit":
                    o["v"] = seq(t, rng.randint(0, 6) if not big else rng.choice([rng.randint(0, 40), rng.randint(60, 140), rng.randint(120, 280)]), rng.randint(0, 20))
                    o["m"] = rng.choice([m for m in NEWLIT_M[t] if m != "il" or len(o["v"]) <= 6])
                elif k == "newsub":
                    o["i"], o["j"] = rng.choice(NS), rng.choice(NJ)
                    o["m"] = rng.choice(["sub", "call", "slice"])
                elif k == "newcap":
                    o["n"] = rng.randint(0, 12 if not big else 300)
                elif k == "newfill":
                    o["n"], o["x"] = rng.randint(0, 6 if not big else 200), el(t, rng.randint(0, 25))
                live.add(d)
            elif r < 0.25 and len(live) > 1:
                d = rng.choice(sorted(live))
                o = O("del", d)
                live.discard(d)
            elif r < 0.33:
                d, s = rng.choice(sorted(live)), rng.choice(sorted(live))
                k = rng.choice(["asg", "asgmove", "asgsub", "swap"])
                o = O(k, d, s)
                if k == "asgsub":
                    o["i"], o["j"] = rng.choice(NS), rng.choice(NJ)
            else:
                o = dict(rng.choice(by[rng.choice(names)]))
                if o["op"] in ("newsub", "newcopy"):
                    if not dead:
                        continue
                    o["d"] = rng.choice(dead)
                    live.add(o["d"])
                else:
                    o["d"] = rng.choice(sorted(live))
                if big and rng.random() < 0.6:
                    for k in "ij":
                        if o[k] != 0 and o["m"] not in ("fr", "bk", "dflt", "np") and o["op"] not in ("fmt", "appself", "insself", "replself", "insrange"):
                            o[k] = rng.choice([k for k in NS if k in (0, 1) or not str(k).startswith("-")])
                    if o["op"] in ("reserve", "resizef", "dropf", "dropb", "resize") and o["m"] != "pre":
                        o["n"] = rng.choice([0, 1, 15, 16, 63, 64, 65, 100, 128, "L", "L-64", "L+64", "L-1", 200, 300])
                    if o["op"] == "insrange":
                        o["v"] = seq(t, rng.choice([1, 16, 64, 100]), rng.randint(0, 20))
                if o["op"] in USES_S:
                    o["s"] = rng.choice(sorted(live))
            ops.append(o)
            if rng.random() < (0.05 if not big else 0.15):
                ops.append(O("slice", o["d"], i=rng.choice([0, 1] if not big else [0, 1, 63, 64, 70, 128]), j=10 if not big else rng.choice([100, 150, 250])))
        ops.append(end(rng.randint(0, 1)))
        out.append(dict(type=t, ops=ops))
    return out


# ---------------------------------------------------------------- text operations (String)
def words(alpha, maxlen, minlen=0):
    out = [[]]
    r = [[]] if minlen == 0 else []
    for k in range(1, maxlen + 1):
        out = [w + [a] for w in out for a in alpha]
        if k >= minlen:
            r += out
    return r


def grouped(setup_ops, groups, t="S", per=40):
    """sessions made of setup + slices of a long list of operations"""
    out = []
    for setup, ops in zip(setup_ops, groups):
        for k in range(0, len(ops), per):
            out.append(dict(type=t, ops=list(setup) + ops[k:k + per] + [end(k % 2)]))
    return out


def op_search(t):
    r = []
    for k in (0, 1, 3, 5, 6, 9, 12, 25):
        x = el(t, k)
        r += [O("rfind", x=x), O("find", x=x, i=0, m="np")] + [O("find", x=x, i=i) for i in (0, 1, "L-1", "L", "L+1")]
    if t == "S":
        for s in (4, 2, 1):
            r += [O("fsub", s=s, i=i) for i in (0, 1, "L-1", "L", "L+1")]
            r += [O("rfsub", s=s, i=i) for i in (0, 1, "L-1", "L", "L+1")]
            r += [O("rifsub", s=s, i=i) for i in (0, 1, "L-1", "L")] + [O("ifsub", s=s), O("fsub", s=s, m="np"), O("rfsub", s=s, m="np"), O("rifsub", s=s, m="np")]
    return r


def search_sessions(rng, limit):
    """every haystack up to 4 and needle up to 3 over small alphabets, all positions"""
    out = []
    pool = []
    for alpha in ([97, 65, 98], [97, 98], [0, 200, 97]):
        H = words(alpha, 5 if len(alpha) == 2 else 4)
        N = words(alpha, 3)
        pool += [(h, n) for h in H for n in N]
    # needles partially matching, repeated prefixes, long haystacks
    for _ in range(600):
        h = [rng.choice([97, 98, 65]) for _ in range(rng.randint(5, 40))]
        k = rng.randint(0, len(h) - 1)
        n = h[k:k + rng.randint(1, 8)]
        if rng.random() < 0.3 and n:
            n = n[:-1] + [rng.choice([97, 66, 98])]
        pool.append((h, n))
    if len(pool) > limit:
        pool = rng.sample(pool, limit)
    for h, n in pool:
        L = len(h)
        ops = [O("newlit", 2, v=[98] + h + [97, 98]), O("newsub", 1, 2, i=1, j=L) if rng.random() < 0.5 else O("newlit", 1, v=h), O("newlit", 3, v=n)]
        for i in range(0, min(L, 6) + 2):
            ops.append(O("fsub", 1, 3, i=i))
            if i <= L:
                ops.append(O("rfsub", 1, 3, i=i))
                ops.append(O("rifsub", 1, 3, i=i))
        ops += [O("ifsub", 1, 3), O("fsub", 1, 3, m="np"), O("rfsub", 1, 3, m="np"), O("rifsub", 1, 3, m="np")]
        if n:
            ops += [O("find", 1, x=n[0], i=i) for i in range(0, min(L, 5) + 2)] + [O("rfind", 1, x=n[0])]
        out.append(dict(type="S", ops=ops + [end()]))
    for t in "IVT":
        for w in rng.sample(words([0, 1, 2], 4), 60):
            X = [el(t, k) for k in w]
            ops = [O("newlit", 2, v=[el(t, 0)] + X + [el(t, 1)]), O("newsub", 1, 2, i=1, j=len(w))]
            for k in (0, 1, 3):
                ops += [O("find", 1, x=el(t, k), i=i) for i in range(0, len(w) + 2)] + [O("rfind", 1, x=el(t, k)), O("find", 1, x=el(t, k), m="np")]
            out.append(dict(type=t, ops=ops + [end()]))
    return out


def cmp_sessions(rng, limit):
    W = words([0, 97, 200], 3)
    pool = [(a, b) for a in W for b in W]
    for _ in range(500):
        a = [rng.randint(0, 255) for _ in range(rng.randint(0, 12))]
        b = list(a)
        if b and rng.random() < 0.7:
            b[rng.randrange(len(b))] = rng.randint(0, 255)
        if rng.random() < 0.4:
            b = b[:rng.randint(0, len(b))]
        if rng.random() < 0.3:
            b = b + [rng.choice([0, 1, 127, 128, 255])]
        pool.append((a, b))
    if len(pool) > limit:
        pool = rng.sample(pool, limit)
    out = []
    for a, b in pool:
        L = len(a)
        ops = [O("newlit", 2, v=[1] + a + [2, 3]), O("newsub", 1, 2, i=1, j=L) if rng.random() < 0.5 else O("newlit", 1, v=a, m=rng.choice(["ptr", "vec"])),
               O("newlit", 3, v=b), O("rel", 1, 3), O("rel", 3, 1), O("rel", 1, 1), O("relc", 1, v=b), O("eq", 1, 3)]
        for n in sorted({-1, 0, 1, 2, 3, 4, L, L + 1, max(L - 1, 0), len(b), 1000}):
            ops += [O("cmp", 1, 3, n=n), O("cmpc", 1, v=b, n=n)]
        ops += [O("newcopy", 4, 1), O("rel", 1, 4), O("rel", 1, 2), O("slice", 4, i=0, j=-2), O("rel", 4, 1), O("rel", 1, 4), O("cmp", 1, 4, n=L), O("cmp", 4, 1, n=2)]
        out.append(dict(type="S", ops=ops + [end()]))
    for t in "IVT":
        W = words([0, 1], 3)
        for a in W:
            for b in rng.sample(W, 6) + [a]:
                A_, B_ = [el(t, k) for k in a], [el(t, k) for k in b]
                out.append(dict(type=t, ops=[O("newlit", 1, v=A_), O("newlit", 2, v=[el(t, 0)] + B_ + [el(t, 1)]), O("newsub", 3, 2, i=1, j=len(b)), O("eq", 1, 3), O("eq", 3, 1),
                                             O("newcopy", 4, 1), O("eq", 1, 4), O("slice", 4, i=0, j=-2), O("eq", 1, 4), O("eq", 4, 1), O("newsub", 5, 1, i=1, j=-1), O("eq", 1, 5), O("eq", 4, 5)] + [O("eqn", 1, 3, n=n) for n in (0, 1, 2, 3, 4, -1)] + [O("eqn", 1, 2, n=1), O("eqn", 4, 1, n=1), end()]))
    return out


def text_sessions(rng, scale=1.0):
    out = []

    def some(xs, n):
        n = int(n * scale)
        return xs if len(xs) <= n else rng.sample(xs, n)
    # split
    delims = [[32], [44], [44, 32], [97], [], [97, 98], [97, 97], [32, 32]]
    ops = []
    contents = words([97, 32, 44], 5)
    for h in some(contents, 240):
        off = rng.random() < 0.5
        base = [O("newlit", 2, v=[97] + h + [32]), O("newsub", 1, 2, i=1, j=len(h))] if off else [O("newlit", 1, v=h)]
        o = []
        for d in delims:
            o.append(O("newlit", 3, v=d))
            o += [O("split", 1, 3, n=n) for n in (-1, 1, 2, 3, 9)]
            o.append(O("del", 3))
        out.append(dict(type="S", ops=base + o + [end()]))
    for _ in range(int(120 * scale)):
        h = [rng.choice([97, 98, 32, 44, 0, 200]) for _ in range(rng.randint(5, 40))]
        d = [rng.choice([32, 44, 97, 0]) for _ in range(rng.randint(1, 3))]
        out.append(dict(type="S", ops=[O("newlit", 1, v=h), O("newlit", 3, v=d)] + [O("split", 1, 3, n=n) for n in (-1, 1, 2, 4, 50)] + [O("split", 1, 1), O("app", 1, x=97), end()]))
    # sub
    for h in some(words([97, 98], 5), 63):
        o = [O("newlit", 2, v=[97] + h + [98]), O("newsub", 1, 2, i=1, j=len(h))]
        for a in some(words([97, 98], 2) + [[97, 97, 97]], 8):
            for b in ([], [120], [97], [97, 97], [97, 98], [98, 97, 97]):
                for n in (-1, 1, 2, 7):
                    o.append(O("sub", 1, v=a, w=b, n=n, m=rng.choice([".", "np"])))
        out.append(dict(type="S", ops=o + [end()]))
    # subst
    for _ in range(int(150 * scale)):
        h = [rng.choice([97, 98, 99]) for _ in range(rng.randint(0, 12))]
        kv = {}
        for _ in range(rng.randint(0, 3)):
            kv[tuple(rng.choice([97, 98, 99]) for _ in range(rng.randint(0, 2)))] = [rng.choice([97, 98, 120]) for _ in range(rng.randint(0, 3))]
        out.append(dict(type="S", ops=[O("newlit", 1, v=h), O("subst", 1, kv=[[list(k), v] for k, v in kv.items()]), O("iter", 1), end()]))
    # tokenising
    for h in some(words([97, 32, 44], 5), 180):
        for x in (32, 44, 97):
            o = [O("newlit", 2, v=h), O("newcopy", 1, 2)] + [O("newsplit", 1, x=x, m="np" if x == 32 and rng.random() < .5 else ".")] * 4 + [O("app", 1, x=98), O("iter", 2)]
            out.append(dict(type="S", ops=o + [end()]))
    # trim, chomp
    for h in some(words([32, 97, 9], 4) + words([10, 97, 13], 4) + [[c] + [97, c] for c in range(0, 256)] + [[97, c] for c in range(256)], 420):
        out.append(dict(type="S", ops=[O("newlit", 2, v=h), O("newcopy", 1, 2), O("chompc", 1), O("trimc", 1), O("chomp", 1), O("trim", 1), O("app", 1, x=98),
                                       O("iter", 2), O("newsub", 3, 2, i=0, j=-2), O("trim", 3), O("chomp", 3), O("cstr", 3), O("trim", 2), end()]))
    # repetition
    for h in words([97, 98], 2):
        out.append(dict(type="S", ops=[O("newlit", 1, v=h), O("newsub", 2, 1, i=1)] + [O("rep", 1, n=n) for n in (0, 1, 2, 5, 17)] + [O("rep", 2, n=3), end()]))
    # join
    E = [[], [97], [98, 98], [34], [0, 200]]
    for w in words([0, 1, 2, 3, 4], 2) + some(words([0, 1, 2, 3, 4], 3, 3), 90):
        o = [O("newlit", 2, v=[[99]] + [E[k] for k in w] + [[100]]), O("newsub", 1, 2, i=1, j=len(w))]
        for d in ([], [44], [44, 32], [0]):
            o += [O("join", 1, w=d, n=0), O("join", 1, w=d, n=1), O("join", 2, w=d, n=0)]
        out.append(dict(type="V", ops=o + [end()]))
    return out


def io_sessions(rng, scale=1.0):
    out = []
    big = [4094, 4095, 4096, 4097, 8191, 8192, 10000]
    for L in [0, 1, 5] + big:
        h = [97 + k % 26 for k in range(L)]
        out.append(dict(type="S", ops=[O("newlit", 1, v=h), O("printf", 1, w=[]), O("printf", 1, w=[120]), O("ostream", 1), O("printf", 1, w=[37, 115]), end()]))
    for k in range(6):
        h = [97 + k % 26 for k in range(rng.randint(4050, 4130))]
        out.append(dict(type="S", ops=[O("newlit", 1, v=h), O("printf", 1, w=[]), end()]))
    fm = []
    ints = [0, 1, -1, 9, 10, -10, 99, 100, 12345, -98765, 999999999, -999999999, 255, 65536]
    for h in ([], [97], [98, 98, 98, 98, 98], [37, 100], [200, 1, 255]):
        ops = [O("newlit", 1, v=h)]
        for n in ints:
            ops += [O("fmt", 1, i=n, m="sd"), O("fmt", 1, i=n, m="ds")]
        for n in (0, 1, 4, 5, 6, 20, 4094, 4095, 4096, 5000):
            ops += [O("fmt", 1, n=n, m="pad"), O("fmt", 1, n=n, m="lpad"), O("fmt", 1, n=n, m="prec")]
        for c in (1, 65, 128, 255, 0):
            ops += [O("fmt", 1, i=c, m="c")]
        ops += [O("fmt", 1, m="pct"), O("fmt", 1, m="none")] + [O("fmt", 1, i=n, m="x") for n in (0, 1, 255, 4096, 999999999)]
        out.append(dict(type="S", ops=ops + [end()]))
    # streams
    for h in rng.sample(words([97, 32, 10], 5), int(150 * scale)) + [[c, 97, c, 98] for c in range(256)]:
        out.append(dict(type="S", ops=[O("newlit", 1, v=[99, 100]), O("newcopy", 2, 1), O("rdword", 1, v=h), O("rdline", 1, v=h), O("ostream", 1), O("rdword", 2, v=h + [32, 97]), O("rdline", 2, v=h + [10, 97]), end()]))
    for _ in range(int(60 * scale)):
        h = [rng.choice([97, 98, 0, 200, 32, 10, 13]) for _ in range(rng.randint(0, 60))]
        out.append(dict(type="S", ops=[O("newlit", 1, v=h), O("ostream", 1), O("ostream", 1, m="rv"), O("ostream", 1, m="sh"), O("newsub", 2, 1, i=2, j=-3), O("ostream", 2), O("rdword", 2, v=h), O("rdline", 2, v=h), O("ostream", 1), end()]))
    return out


def view_sessions(rng, limit):
    """C-string and flat views in all storage arrangements, with embedded and stale NULs"""
    out = []
    views = [O("cstr"), O("cstr", m="op"), O("dup"), O("stdstr"), O("copyout", n=-1), O("copyout", n=2), O("copyout", n="L+1"), O("copyout", n="L"), O("copyout", n=0)]
    muts = [O("app", x=90), O("ins", i=0, x=90), O("slice", i=1, j=-1), O("slice", i=0, j=-2), O("popb"), O("set", i="L-1", x=90), O("resizef", n="L+1", x=90), O("dropf", n=1),
            O("appseq", s=1), O("reserve", n="L"), O("reserve", n="L+1"), O("clear"), O("asglit", v=[90, 91], m="cstr"), O("asg", s=2), O("newcopy", 5, 1), O("resize", n="L-1"), O("appseq", s=2),
            O("asglit", v=[90, 91], m="il"), O("asglit", v=[90, 0], m="std"), O("insrange", i=1, v=[1, 2], m="vec"), O("trim"), O("replseq", s=2, i="L"), O("swap", s=2)]
    ctxs = contexts("S") + empty_contexts("S")
    for L in (1, 2, 15, 16, 17, 31):
        for m in ("ptr", "il", "vec", "cstr", "std"):
            if m != "il" or L <= 6:
                ctxs.append(("len%d%s" % (L, m), [O("newlit", 1, v=[97 + k % 26 for k in range(L)], m=m)]))
    for nm, c in (("nul", [97, 0, 98, 0, 0]), ("nul0", [0, 0, 0, 0]), ("hi", [255, 128, 200, 127])):
        ctxs.append((nm, [O("newlit", 1, v=c)]))
        ctxs.append((nm + "s", [O("newlit", 2, v=[99] + c + [0, 98]), O("newsub", 1, 2, i=1, j=3), O("newsub", 3, 2, i=2, j=4)]))
    for name, c in ctxs:
        for mu in muts:
            for v in views[:3] + rng.sample(views[3:], 2):
                v2 = dict(v)
                v2["d"] = 2
                out.append(dict(type="S", ops=list(c) + [dict(v), dict(mu), dict(v), v2, O("cstr", 3), O("app", 1, x=95), dict(v), O("cstr", 5), end(len(out) % 2)]))
    if len(out) > limit:
        out = rng.sample(out, limit)
    return out


def move_sessions(rng, types="SIVT"):
    out = []
    for t in types:
        y = el(t, 24)
        uses = [[O("app", 2, x=y)], [O("iter", 2), O("len", 2), O("empty", 2)], [O("hashf", 2, 1)], [O("asg", 2, 1), O("app", 2, x=y)], [O("clear", 2), O("app", 2, x=y)],
                [O("newcopy", 5, 2), O("app", 5, x=y)], [O("insseq", 2, 1, i=0)], [O("appseq", 2, 1)], [O("appseq", 1, 2)], [O("asglit", 2, v=seq(t, 3, 1), m="il")], [O("resizef", 2, n=3, x=y)],
                [O("reserve", 2, n=4), O("app", 2, x=y)], [O("newsub", 5, 2, i=0, j=2)], [O("slice", 2, i=1, j=1)], [O("swap", 2, 1)], [O("asgmove", 2, 1), O("app", 2, x=y)],
                [O("del", 2)], [O("find", 2, x=y), O("rfind", 2, x=y), O("at", 2, i=0)], [O("ins", 2, i=0, x=y)], [O("repl", 2, i=0, x=y)], [O("replseq", 2, 1, i=0)], [O("iter", 2, m="nc"), O("riter", 2, m="nc")],
                [O("asg", 1, 2)], [O("asgmove", 1, 2)], [O("eq", 2, 1), O("plus", 2, 1), O("plus", 1, 2)], [O("sliceasg", 2, 1, i=0, j=-1)], [O("dropb", 2, n=1)], [O("insrange", 2, i=0, v=seq(t, 3, 2), m="vec")]]
        if t == "S":
            uses += [[O("cstr", 2), O("app", 2, x=y), O("cstr", 2)], [O("applit", 2, v=[97], n=-1)], [O("fsub", 2, 1), O("rfsub", 2, 1), O("ifsub", 2, 1)], [O("rel", 2, 1), O("cmp", 2, 1), O("dup", 2), O("stdstr", 2)],
                     [O("asglit", 2, v=[97, 98], m="cstr")], [O("asglit", 2, v=[97, 98], m="std")], [O("trim", 2), O("chomp", 2)], [O("ostream", 2), O("rep", 2, n=2)], [O("newsplit", 2, x=32)], [O("dropf", 2, n=2)], [O("rdword", 2, v=[97, 32])]]
        else:
            uses += [[O("push", 2, x=y), O("shift", 2)], [O("unshift", 2, x=y), O("pop", 2)]]
        src = [[O("newlit", 2, v=seq(t, 4))], [O("newlit", 2, v=seq(t, 4)), O("newcopy", 3, 2)], [O("newlit", 3, v=seq(t, 6)), O("newsub", 2, 3, i=1, j=3)], [O("newlit", 3, v=seq(t, 6)), O("newsub", 2, 3, i=1, j=3), O("del", 3)],
               [O("new", 2)], [O("newcap", 2, n=6), O("app", 2, x=y)], [O("newlit", 2, v=seq(t, 4)), O("hashf", 2, 2)]]
        mv = [[O("newmove", 1, 2)]] + [c + [m] for c in ([O("new", 1)], [O("newlit", 1, v=seq(t, 2, 9))], [O("newlit", 1, v=seq(t, 7, 9))], [O("newlit", 1, v=seq(t, 5, 9)), O("newcopy", 4, 1)], [O("newcap", 1, n=9)])
                                      for m in (O("asgmove", 1, 2), O("appseqmv", 1, 2), O("insseqmv", 1, 2, i=0), O("replseqmv", 1, 2, i=0), O("sliceasgmv", 1, 2, i=0, j=-1), O("swap", 1, 2, m="std"), O("insseqmv", 1, 2, i=0, n="M"), O("insseqmv", 1, 2, i="L+1"), O("replseqmv", 1, 2, i=0, n=1))]
        k = 0
        for s in src:
            for m in mv:
                for u in uses:
                    out.append(dict(type=t, ops=s + m + u + ([O("set", 1, i=0, x=y), O("iter", 2)] if k % 2 else [O("app", 2, x=y), O("iter", 1)]) + [end(k % 2)]))
                    k += 1
    return out


def queue_sessions(rng, count):
    out = []
    for t in "IVT":
        for c in range(count):
            ops = [O("new", 1)] if c % 3 else [O("newlit", 1, v=seq(t, rng.randint(1, 6)))]
            n = 0 if c % 3 else len(ops[0]["v"])
            k = 0
            for _ in range(40):
                r = rng.random()
                k += 1
                if n == 0 or (r < 0.42 and n < 14):
                    ops.append(O(rng.choice(["push", "push", "unshift"]), 1, x=el(t, k), m=rng.choice([".", "mv"])))
                    n += 1
                elif r < 0.85:
                    ops.append(O(rng.choice(["shift", "shift", "pop"]), 1, m="."))
                    if ops[-1]["op"] == "pop" and rng.random() < .5:
                        ops[-1]["m"] = "op"
                    n -= 1
                elif r < 0.91:
                    d = rng.randint(2, 4)
                    ops += [O("del", d), O("newcopy", d, 1) if rng.random() < .5 else O("newsub", d, 1, i=rng.randint(0, 2), j=rng.choice([-1, 2]))]
                elif r < 0.95:
                    d = rng.randint(2, 4)
                    ops.append(rng.choice([O("push", d, x=el(t, k)), O("shift", d), O("pop", d), O("unshift", d, x=el(t, k))]))
                elif r < 0.97:
                    ops.append(O("asg", 1, rng.randint(2, 4)))
                    n = 0 if n == 0 else n
                else:
                    ops.append(rng.choice([O("postinc", 1, m="A"), O("postdec", 1, m="A"), O("iter", 1), O("hashf", 1, 1)]))
            out.append(dict(type=t, ops=ops + [end(c % 2)]))
    return out
