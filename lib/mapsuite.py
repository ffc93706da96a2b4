"""HashTable suite: scripts and runs (C14, parts of C05 and C12)."""
import vf, suite, mcsuite

EMPTY = dict(post=[dict(l=0, m=[], n=0)] * 3, kv=[[], [], []], vv=[[], [], []], ret=0)
KEYS = [[97], [98], [97, 98], [98, 97], [99] * 20, [97, 97], [200, 128], [97, 99]]
VALS = [[], [120], [121, 122], [120] * 17, [250]]


def O(op, **k):
    return dict(op=op, **k)


def keys(h):
    return KEYS + ([] if h == "IS" else [[]]) if h != "IS" else [[97], [98], [97, 98], [98, 97], [99, 1], [1, 200]]


def vals(h):
    return [[], [120], [121, 122], [250]] if h == "SI" else VALS


def tag(s):
    h = s["head"]
    if h == "IS":     # integers have at most 4 bytes, no leading zero
        pass
    return s


def ops(h, r):
    K, V = keys(h), vals(h)
    rk = lambda: r.choice(K[:5] if r.random() < .7 else K)
    rv = lambda: r.choice(V)
    d = lambda: r.choice([1, 1, 1, 2, 3])
    t = r.choice
    c = r.random()
    if c < .06:
        return t([O("new", d=d()), O("newcap", d=d(), n=t([0, 1, 7, 500])), O("del", d=d())])
    if c < .16:
        return t([O("newcopy", d=d(), s=d()), O("newmove", d=d(), s=d()), O("asg", d=d(), s=d()), O("asgmove", d=d(), s=d()), O("swap", d=d(), s=d())])
    if c < .20:
        n = r.randint(0, 3)
        return O(t(["newlist", "asglist"]), d=d(), ks=suite.L([rk() for _ in range(n)]), vs=suite.L([rv() for _ in range(n)]))
    if c < .22:
        return O("clear", d=d())
    if c < .40:
        return O("ins", d=d(), k=rk(), v=rv(), m=r.randint(0, 3))
    if c < .48:
        return O("insvar", d=d(), kvar=r.randint(1, 3), vvar=r.randint(1, 3), m=r.randint(0, 3))
    if c < .52:
        return O(t(["insval", "idxval"]), d=d(), k=rk(), k2=rk())
    if c < .55:
        return O("idxvar", d=d(), kvar=r.randint(1, 3), vvar=r.randint(1, 3), m=r.randint(0, 2))
    if c < .61:
        return O("idxset", d=d(), k=rk(), v=rv(), m=r.randint(0, 1))
    if c < .65:
        return O("idx", d=d(), k=rk(), m=r.randint(0, 1))
    if c < .71:
        return O(t(["cidx", "get", "contains"]), d=d(), k=rk())
    if c < .74:
        return O(t(["getvar", "hasvar", "rmvar"]), d=d(), kvar=r.randint(1, 3))
    if c < .80:
        return O("remove", d=d(), k=rk())
    if c < .82:
        return O("rmself", d=d(), k2=rk())
    if c < .86:
        return O("find", d=d(), k=rk(), m=r.randint(0, 1))
    if c < .88:
        return O("findset", d=d(), k=rk(), v=rv())
    if c < .89:
        return O("vtake", d=d(), k2=rk())
    if c < .92:
        return t([O("size", d=d()), O("empty", d=d()), O("iter", d=d(), m=r.randint(0, 2))])
    if c < .95:
        return O("kset", kvar=r.randint(1, 3), k=rk())
    if c < .97:
        return O("vset", vvar=r.randint(1, 3), v=rv())
    return t([O("kmut", kvar=r.randint(1, 3), v=[t([97, 98, 99])], m=r.randint(0, 2)), O("vmut", vvar=r.randint(1, 3), v=[t([120, 121])], m=r.randint(0, 2))])


def fixint(h, o):
    """key mutation may grow integers beyond 4 bytes: keep them short"""
    if h == "IS" and o["op"] == "kmut" and o["m"] == 0:
        return dict(o, m=1)
    if h == "SI" and o["op"] == "vmut" and o["m"] == 0:
        return dict(o, m=1)
    return o


def random_sessions(r, n, length):
    out = []
    for i in range(n):
        h = ["SS", "SI", "IS", "SV"][i % 4]
        s = [O("new", d=1)] + [O("kset", kvar=1, k=keys(h)[0]), O("vset", vvar=1, v=vals(h)[1])]
        if i % 3 == 0:
            s = [O("newlist", d=1, ks=suite.L(keys(h)[:3]), vs=suite.L([vals(h)[1], vals(h)[2], vals(h)[3]]))] + s[1:]
        s += [fixint(h, ops(h, r)) for _ in range(length)] + [O("end")]
        out.append(dict(head=h, ops=s))
    return out


def systematic():
    """every operation x key present/absent x table copied/moved/hash cached/keys mutated afterwards"""
    out = []
    for h in ("SS", "SI", "IS", "SV"):
        K, V = keys(h), vals(h)
        base = {"empty": [O("new", d=1)], "cap0": [O("newcap", d=1, n=0)], "one": [O("new", d=1), O("ins", d=1, k=K[0], v=V[1], m=0)],
                "three": [O("newlist", d=1, ks=suite.L(K[:3]), vs=suite.L([V[1], V[2], V[3]]))],
                "copied": [O("newlist", d=1, ks=suite.L(K[:3]), vs=suite.L([V[1], V[2], V[3]])), O("newcopy", d=2, s=1)],
                "movedin": [O("newlist", d=2, ks=suite.L(K[:3]), vs=suite.L([V[1], V[2], V[3]])), O("newmove", d=1, s=2)],
                "movedfrom": [O("newlist", d=1, ks=suite.L(K[:3]), vs=suite.L([V[1], V[2], V[3]])), O("newmove", d=2, s=1)],
                "removed": [O("newlist", d=1, ks=suite.L(K[:3]), vs=suite.L([V[1], V[2], V[3]])), O("remove", d=1, k=K[0]), O("remove", d=1, k=K[1]), O("remove", d=1, k=K[2])],
                "bulk": [O("new", d=1), O("bulkins", d=1, a=0, b=40), O("ins", d=1, k=K[0], v=V[1], m=0), O("bulkdel", d=1, a=3, b=38)],
                "vars": [O("new", d=1), O("kset", kvar=1, k=K[0]), O("vset", vvar=1, v=V[2]), O("insvar", d=1, kvar=1, vvar=1, m=0), O("kmut", kvar=1, v=[99], m=1), O("vmut", vvar=1, v=[99], m=1)]}
        tests = []
        for k in (K[0], K[1], K[3], K[-1]):
            for m in range(4):
                tests.append(O("ins", d=1, k=k, v=V[3], m=m))
            for m in range(2):
                tests += [O("idxset", d=1, k=k, v=V[3], m=m), O("idx", d=1, k=k, m=m), O("find", d=1, k=k, m=m)]
            tests += [O("cidx", d=1, k=k), O("get", d=1, k=k), O("contains", d=1, k=k), O("remove", d=1, k=k), O("findset", d=1, k=k, v=V[2]),
                      O("insval", d=1, k=k, k2=K[0]), O("idxval", d=1, k=k, k2=K[0])]
        tests += [O("rmself", d=1, k2=K[0]), O("vtake", d=1, k2=K[0]), O("size", d=1), O("empty", d=1), O("clear", d=1), O("asg", d=1, s=1), O("asgmove", d=1, s=1), O("swap", d=1, s=1),
                  O("asg", d=1, s=2), O("asgmove", d=1, s=2), O("swap", d=1, s=2), O("newcopy", d=3, s=1), O("newmove", d=3, s=1), O("asglist", d=1, ks=suite.L(), vs=suite.L()),
                  O("asglist", d=1, ks=suite.L([K[1], K[1]]), vs=suite.L([V[1], V[2]])), O("del", d=1)] + [O("iter", d=1, m=m) for m in range(3)]
        for m in range(4):
            tests.append(O("insvar", d=1, kvar=1, vvar=1, m=m))
        for m in range(3):
            tests.append(O("idxvar", d=1, kvar=1, vvar=1, m=m))
        for nm, b in base.items():
            for t in tests:
                after = [O("iter", d=1, m=0), O("size", d=1), O("empty", d=1), O("contains", d=1, k=K[0]), O("get", d=1, k=K[1]), O("ins", d=1, k=K[0], v=V[2], m=0), O("remove", d=1, k=K[1]), O("kmut", kvar=1, v=[98], m=1), O("hasvar", d=1, kvar=1), O("iter", d=2, m=1)]
                out.append(dict(head=h, ops=b + [t] + after + [O("end")]))
    return out


def big_sessions(n=260):
    out = []
    for h in ("SS", "IS"):
        out.append(dict(head=h, ops=[O("newcap", d=1, n=1), O("bulkins", d=1, a=0, b=n), O("bulkins", d=1, a=n // 2, b=n + 30), O("size", d=1), O("iter", d=1, m=0), O("newcopy", d=2, s=1), O("bulkdel", d=1, a=10, b=n), O("iter", d=1, m=1),
                                     O("bulkins", d=1, a=0, b=20), O("contains", d=1, k=[75, 1, 6]), O("contains", d=1, k=[75, 1, 60]), O("contains", d=2, k=[75, 1, 60]), O("asgmove", d=1, s=2), O("size", d=1), O("size", d=2), O("bulkins", d=2, a=0, b=5), O("end")]))
    return out


MC = [dict(NT=2, MaxDepth=100, Vars="FALSE"), dict(NT=1, MaxDepth=100, Vars="TRUE")]
MCDEEP = [dict(NT=3, MaxDepth=100, Vars="FALSE"), dict(NT=2, MaxDepth=100, Vars="TRUE")]


def behaviour_sessions(r, consts, n):
    """every reachable state of the small map machine x every call, as a history of the real class"""
    out = []
    for i, b in enumerate(mcsuite.sample(r, "MapMC", consts, n)):
        h = ("SS", "SI", "IS", "SV")[(i + r.randint(0, 3)) % 4]
        o = []
        for e in b:
            e = dict(e)
            if "ks" in e:
                e["ks"], e["vs"] = suite.L(e["ks"]), suite.L(e["vs"])
            if e["op"] in ("ins", "idxset", "idx", "find"):
                e["m"] = r.randint(0, {"ins": 3}.get(e["op"], 1))
            if e["op"] == "newcap":
                e["n"] = r.choice([0, 1, 7])
            o.append(fixint(h, e))
        out.append(dict(head=h, ops=o + [O("iter", d=1, m=r.randint(0, 2)), O("iter", d=2, m=0), O("ins", d=1, k=[98], v=[121], m=0), O("get", d=2, k=[98]), O("end")]))
    return out


def exe(config="asan"):
    return vf.build("mapdrv", ["String.cpp", "ReferenceCountedArray.cpp"], config)


def run(chk, label, sessions, config="asan"):
    return suite.run(chk, label, exe(config), "MapTrace", sessions, EMPTY, config=config, driver="mapdrv")
