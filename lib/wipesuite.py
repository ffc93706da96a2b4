"""Wiping of string storage: wipedrv, WipeTrace."""
import itertools
import vf, suite

DEF = dict(d=1, s=1, v=[], p=0, n=0)
EMPTY = dict(H=[], F=[])


def O(op, **k):
    return dict(dict(op=op, d=1, s=1), **k)


def exe(config):
    return vf.build("wipedrv", ["String.cpp", "ReferenceCountedArray.cpp", vf.VERIF + "/harness/trackops.cpp"], config)


def text(r, n):
    return [r.randint(97, 122) for _ in range(n)]


LEN = [1, 2, 3, 5, 15, 16, 17, 24, 31, 32, 33, 40, 64, 65]


def mutators(r):
    return [O("appv", v=text(r, 3)), O("appv", v=text(r, 40)), O("repl", p=1, n=2, v=text(r, 1)), O("repl", p=0, n=0, v=text(r, 9)), O("clear"), O("shrink", n=0), O("shrink", n=1), O("shrink", n=4),
            O("grow", n=3), O("reserve", n=100), O("reserve", n=10), O("cstr"), O("hash"), O("dropf", n=1), O("dropf", n=4), O("dropb", n=1), O("dropb", n=3), O("set", p=0), O("set", p=2),
            O("ins", s=1), O("app", s=1), O("asg", s=1)]


def systematic(r):
    """length x first operation x second operation, then destruction"""
    out = []
    i = 0
    for n in LEN:
        base = [O("new", v=text(r, n))]
        ms = [None] + mutators(r)
        for a, b in itertools.product(ms, ms):
            if a is None and b is not None:
                continue
            ops = base + [m for m in (a, b) if m]
            out.append(dict(head=str(i % 97), ops=ops + [O("del"), O("end")], defaults=DEF))
            i += 1
        for a in ms:
            m = [a] if a else []
            m2 = [dict(x, d=2) for x in m]
            sh = [O("copy", d=2), O("slice", d=2, p=0, n=max(1, n // 2)), O("slice", d=2, p=n // 2, n=n - n // 2), O("move", d=2)]
            for c in sh:
                for order in ([1, 2], [2, 1]):
                    for ops in (base + m + [c], base + [c] + m, base + [c] + m2):
                        out.append(dict(head=str(i % 97), ops=ops + [O("del", d=k) for k in order] + [O("end")], defaults=DEF))
                        i += 1
            # through an array of strings
            for put in ("arrput", "arrmv"):
                out.append(dict(head=str(i % 97), ops=base + m + [O("arrnew"), O(put), O("del"), O("arrdel"), O("end")], defaults=DEF))
                out.append(dict(head=str(i % 97), ops=base + [O("arrnew"), O(put), O("fromarr", d=2)] + m2 + [O("del"), O("arrdel"), O("del", d=2), O("end")], defaults=DEF))
                i += 2
        for cap in (n, n + 1, n + 30):
            out.append(dict(head=str(i % 97), ops=[O("newcap", n=cap), O("appv", v=text(r, n)), O("del"), O("end")], defaults=DEF))
            out.append(dict(head=str(i % 97), ops=[O("newfill", n=n), O("dropf", n=n // 2), O("appv", v=text(r, n // 2)), O("del"), O("end")], defaults=DEF))
            i += 2
    return out


def random_sessions(r, n, length):
    out = []
    for i in range(n):
        ops = []
        for _ in range(length):
            d, s = r.randint(1, 4), r.randint(1, 4)
            k = r.random()
            if k < 0.2:
                ops.append(O("new", d=d, v=text(r, r.choice(LEN + [100, 200]))))
            elif k < 0.4:
                ops.append(r.choice([O("copy", d=d, s=s), O("slice", d=d, s=s, p=r.randint(0, 6), n=r.randint(0, 20)), O("move", d=d, s=s), O("fromarr", d=d, p=r.randint(0, 3))]))
            elif k < 0.48:
                ops.append(r.choice([O("arrnew"), O("arrput", d=d), O("arrmv", d=d), O("arrdel")]))
            elif k < 0.75:
                m = dict(r.choice(mutators(r)))
                m["d"] = d
                if m["op"] in ("ins", "app", "asg"):
                    m["s"] = s
                ops.append(m)
            else:
                ops.append(O("del", d=d))
        out.append(dict(head=str(i % 97), ops=ops + [O("del", d=k) for k in r.sample([1, 2, 3, 4], 4)] + [O("arrdel"), O("end")], defaults=DEF))
    return out


def run(chk, label, sessions, config):
    return suite.run(chk, label, exe(config), "WipeTrace", sessions, EMPTY, config=config, driver="wipedrv")
