"""base64 and C string helpers: CodecMC, codecdrv, CodecTrace."""
import vf, suite

DEF = dict(v=[], w=[], al=[], n=0, d=0, form=0, nul=0, a=0, b=0)
EMPTY = dict(ret=[], term=0, src=[], n2=0, null=0, live=0)
STD = [ord(c) for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"]
URL = STD[:62] + [45, 95]
HIGH = list(range(128, 192))
TOP = list(range(192, 256))
LOWC = [1 + i for i in range(60)] + [62, 63, 64, 127]
ALPHA = [[], URL, HIGH, TOP, STD[13:] + STD[:13], LOWC, list(reversed(STD))]


def O(op, **k):
    return dict(op=op, **k)


def exe(config):
    return vf.build("codecdrv", ["String.cpp", "ReferenceCountedArray.cpp", "base64.cpp", "Cstrings.cpp"], config)


def chunk(ops, n=60):
    return [dict(head=".", ops=ops[i:i + n] + [O("end")], defaults=DEF) for i in range(0, len(ops), n)]


def model(chk, label, inv, byts, n):
    r = vf.tlc("CodecMC", "SPECIFICATION Spec\nCONSTANTS Bytes = {%s} MaxLen = %d\nINVARIANT %s\nCHECK_DEADLOCK FALSE\n" % (", ".join(map(str, byts)), n, inv))
    if r["status"] != "ok":
        raise vf.CheckError("CodecMC: %s\n%s" % (r["status"], r["out"][-3000:]))
    chk.add(label, dict(states=r["distinct"], transitions=r["generated"], traces=0), bytes=len(byts), length=n)


def b64e(v, al):
    al = al or STD
    o = []
    for i in range(0, len(v), 3):
        g = v[i:i + 3]
        n = (g[0] << 16) | ((g[1] if len(g) > 1 else 0) << 8) | (g[2] if len(g) > 2 else 0)
        q = [al[(n >> s) & 63] for s in (18, 12, 6, 0)]
        o += q[:len(g) + 1] + [61] * (3 - len(g))
    return o


def b64_ops(r, k):
    out = []
    vals = []
    for b in range(256):
        vals += [[b], [0, b], [0, 0, b], [255, b], [b, 255, 255], [255, b, 255], [b, r.randrange(256)], [b, r.randrange(256), r.randrange(256)]]
    for n in list(range(0, 70)) + [95, 96, 97, 255, 256, 257]:
        vals += [[r.randrange(256) for _ in range(n)], [0] * n, [255] * n]
    for _ in range(int(400 * k)):
        vals.append([r.randrange(256) for _ in range(r.randint(1, 40))])
    for i, v in enumerate(vals):
        for form in range(4):
            if (i + form) % 2 and len(v) < 3:
                continue
            al = ALPHA[(i * 3 + form) % len(ALPHA)] if i % 2 else []
            out.append(O("enc", v=v, form=form, al=al))
            out.append(O("dec", v=b64e(v, al), form=form, al=al))
    # every symbol in every position of a group
    for al in ALPHA:
        a = al or STD
        for pos in range(4):
            for c in a:
                t = [r.choice(a) for _ in range(4)]
                t[pos] = c
                out.append(O("dec", v=t, form=r.randrange(4), al=al))
    # arbitrary text
    for _ in range(int(2500 * k)):
        al = r.choice(ALPHA)
        a = al or STD
        n = r.randint(0, 14)
        kind = r.randrange(4)
        if kind == 0:
            t = [r.choice(a) for _ in range(n)]
        elif kind == 1:
            t = [r.randrange(256) for _ in range(n)]
        elif kind == 2:
            t = [r.choice(a + [61] * 20) for _ in range(n)]
        else:
            t = [r.choice([61, 10, 32, 0, 255] + a) for _ in range(n)]
        out.append(O("dec", v=t, form=r.randrange(4), al=al))
    return out


def cstr_ops(r, k):
    out = []
    for sl in range(0, 7):
        for tot in range(0, 8):
            for z in range(0, tot + 1):
                src = [r.choice([97, 98, 128, 255, 1]) for _ in range(sl)]
                dst = [r.choice([120, 121, 200]) for _ in range(tot)]
                out.append(O("strlcpy", v=src, w=dst, n=z))
                for nul in list(range(tot)) + [-1]:
                    d = list(dst)
                    if nul >= 0:
                        d[nul] = 0
                    out.append(O("strlcat", v=src, w=d, n=z))
    for _ in range(int(600 * k)):
        src = [r.randint(1, 255) for _ in range(r.choice([0, 1, 2, 15, 16, 17, 63, 100, 300]))]
        dst = [r.randint(0, 255) if r.random() < 0.05 else r.randint(1, 255) for _ in range(r.choice([1, 2, 16, 17, 64, 101, 301, 400]))]
        out.append(O(r.choice(["strlcpy", "strlcat"]), v=src, w=dst, n=r.randint(0, len(dst))))
    for n in list(range(0, 12)) + [31, 32, 33, 255, 256]:
        v = [r.randint(1, 255) for _ in range(n)]
        out.append(O("strdup", v=v))
        for m in {0, 1, n - 1, n, n + 1, n + 7, 1000, -1}:
            out.append(O("strldup", v=v, n=m) if m >= 0 else O("strldup", v=v, n=-1))
    for n in (0, 1, 2, 7, 16, 100):
        for m in (1, 2, 6, 7, 8, 16, 64, 200):
            out += [O("realloc", v=[r.randrange(256) for _ in range(n)], n=m), O("realloc", nul=1, n=m), O("calloc", a=n + 1, b=m)]
    return out


def redup_sessions(r, k):
    out = []
    for _ in range(int(150 * k)):
        ops = []
        for _ in range(r.randint(3, 14)):
            if r.random() < 0.3:
                ops.append(O("redup", d=r.randrange(3), nul=1))
            else:
                ops.append(O("redup", d=r.randrange(3), v=[r.randint(1, 255) for _ in range(r.choice([0, 1, 2, 3, 8, 20, 90]))]))
        out.append(dict(head=".", ops=ops + [O("end")], defaults=DEF))
    return out


def run(chk, label, sessions, config):
    return suite.run(chk, label, exe(config), "CodecTrace", sessions, EMPTY, config=config, driver="codecdrv")
