"""Storage sharing design (RcaImpl): model checking, and replay of its behaviours into the real classes."""
import os, re
import vf, seqgen as g

BUGS = {"no-cow": "Refines", "reserve-shared": "Refines", "stale-hash": "HashFresh", "move-length": "Counted"}


def cfg(nh, maxlen, depth, bug="none", emit=False, view="Arrangement", props=True):
    return ("SPECIFICATION Spec\nCONSTANTS NH = %d MaxLen = %d MaxDepth = %d Bug = \"%s\" Emit = %s\nLits <- SomeLits\nOps <- EveryOp\nVIEW %s\nCHECK_DEADLOCK FALSE\n"
            % (nh, maxlen, depth, bug, "TRUE" if emit else "FALSE", view)) + ("INVARIANTS Counted HashFresh\nPROPERTIES Refines ShareStep\n" if props else "")


def model(chk, bounds, bugs=()):
    """bounds: (handles, length, depth) to explore completely"""
    for nh, ml, dp in bounds:
        r = vf.tlc("RcaMC", cfg(nh, ml, dp), timeout=1500)
        if r["status"] != "ok":
            raise vf.CheckError("design model: %s\n%s" % (r["status"], r["out"][-3000:]))
        chk.add("design-%dx%d" % (nh, ml), dict(states=r["distinct"], transitions=r["generated"], traces=0), config="handles=%d length<=%d depth<=%d" % (nh, ml, dp))
    for b in bugs:
        r = vf.tlc("RcaMC", cfg(2, 3, 6, b), timeout=600)
        if r["status"] not in ("violated",) and "is violated" not in r["out"]:
            raise vf.CheckError("broken design %s was not rejected (%s)\n%s" % (b, r["status"], r["out"][-2000:]))
        chk.add("broken-design-" + b, dict(states=r["distinct"], transitions=r["generated"], traces=0), config="rejected, as it must be")


def behaviours(nh, maxlen, depth):
    """every transition between arrangements of storage, with a shortest history leading to it"""
    key = vf.hashlib.sha256(b"".join(open(os.path.join(vf.SPEC, f), "rb").read() for f in ("RcaImpl.tla", "RcaMC.tla", "SeqSpec.tla", "SeqOps.tla", "StrOps.tla")) + repr((nh, maxlen, depth)).encode()).hexdigest()[:16]
    os.makedirs(vf.BUILD, exist_ok=True)
    p = os.path.join(vf.BUILD, "beh-%d-%d-%d-%s.txt" % (nh, maxlen, depth, key))
    with open(os.path.join(vf.BUILD, ".beh.lock"), "w") as lk:
        vf.fcntl.flock(lk, vf.fcntl.LOCK_EX)
        if not os.path.exists(p):
            r = vf.tlc("RcaMC", cfg(nh, maxlen, depth, emit=True, view="Shape", props=False), workers=1, timeout=1500)
            if r["status"] != "ok":
                raise vf.CheckError("behaviour generation: %s\n%s" % (r["status"], r["out"][-3000:]))
            ls = sorted(set(re.findall(r'"BEH(.*)"$', r["out"], re.M)))
            if len(ls) < 1000:
                raise vf.CheckError("behaviour generation printed %d behaviours" % len(ls))
            with open(p + ".tmp", "w") as f:
                f.write("\n".join(ls))
            os.rename(p + ".tmp", p)
    return open(p).read().split("\n")


def ops(line, t):
    out = []
    for op, d, s, i, j, n, x, v in re.findall(r'<<\\?"(\w+)\\?", (\d+), (\d+), (-?\d+), (-?\d+), (-?\d+), (\d+), <<([^>]*)>>>>', line):
        i, j, n, x = int(i), int(j), int(n), int(x)
        val = [g.el(t, int(e)) for e in v.split(",")] if v.strip() else []
        o = g.O(op, int(d), int(s), i=i, j=j, n=n, v=val, x=g.el(t, x))
        if op == "newlit":
            o["m"] = "ptr"
        out.append(o)
    return out


def sessions(r, n, types="SIVT", bounds=(2, 2, 100), tail=None):
    b = behaviours(*bounds)
    if len(b) > n:
        b = r.sample(b, n)
    return [dict(type=t, ops=ops(l, t) + (tail(t) if tail else []) + [g.end(k % 3)]) for k, l in enumerate(b) for t in [types[k % len(types)]]]
