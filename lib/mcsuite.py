"""Exhaustive exploration of an abstract machine (<M>MC.tla), and its behaviours for replay."""
import json, os, re
import vf


def cfg(consts, emit=False, bug="none"):
    return "SPECIFICATION Spec\nCONSTANTS %s Emit = %s Bug = \"%s\"\nVIEW View\nCHECK_DEADLOCK FALSE\n" % (" ".join("%s = %s" % kv for kv in consts.items()), "TRUE" if emit else "FALSE", bug) + \
        ("" if emit else "PROPERTIES Laws\n")


def model(chk, spec, consts, bugs=()):
    r = vf.tlc(spec, cfg(consts), timeout=1500)
    if r["status"] != "ok":
        raise vf.CheckError("model %s: %s\n%s" % (spec, r["status"], r["out"][-3000:]))
    chk.add("model-" + spec, dict(states=r["distinct"], transitions=r["generated"], traces=0), config=" ".join("%s=%s" % kv for kv in consts.items()))
    for b in bugs:
        r = vf.tlc(spec, cfg(consts, bug=b), timeout=600)
        if r["status"] != "violated" and "is violated" not in r["out"]:
            raise vf.CheckError("broken model %s/%s was not rejected (%s)\n%s" % (spec, b, r["status"], r["out"][-2000:]))
        chk.add("broken-model-%s-%s" % (spec, b), dict(states=r["distinct"], transitions=r["generated"], traces=0), config="rejected, as it must be")


def behaviours(spec, consts):
    """every (reachable state, call) with a shortest history leading to it"""
    files = sorted(f for f in os.listdir(vf.SPEC) if f.endswith(".tla"))
    key = vf.hashlib.sha256(b"".join(open(os.path.join(vf.SPEC, f), "rb").read() for f in files) + repr(sorted(consts.items())).encode()).hexdigest()[:16]
    os.makedirs(vf.BUILD, exist_ok=True)
    p = os.path.join(vf.BUILD, "beh-%s-%s.txt" % (spec, key))
    with open(os.path.join(vf.BUILD, ".beh.lock"), "w") as lk:
        vf.fcntl.flock(lk, vf.fcntl.LOCK_EX)
        if not os.path.exists(p):
            r = vf.tlc(spec, cfg(consts, emit=True), workers=1, timeout=1500)
            if r["status"] != "ok":
                raise vf.CheckError("behaviour generation %s: %s\n%s" % (spec, r["status"], r["out"][-3000:]))
            ls = sorted(set(json.loads('"%s"' % x) for x in re.findall(r'^"BEH(.*)"$', r["out"], re.M)))
            if len(ls) < 100:
                raise vf.CheckError("behaviour generation %s printed %d behaviours\n%s" % (spec, len(ls), r["out"][-2000:]))
            with open(p + ".tmp", "w") as f:
                f.write("\n".join(ls))
            os.rename(p + ".tmp", p)
    return open(p).read().split("\n")


def sample(r, spec, consts, n):
    b = behaviours(spec, consts)
    return [json.loads(x) for x in (b if len(b) <= n else r.sample(b, n))]
