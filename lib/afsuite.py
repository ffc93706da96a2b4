"""AtomicFile: design model (AtomicMC), behaviours replayed into the real code, AtomicTrace."""
import itertools, json, re
import vf, suite
from streamsuite import WRAP

T0 = [dict(e=0, ino=0, v=[], mode=0)] * 10
DEF = dict(d=1, f=0, v=[], mode=-1, hit="", sys=[])
EMPTY = dict(T=T0, x=0, fds=0, op1=0, op2=0, ret=0)


def O(op, **k):
    return dict(op=op, **k)


def exe(config="asan"):
    return vf.build("afdrv", ["String.cpp", "ReferenceCountedArray.cpp", "AtomicFile.cpp"], config, wrap=WRAP)


CFG = """SPECIFICATION Spec
CONSTANTS MaxCalls = %d MaxFaults = %d UseSync = %s ChmodFirst = %s
INVARIANTS AllOrNothing OldKept NoTrace FailureReported Success%s
CHECK_DEADLOCK FALSE
"""


def model(chk, calls, faults):
    """the design holds in the model; without fsync, or with chmod after it, the model does break"""
    r = vf.tlc("AtomicMC", CFG % (calls, faults, "TRUE", "TRUE", ""))
    if r["status"] != "ok":
        raise vf.CheckError("AtomicMC: %s\n%s" % (r["status"], r["out"][-3000:]))
    neg = 0
    for a, b in (("FALSE", "TRUE"), ("TRUE", "FALSE")):
        n = vf.tlc("AtomicMC", CFG % (calls, faults, a, b, ""))
        if n["status"] != "violated":
            raise vf.CheckError("AtomicMC does not see the missing sync (%s,%s): %s" % (a, b, n["status"]))
        neg += 1
    chk.add("design-model", dict(states=r["distinct"], transitions=r["generated"], traces=0), calls=calls, faults=faults, broken_designs_rejected=neg)


def behaviours(calls, faults):
    r = vf.tlc("AtomicMC", CFG % (calls, faults, "TRUE", "TRUE", " Emit") + "CONSTRAINT NoCrash\n", workers=1)
    if r["status"] != "ok":
        raise vf.CheckError("AtomicMC emit: %s\n%s" % (r["status"], r["out"][-2000:]))
    txt = re.sub(r"\s+", " ", r["out"])
    beh = set()
    for m in re.finditer(r'<< ?"BEH", <<(.*?)>> ?>>(?= <<|[^>]*$| [A-Z(])', txt):
        calls_ = re.findall(r'<<"(\w+)", (\d+)>>', m.group(0))
        beh.add(tuple((a, int(b)) for a, b in calls_))
    if not beh:
        raise vf.CheckError("no behaviours emitted")
    return sorted(beh)


PIECE = [[104, 101, 108, 108, 111, 10], [119, 111, 114, 108, 100, 0, 33]]


def replay(beh, f=0, mode=0o644, pre=True, head="022", tailreuse=True):
    ops = [O("fset", f=f, v=[111, 108, 100])] if pre and f not in (7, 8) else []
    w = 0
    for name, k in beh:
        x = {"fail": k} if k else {}
        if name == "open":
            ops.append(O("open", f=f, **x)); w = 0
        elif name == "openm":
            ops.append(O("open", f=f, mode=mode, **x)); w = 0
        elif name == "write":
            ops.append(O("write", v=PIECE[w % 2])); w += 1
        else:
            ops.append(O(name, **x))
        ops.append(O("fd"))
    if tailreuse:      # the object can be used again
        ops += [O("open", f=f), O("isopen"), O("write", v=[122]), O("commit"), O("isopen"), O("commit"), O("abort")]
    return dict(head=head, ops=ops + [O("end")], defaults=DEF)


def sessions(chk, r, calls, faults, cap):
    beh = behaviours(calls, faults)
    full = len(beh)
    if len(beh) > cap:
        beh = r.sample(beh, cap)
    out = []
    for i, b in enumerate(beh):
        out.append(replay(b, f=[0, 1, 2, 3, 4, 5, 6][i % 7], mode=[0o644, 0o600, 0o755, 0o400, 0o4711, 0][i % 6], pre=i % 3 != 0, head=["022", "077", "0"][i % 3]))
    return out, full


def forms():
    """all path forms, modes, contents, two objects on the same or different targets"""
    out = []
    for f in range(10):
        for pre in (True, False):
            for mode in (None, 0o644, 0o600, 0o777, 0, 0o4755):
                for um in ("022", "077", "0"):
                    m = {} if mode is None else {"mode": mode}
                    o = [O("fset", f=f, v=[1, 2, 3])] if pre and f not in (7, 8, 9) else []
                    o += [O("isopen"), O("fd"), O("open", f=f, **m), O("isopen"), O("fd"), O("write", v=PIECE[0]), O("write", v=PIECE[1]), O("commit"), O("isopen"), O("fd"), O("commit"), O("abort")]
                    o += [O("open", f=f, **m), O("commit"), O("open", f=0), O("write", v=[9] * 40), O("commit"), O("open", f=f), O("write", v=[5]), O("end")]
                    out.append(dict(head=um, ops=o, defaults=DEF))
    for f, g in itertools.product((0, 1, 2, 4, 8), repeat=2):
        base = [O("fset", f=0, v=[7, 7]), O("open", d=1, f=f), O("open", d=2, f=g, mode=0o640), O("write", d=1, v=[1, 1]), O("write", d=2, v=[2, 2])]
        for tail in ([O("commit", d=1), O("commit", d=2)], [O("commit", d=2), O("commit", d=1)], [O("abort", d=1), O("commit", d=2)], [O("commit", d=1), O("del", d=2)], [O("open", d=1, f=g), O("commit", d=2), O("write", d=1, v=[3]), O("commit", d=1)]):
            out.append(dict(head="022", ops=base + tail + [O("isopen", d=1), O("isopen", d=2), O("open", d=2, f=1), O("write", d=2, v=[8]), O("commit", d=2), O("end")], defaults=DEF))
    return out


def faults():
    out = []
    for f in (0, 1, 2, 8):
        for mode in ({}, {"mode": 0o644}):
            for k in range(1, 9):
                for eno in (5, 28, 13):
                    for pre in (True, False):
                        base = [O("fset", f=f, v=[1, 2, 3])] if pre and f != 8 else []
                        again = [O("isopen"), O("fd"), O("open", f=0, **mode), O("write", v=[4, 4]), O("commit"), O("end")]
                        out.append(dict(head="022", ops=base + [O("open", f=f, fail=k, eno=eno, **mode), O("write", v=PIECE[0]), O("commit")] + again, defaults=DEF))
                        out.append(dict(head="022", ops=base + [O("open", f=f, **mode), O("write", v=PIECE[0]), O("commit", fail=k, eno=eno)] + again, defaults=DEF))
                        if eno == 5:
                            out.append(dict(head="022", ops=base + [O("open", f=f, **mode), O("write", v=PIECE[0]), O("abort", fail=k)] + again, defaults=DEF))
                            out.append(dict(head="022", ops=base + [O("open", f=f, **mode), O("write", v=PIECE[0]), O("open", f=1, fail=k), O("commit")] + again, defaults=DEF))
                            out.append(dict(head="022", ops=base + [O("open", f=f, **mode), O("write", v=PIECE[0]), O("del", fail=k)] + again, defaults=DEF))
    return out


def run(chk, label, ss, conds, config="asan"):
    env = dict(vf.RUNENV, VF_SCRATCH=chk.work)
    return suite.run(chk, label, exe(config), "AtomicTrace", ss, EMPTY, consts={"Conds": vf.tlaset(conds)}, config=config, driver="afdrv", env=env)
