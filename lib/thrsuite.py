"""Threads: CowThreads (design), thrdrv (real code under every schedule, thread sanitizer), SeqTrace (each thread alone)."""
import json, re, subprocess
from concurrent.futures import ThreadPoolExecutor
import vf, seqgen

WRAP = ["__tsan_atomic%d_%s" % (z, n) for z in (8, 16, 32, 64) for n in
        ("load", "store", "exchange", "fetch_add", "fetch_sub", "fetch_and", "fetch_or", "fetch_xor", "compare_exchange_strong", "compare_exchange_weak")] + ["__tsan_atomic_thread_fence"]


def exe(config="tsan"):
    return vf.build("thrdrv", ["String.cpp", "ReferenceCountedArray.cpp"], config, wrap=WRAP, raw=["vfsched.cpp"])


CFG = 'SPECIFICATION Spec\nCONSTANTS Threads = {%s} MaxOps = %d Bug = "%s" Serial = %s\nINVARIANTS Sound Released%s\n%sCHECK_DEADLOCK FALSE\n'


def model(chk, sizes):
    for t, n in sizes:
        th = ", ".join(str(i + 1) for i in range(t))
        r = vf.tlc("CowThreads", CFG % (th, n, "none", "FALSE", "", "VIEW View\n"))
        if r["status"] != "ok":
            raise vf.CheckError("CowThreads: %s\n%s" % (r["status"], r["out"][-3000:]))
        neg = []
        for b in ("copyAfterRelease", "nonAtomic", "checkThenFree"):
            q = vf.tlc("CowThreads", CFG % ("1, 2", 2, b, "FALSE", "", "VIEW View\n"))
            if q["status"] != "violated":
                raise vf.CheckError("CowThreads accepts the wrong design %s: %s" % (b, q["status"]))
            neg.append(b)
        chk.add("design-model-%dx%d" % (t, n), dict(states=r["distinct"], transitions=r["generated"], traces=0), threads=t, calls=n, broken_designs_rejected=neg)


def programs(t, n):
    """all programs of the model: for each thread a list of (call, slot, other slot)"""
    r = vf.tlc("CowThreads", CFG % (", ".join(str(i + 1) for i in range(t)), n, "none", "TRUE", " Emit", ""), workers=1)
    if r["status"] != "ok":
        raise vf.CheckError("CowThreads emit: %s\n%s" % (r["status"], r["out"][-2000:]))
    out = set()
    txt = re.sub(r"\s+", " ", r["out"])
    for m in re.finditer(r'<< ?"PROG", (.*?)>> (?=<< ?"PROG"|[A-Z])', txt):
        calls = re.findall(r'<<"(\w+)", (\d), (\d)>>', m.group(1))
        if len(calls) != t * n:
            raise vf.CheckError("cannot parse " + m.group(0)[:300])
        out.add(tuple(tuple((c, int(a), int(b)) for c, a, b in calls[i * n:(i + 1) * n]) for i in range(t)))
    return sorted(out)


def concrete(r, ty, call, k, j, L):
    """one concrete public call for a call of the model"""
    x = seqgen.el(ty, r.randint(0, 9))
    O = seqgen.O
    if call == "copy":
        return r.choice([O("newcopy", k, j), O("newcopy", k, j), O("newsub", k, j, i=0, j=L), O("newsub", k, j, i=1, j=2), O("newmove", k, j)])
    if call == "assign":
        return r.choice([O("asg", k, j), O("asg", k, j), O("asgsub", k, j, i=1, j=2), O("appseq", k, j), O("swap", k, j)])
    if call == "move":
        return O("asgmove", k, j)
    if call == "destroy":
        return r.choice([O("del", k), O("del", k), O("clear", k)])
    if call == "read":
        c = [O("iter", k), O("idx", k, i=0), O("eq", k, j), O("find", k, x=x), O("hashf", k, k), O("len", k)]
        if ty == "S":
            c += [O("cstr", k)] * 3
        return r.choice(c)
    c = [O("app", k, x=x), O("set", k, i=0, x=x), O("ins", k, i=0, x=x), O("repl", k, i=0, x=x), O("resizef", k, n=L + 2, x=x), O("popb", k), O("slice", k, i=1, j=2), O("reserve", k, n=40), O("resize", k, n=1)]
    if ty == "S":
        c += [O("dropf", k, n=1), O("dropb", k, n=1)]
    else:
        c += [O("shift", k), O("pop", k)] * 2
    return r.choice(c)


def kv(t, o, ty):
    def enc(v):
        return seqgen.hexs(v) if isinstance(v, list) else str(v)
    return "%s t=%d d=%d s=%d i=%s j=%s n=%s x=%s\n" % (o["op"], t, o["d"], o["s"], o["i"], o["j"], o["n"], enc(o["x"]))


def sessions(r, progs, types, bound, cap, nrand):
    out = []
    for q, p in enumerate(progs):
        for ty in types:
            L = r.choice([1, 2, 3, 5])
            base = [seqgen.el(ty, i) for i in range(L)]
            inits = []
            text = ["session %s %d %d %d %d %d\n" % (ty, r.randint(0, 1), bound, cap, nrand, r.randint(1, 10**6))]
            text += ["base x=%s\n" % (seqgen.hexs(b) if isinstance(b, list) else b) for b in base]
            if r.random() < 0.3:
                text.append("prehash\n")
            ops = []
            for t, calls in enumerate(p):
                if r.random() < 0.6:
                    text.append("init t=%d d=1\n" % (t + 1))
                    inits.append(base)
                else:
                    i = r.randint(0, L - 1)
                    n = r.randint(1, L - i)
                    text.append("init t=%d d=1 i=%d j=%d\n" % (t + 1, i, n))
                    inits.append(base[i:i + n])
                o = [concrete(r, ty, c, k, j, L) for c, k, j in calls]
                ops.append(o)
                text += [kv(t + 1, x, ty) for x in o]
            text.append("end\n")
            out.append(dict(type=ty, text="".join(text), ops=ops, inits=inits))
    return out


def trace(s, t, ev):
    """the history of thread t as a trace of SeqSpec: its first object appears with its initial contents"""
    E = dict(l=0, v=[], rc=0, b=0, sh=0)
    first = seqgen.O("newlit", 1, v=s["inits"][t])
    tr = [dict(first, err="", ret=0, n=-1, post=[dict(E, l=1, v=s["inits"][t])] + [dict(E)] * 4)]
    for o, r in zip(s["ops"][t], ev):
        tr.append(dict(o, err=r["err"], ret=r["ret"], post=[dict(E, **p) for p in r["post"]]))
    return tr


def run(chk, label, ss, config="tsan"):
    e = exe(config)
    n = min(vf.NCPU, len(ss))
    results = [None] * len(ss)
    crash = []

    def work(idx):
        pos = 0
        while pos < len(idx) and len(crash) < 3:
            try:
                p = subprocess.run([e], input="".join(ss[i]["text"] for i in idx[pos:]), capture_output=True, text=True, timeout=850, env=vf.RUNENV, errors="replace")
                rc, so, se = p.returncode, p.stdout, p.stderr
            except subprocess.TimeoutExpired as x:
                rc, so, se = 97, (x.stdout or b"").decode(errors="replace"), "timeout"
            lines = [l for l in so.split("\n") if l]
            cur = []
            for l in lines:
                try:
                    o = json.loads(l)
                except ValueError:
                    break
                cur.append(o)
                if o.get("done"):
                    results[idx[pos]] = cur
                    cur = []
                    pos += 1
            if pos < len(idx):
                if rc in (0, 96, -9):
                    raise vf.CheckError("thread driver stopped (%s): %s" % (rc, se[-800:]))
                crash.append((idx[pos], rc, se))
                pos += 1
            elif rc != 0:
                raise vf.CheckError("thread driver exit %s: %s" % (rc, se[-800:]))
    with ThreadPoolExecutor(n) as ex:
        for f in [ex.submit(work, list(range(i, len(ss), n))) for i in range(n)]:
            f.result()
    if crash:
        i, rc, se = crash[0]
        chk.violation(label, dict(what="data race or crash" if rc == 66 else "crash (%s)" % rc, detail=se[:6000], script=ss[i]["text"], driver="thrdrv", config=config))
        return False
    traces, owner, runs, complete, dec = [], [], 0, 0, 0
    for i, res in enumerate(results):
        if res is None:
            continue
        done = res[-1]
        runs += done["runs"]
        complete += done["complete"]
        dec = max(dec, done["decisions"])
        if done["problem"]:
            chk.violation(label, dict(what=done["problem"], schedule=done["schedule"], script=ss[i]["text"], driver="thrdrv", config=config))
            return False
        for h in res[:-1]:
            traces.append(trace(ss[i], h["t"] - 1, h["ev"]))
            owner.append(i)
    st, rej = vf.validate("SeqTrace", {"Conds": vf.tlaset({"self", "others", "ret", "moved"}), "FocusOps": "<- AllOps"}, traces, chk.work, label)
    if rej:
        i = owner[rej["sid"]]
        chk.violation(label, dict(what="a thread saw what it would not see alone", step=rej["l"], event=traces[rej["sid"]][rej["l"]], script=ss[i]["text"], driver="thrdrv", config=config))
        return False
    chk.add(label, st, programs=len(ss), schedules=runs, all_schedules_within_bound=complete, decisions=dec, config=config)
    chk.samples.append(dict(part=label, program=ss[vf.SEED % len(ss)]["text"].split("\n")))
    return True


def element_cstr(chk):
    """the C-string view of an element of an array whose storage is shared (listed in known_findings.txt)"""
    out = []
    for keep in (0, 1):
        t = ["session V %d 2 200 0 1\n" % keep, "base x=%s n=3\n" % seqgen.hexs([97, 98, 99, 100, 101]), "init t=1 d=1\n", "init t=2 d=1\n"]
        t += ["elcstr t=%d d=1 i=0\n" % k for k in (1, 2)] + ["end\n"]
        p = subprocess.run([exe()], input="".join(t), capture_output=True, text=True, timeout=300, env=vf.RUNENV, errors="replace")
        bad = "data race" if p.returncode == 66 else "crash (%s)" % p.returncode if p.returncode else ""
        for l in p.stdout.split("\n"):
            o = json.loads(l) if l else {}
            bad = bad or o.get("problem", "")
            bad = bad or ("wrong text" if any(e["ret"] != [97, 98, 99, 0] for e in o.get("ev", [])) else "")
        if bad:
            out.append((bad, "".join(t), p.stderr[:3000]))
    if out and not chk.known("element-cstr"):
        chk.violation("element-cstr", dict(what=out[0][0], detail=out[0][2], script=out[0][1], driver="thrdrv", config="tsan"))
    chk.add("element-cstr", dict(states=0, transitions=0, traces=0), programs=2, failing=len(out))
