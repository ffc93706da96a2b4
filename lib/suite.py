"""Generic suite: run a driver over sessions and validate the recorded events with a trace spec."""
import vf


def enc(v):
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return v
    if v and isinstance(v[0], (list, tuple)):
        return "l" + "".join("".join("%02x" % c for c in e) + "," for e in v)
    return "x" + "".join("%02x" % c for c in v)


def encl(v):
    return "l" + "".join("".join("%02x" % c for c in e) + "," for e in v)


class L(list):
    """list of byte strings (may be empty)"""


def script_of(s):
    out = ["session %s\n" % s.get("head", ".")]
    for o in s["ops"]:
        out.append(o["op"] + "".join(" %s=%s" % (k, encl(v) if isinstance(v, L) else enc(v)) for k, v in o.items() if k != "op" and k not in s.get("hide", ())) + "\n")
    return "".join(out)


def events(s, res, empty):
    ev = []
    for o, r in zip(s["ops"], res):
        e = dict(s.get("defaults", {}))
        e.update(o)
        e.update({k: v for k, v in r.items() if k not in ("detail", "rc")})
        for k, v in empty.items():
            e.setdefault(k, v)
        ev.append(e)
    return ev


def run(chk, label, exe, spec, sessions, empty, consts=None, config="", driver="", args=(), env=None, attach=None):
    """empty: fields to add to events of crashed calls.  Returns True when accepted."""
    def traces_of(ss):
        res = vf.run_sessions(exe, ss, script_of, args=args, env=env)
        idx = [i for i, r in enumerate(res) if r is not None]
        return res, idx, [events(ss[i], res[i], empty) for i in idx]
    res, idx, traces = traces_of(sessions)
    skipped = sum(1 for t in traces for e in t if e["err"] == "pre")
    st, rej = vf.validate(spec, consts or {}, traces, chk.work, label)
    if rej:
        s = sessions[idx[rej["sid"]]]
        r2, _, t2 = traces_of([s])
        _, rej2 = vf.validate(spec, consts or {}, t2, chk.work, label + "-again")
        again = bool(rej2)
        if rej2:
            r, t, l = r2[0], t2[0], rej2["l"]
        else:
            r, t, l = res[idx[rej["sid"]]], traces[rej["sid"]], rej["l"]
        chk.violation(label, dict(step=l, event=t[l], before=t[l - 1] if l else {}, detail=r[l].get("detail", ""), reproduced_alone=again,
                                  script=script_of(s), driver=driver or exe, config=config))
        return False
    chk.add(label, st, not_applicable_calls=skipped, config=config)
    if traces:
        k = vf.SEED % len(traces)
        chk.samples.append(dict(part=label, ops=script_of(sessions[idx[k]]).split("\n")[:8], last=traces[k][-1]))
    return True
