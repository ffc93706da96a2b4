import random
import vf, seqgen
from vf import tlaset

SRCS = ["String.cpp", "ReferenceCountedArray.cpp"]


def driver(config="asan"):
    return vf.build("seqdrv", SRCS, config)


def run(chk, label, sessions, conds, focus, config="asan", exe=None):
    name = "hugedrv" if exe else "seqdrv"
    exe = exe or driver(config)
    res = vf.run_sessions(exe, sessions, seqgen.script_of)
    idx = [i for i, r in enumerate(res) if r is not None]
    traces = [seqgen.events(sessions[i], res[i]) for i in idx]
    skipped = sum(1 for t in traces for e in t if e["err"] == "pre")
    consts = {"Conds": tlaset(conds), "FocusOps": tlaset(focus) if focus != "all" else "<- AllOps"}
    st, rej = vf.validate("SeqTrace", consts, traces, chk.work, label)
    if rej:
        s = sessions[idx[rej["sid"]]]
        r2 = vf.run_sessions(exe, [s], seqgen.script_of)[0]
        t2 = seqgen.events(s, r2)
        _, rej2 = vf.validate("SeqTrace", consts, [t2], chk.work, label + "-again")
        if not rej2:      # depends on what ran before: report the recorded run itself
            r2, t2, rej2 = res[idx[rej["sid"]]], traces[rej["sid"]], rej
        bad = t2[rej2["l"]]
        chk.violation(label, dict(step=rej2["l"], event=bad, detail=r2[rej2["l"]].get("detail", ""), before=t2[rej2["l"] - 1]["post"] if rej2["l"] else [],
                                  script=seqgen.script_of(s), driver=name, config=config, conds=sorted(conds)))
        return False
    chk.add(label, st, not_applicable_calls=skipped, config=config)
    if traces:
        t = traces[vf.SEED % len(traces)]
        chk.samples.append(dict(part=label, type=sessions[idx[vf.SEED % len(traces)]]["type"], ops=[e["op"] for e in t], last_contents=[p["v"] for p in t[-2]["post"]] if len(t) > 1 else []))
    return True
