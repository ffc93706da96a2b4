"""Which suites decide which property."""
import random
import vf, seqgen as g, seqsuite as q
import mapsuite, streamsuite, afsuite, codecsuite, wipesuite, thrsuite, tclsuite, rcasuite, hugesuite, mcsuite

LIFE = set("new newcap newlit newfill newcopy newmove newsub del asg asgmove asglit asgsub swap".split())
EDIT = set("clear reserve resize resizef app appown appseq appseqmv applit ins insown insseq insseqmv insrange inslit repl replown replseq replseqmv repllit set setfrom popb elapp appself insself replself".split())
SLICE = set("slice sliceasg sliceasgsl sliceasgmv dropf dropb postinc postdec newsub asgsub".split())
QUEUE = set("shift pop unshift push tfirst tlast tinc tdec".split())
SHARED = {"copy", "copied", "midslice", "neighb", "movedin", "reassign", "swapped", "hashed", "resv", "cstrd", "split", "e-clrsh", "e-past", "e-slice"}


def rng(chk, salt=0):
    return random.Random(vf.SEED * 1000003 + sum(map(ord, chk.pid)) * 101 + salt)


def sz(chk, quick, thorough):
    return quick if chk.tier == "quick" else thorough


def configs(chk):
    return ["asan"] if chk.tier == "quick" else ["asan", "asan17", "clang", "nomem", "opt"]


def allops(t):
    r = g.op_edit(t) + g.op_slice(t) + g.op_read(t) + g.op_range(t) + g.op_search(t)
    if t != "S":
        r += g.op_queue(t) * 3
    return r


def pick(r, xs, n):
    return xs if len(xs) <= n else r.sample(xs, n)


def seqrun(chk, label, sessions, conds, focus="all"):
    ok = True
    for c in configs(chk):
        if not q.run(chk, label + ("" if c == "asan" else "-" + c), sessions, conds, focus, c):
            ok = False
            break
    if ok and chk.tier == "quick":      # a sample as C++17 and with assertions enabled
        k = max(1, min(8, len(sessions) // 60))
        ok = q.run(chk, label + "-asan17", sessions[::k][:700], conds, focus, "asan17")
    return ok


def maprun(chk, label, sessions):
    return all(mapsuite.run(chk, label + ("" if c == "asan" else "-" + c), sessions, c) for c in configs(chk))


def strun(chk, label, sessions):
    return all(streamsuite.run(chk, label + ("" if c == "asan" else "-" + c), sessions, c) for c in configs(chk))


def rand(chk, r, ops, n, length=40, types="SIVT", big=None):
    """n random sessions per type, and some on objects of up to a few hundred elements"""
    out = []
    for t in types:
        out += g.rand_sessions(t, ops, n, length, r)
        out += g.rand_sessions(t, ops, (25 if chk.tier == "quick" else 250) if big is None else big, 25, r, True)
    return out


# ---------------------------------------------------------------- String / Array
def beh(chk, r, conds, n, types="SIVT", focus="all", tail=None):
    """transitions between storage arrangements, generated by TLC from RcaImpl, in the real classes"""
    seqrun(chk, "behaviours-of-the-model", rcasuite.sessions(r, n if chk.tier == "quick" else 12 * n, types, (2, 2, 100) if chk.tier == "quick" else (2, 3, 100), tail), conds, focus)
    seqrun(chk, "three-handles", rcasuite.sessions(r, n // 4 if chk.tier == "quick" else 4 * n, types, (3, 2, 5) if chk.tier == "quick" else (3, 2, 6), tail), conds, focus)


def C01(chk):
    r = rng(chk)
    conds = {"others", "self"}
    n = sz(chk, 4500, 40000)
    seqrun(chk, "shared-edit", pick(r, g.systematic("SIVT", g.op_edit, SHARED), n), conds)
    seqrun(chk, "shared-slice", pick(r, g.systematic("SIVT", g.op_slice, SHARED), n), conds)
    seqrun(chk, "shared-read", pick(r, g.systematic("SIVT", g.op_read, SHARED) + g.systematic("IVT", g.op_queue, SHARED), n), conds)
    rcasuite.model(chk, [(2, 2, 100)] if chk.tier == "quick" else [(2, 3, 100), (3, 2, 6)], () if chk.tier == "quick" else rcasuite.BUGS)
    beh(chk, r, {"others", "self"}, 4000)
    seqrun(chk, "random", rand(chk, r, allops, sz(chk, 220, 3000)), conds)


def C02(chk):
    r = rng(chk)
    f = EDIT | LIFE | QUEUE | {"plus"}
    seqrun(chk, "edit", pick(r, g.systematic("SIVT", g.op_edit), sz(chk, 16000, 80000)), {"self", "ret"}, f)
    beh(chk, r, {"self", "ret"}, 3000)
    seqrun(chk, "random", rand(chk, r, g.op_edit, sz(chk, 150, 3000)), {"self", "ret"}, f)
    hugesuite.run(chk, "over-2GiB", [hugesuite.edits("S"), hugesuite.edits("I")], {"self", "ret", "others"})


def C03(chk):
    r = rng(chk)
    f = SLICE
    seqrun(chk, "slice", pick(r, g.systematic("SIVT", g.op_slice), sz(chk, 16000, 100000)), {"self", "ret"}, f)
    seqrun(chk, "random", rand(chk, r, lambda t: g.op_slice(t), sz(chk, 150, 3000)), {"self", "ret"}, f)
    hugesuite.run(chk, "over-2GiB", [hugesuite.slices("S"), hugesuite.slices("I")], {"self", "ret", "others"})


def C04(chk):
    r = rng(chk)
    seqrun(chk, "range", pick(r, g.systematic("SIVT", g.op_range), sz(chk, 16000, 60000)), {"self", "others", "ret"})
    seqrun(chk, "random", rand(chk, r, g.op_range, sz(chk, 120, 2000)), {"self", "others", "ret"})


def C05(chk):
    r = rng(chk)
    n = sz(chk, 4000, 60000)
    seqrun(chk, "edit", pick(r, g.systematic("TV", g.op_edit), n) + pick(r, g.systematic("SI", g.op_edit), n), {"self"})
    seqrun(chk, "other", pick(r, g.systematic("TVS", lambda t: g.op_slice(t) + g.op_range(t) + g.op_read(t) + (g.op_queue(t) * 4 if t != "S" else [])), n), {"self"})
    beh(chk, r, {"self"}, 3000, "TVS")
    seqrun(chk, "random", rand(chk, r, allops, sz(chk, 150, 2500), 50), {"self"})
    seqrun(chk, "move", pick(r, g.move_sessions(r, "TVS"), n), {"self"})
    maprun(chk, "tables", pick(r, mapsuite.systematic(), sz(chk, 500, 10**9)) + mapsuite.random_sessions(r, sz(chk, 60, 1500), 40))


def C06(chk):
    r = rng(chk)
    thrsuite.model(chk, [(2, 2), (3, 1)] if chk.tier == "quick" else [(2, 3), (3, 1)])
    q = chk.tier == "quick"
    p2, p1 = thrsuite.programs(2, 2), thrsuite.programs(3, 1)
    p3 = thrsuite.programs(2, 3)
    ok = thrsuite.run(chk, "two-threads", thrsuite.sessions(r, p2 * (1 if q else 10), "SIV", sz(chk, 2, 3), sz(chk, 600, 6000), sz(chk, 40, 400))) and \
        thrsuite.run(chk, "three-threads", thrsuite.sessions(r, p1 * (1 if q else 10), "SIV", 2, sz(chk, 500, 5000), sz(chk, 40, 400))) and \
        thrsuite.run(chk, "longer", thrsuite.sessions(r, pick(r, p3, sz(chk, 60, 3000)), "SIV", 2, sz(chk, 500, 4000), sz(chk, 60, 400)))
    thrsuite.element_cstr(chk)
    if not q and ok:
        thrsuite.run(chk, "clang-two-threads", thrsuite.sessions(r, p2, "SIV", 2, 1000, 100), "tsanclang")


TEXTMUT = [g.O("trim"), g.O("chomp"), g.O("newsplit", x=99), g.O("newsplit", x=97), g.O("rdword", v=[97, 32]), g.O("rdline", v=[97, 10])]


def C07(chk):
    r = rng(chk)
    ws = []      # text edited in place after its hash was taken
    for h in g.words([32, 97, 10], 4) + g.words([9, 13, 97], 3):
        for k, m in enumerate(TEXTMUT):
            for c in ([g.O("newlit", 1, v=h)], [g.O("newlit", 2, v=[97] + h + [32]), g.O("newsub", 1, 2, i=1, j=len(h))]):
                ws.append(dict(type="S", ops=c + [g.O("hashf", 1, 1), dict(m), g.O("hashf", 1, 1), g.O("newcopy", 3, 1), dict(TEXTMUT[(k + len(h)) % 3]), g.O("hashf", 1, 3), g.O("hashf", 1, 2), g.end()]))
    seqrun(chk, "text", pick(r, ws, sz(chk, 1500, 10**9)), {"ret"}, {"hashf", "eq"})
    def hpre(t, k):
        return [g.O("hashf", 1, 1), g.O("hashf", 2, 1)]
    out = []
    ops = lambda t: g.op_edit(t) + g.op_slice(t) + g.op_read(t) + (g.op_queue(t) if t != "S" else TEXTMUT)
    for s in pick(r, g.systematic("SIVT", ops, pre=hpre), sz(chk, 14000, 100000)):
        s["ops"][-1:-1] = [g.O("hashf", 1, 2), g.O("hashf", 5, 1), g.O("hashf", 4, 1), g.O("eq", 1, 2)]
        out.append(s)
    seqrun(chk, "hash", out, {"ret"}, {"hashf", "eq"})
    beh(chk, r, {"ret"}, 3000, focus={"hashf", "eq"}, tail=lambda t: [g.O("hashf", 1, 2), g.O("newcopy", 3, 1), g.O("hashf", 3, 1), g.O("eq", 1, 2), g.O("newlit", 4, v=g.seq(t, 2, 1)), g.O("hashf", 4, 1), g.O("hashf", 4, 2)])
    def hops(t):
        return g.op_edit(t) + (TEXTMUT * 5 if t == "S" else []) + [g.O("hashf", s=1)] * 60 + g.op_slice(t)[::6] + (g.op_queue(t) * 3 if t != "S" else [])
    rs = rand(chk, r, hops, sz(chk, 120, 2500), 30)
    for s in rs:       # hash after every step
        o = []
        for op in s["ops"]:
            o.append(op)
            if op["op"] != "end":
                o.append(g.O("hashf", op["d"], r.randint(1, 5)))
        s["ops"] = o
    seqrun(chk, "random", rs, {"ret"}, {"hashf", "eq"})


def C08(chk):
    r = rng(chk)
    seqrun(chk, "compare", g.cmp_sessions(r, sz(chk, 2100, 10000)), {"ret", "others"}, {"cmp", "cmpc", "rel", "relc", "eq", "eqn"})
    hugesuite.run(chk, "over-2GiB", [hugesuite.compare()], {"ret", "others"})


def C09(chk):
    r = rng(chk)
    seqrun(chk, "views", g.view_sessions(r, sz(chk, 9000, 60000)), {"ret", "others", "self"}, {"cstr", "dup", "copyout", "stdstr", "ostream"})
    vops = lambda t: g.op_edit(t) + [g.O("cstr"), g.O("dup"), g.O("stdstr"), g.O("copyout", n="L")] * 40 + g.op_slice(t)[::8]
    seqrun(chk, "random", rand(chk, r, vops, sz(chk, 250, 4000), 40, "S"), {"ret", "others", "self"}, {"cstr", "dup", "copyout", "stdstr", "ostream"})


def C10(chk):
    r = rng(chk)
    f = {"find", "rfind", "fsub", "rfsub", "ifsub", "rifsub"}
    seqrun(chk, "search", g.search_sessions(r, sz(chk, 5200, 20000)), {"ret", "others"}, f)
    seqrun(chk, "arranged", g.systematic("SIVT", g.op_search), {"ret", "others"}, f)
    if chk.tier == "quick":      # the search written without memmem(3)
        q.run(chk, "search-nomem", pick(r, g.search_sessions(r, 1500), 1500), {"ret", "others"}, f, "nomem")
    hugesuite.run(chk, "over-2GiB", [hugesuite.search("S"), hugesuite.search("I")], {"ret", "others"})


def C11(chk):
    r = rng(chk)
    f = {"split", "join", "sub", "subst", "newsplit", "trim", "trimc", "chomp", "chompc", "rep"}
    seqrun(chk, "text", g.text_sessions(r, sz(chk, 1.0, 8.0)), {"ret", "self", "others"}, f)
    tops = lambda t: [g.O("split", s=4, n=n) for n in (-1, 1, 2, 3)] + [g.O("split", s=1), g.O("split", s=2, n=3), g.O("trim"), g.O("chomp"), g.O("trimc"), g.O("chompc"), g.O("rep", n=2), g.O("rep", n=0)] + \
        [g.O("newsplit", x=x) for x in (97, 98, 99, 32, 120)] + [g.O("sub", v=a, w=b, n=n) for a in ([97], [98, 99], [120], []) for b in ([], [122], [97, 97]) for n in (-1, 1)] + \
        [g.O("subst", kv=[[[97], [98]], [[99], [97]]])]
    seqrun(chk, "arranged", g.systematic("S", tops), {"ret", "self", "others"}, f)
    seqrun(chk, "random", rand(chk, r, lambda t: tops(t) * 4 + g.op_edit(t), sz(chk, 150, 2000), 40, "S"), {"ret", "self", "others"}, f)


def C12(chk):
    r = rng(chk)
    ms = g.move_sessions(r)
    seqrun(chk, "moves", pick(r, ms, sz(chk, 14000, 10**9)), {"self", "others", "moved", "ret"})
    mops = lambda t: [o for o in g.op_edit(t) if o["op"].endswith("mv") or o["op"] in ("asgmove", "swap")] * 3 + g.op_edit(t) + g.op_read(t)
    beh(chk, r, {"self", "others", "moved", "ret"}, 3000)
    seqrun(chk, "random", rand(chk, r, mops, sz(chk, 120, 2500)), {"self", "others", "moved", "ret"})
    maprun(chk, "tables", [s for s in mapsuite.systematic() if any("mov" in o["op"] or o["op"] == "swap" for o in s["ops"])])
    strun(chk, "streams", [s for s in streamsuite.systematic() if any(o["op"] in ("newmove", "newstrmv", "swap") or o["op"] == "putvar" for o in s["ops"])])


def C13(chk):
    r = rng(chk)
    ss = wipesuite.systematic(r)
    rs = wipesuite.random_sessions(r, sz(chk, 500, 10000), 30)
    for c in ["opt", "clangO3"] if chk.tier == "quick" else ["opt", "clangO3", "O3", "asan", "asan17"]:
        if not (wipesuite.run(chk, "systematic-" + c, pick(r, ss, sz(chk, 4500, 10**9)), c) and wipesuite.run(chk, "random-" + c, rs, c)):
            break


def C14(chk):
    r = rng(chk)
    for i, c in enumerate(mapsuite.MC):
        mcsuite.model(chk, "MapMC", c if chk.tier == "quick" else mapsuite.MCDEEP[i], () if chk.tier == "quick" or i else ("alias", "const-inserts", "overwrite"))
        maprun(chk, "behaviours-of-the-model-%d" % i, mapsuite.behaviour_sessions(r, c, sz(chk, 5000, 30000)))
    maprun(chk, "operations", mapsuite.systematic())
    maprun(chk, "large", mapsuite.big_sessions(sz(chk, 260, 900)))
    maprun(chk, "random", mapsuite.random_sessions(r, sz(chk, 500, 8000), sz(chk, 40, 80)))


def C15(chk):
    r = rng(chk)
    for w, bugs in (("core", ("insert", "shared")), ("vars", ())):
        mcsuite.model(chk, "StreamMC", (streamsuite.MC if chk.tier == "quick" else streamsuite.MCDEEP)[w], () if chk.tier == "quick" else bugs)
        strun(chk, "behaviours-of-the-model-" + w, streamsuite.behaviour_sessions(r, w, sz(chk, 4000, 60000)))
    strun(chk, "operations", streamsuite.systematic())
    strun(chk, "random", streamsuite.random_sessions(r, sz(chk, 500, 8000), 50))


def C16(chk):
    r = rng(chk)
    mcsuite.model(chk, "StreamMC", (streamsuite.MC if chk.tier == "quick" else streamsuite.MCDEEP)["files"], () if chk.tier == "quick" else ("append-file",))
    for c in ["asan", "nomem"] if chk.tier == "quick" else ["asan", "nomem", "asan17", "clang", "opt"]:
        fd = c != "nomem"
        x = "" if c == "asan" else "-" + c
        ok = streamsuite.run(chk, "behaviours-of-the-model" + x, streamsuite.behaviour_sessions(r, "files", sz(chk, 3000, 30000), fd), c) and \
            streamsuite.run(chk, "contents" + x, streamsuite.small_file_sessions(r, fd), c) and \
            streamsuite.run(chk, "sizes" + x, streamsuite.file_sessions(r, streamsuite.SIZES + ([] if chk.tier == "quick" else [r.randint(2, 300000) for _ in range(60)]), fd), c) and \
            streamsuite.run(chk, "faults" + x, streamsuite.fault_sessions(r, sz(chk, 8, 16) if fd else sz(chk, 14, 160), fd), c)
        if not ok:
            break


def atomic(chk, conds):
    r = rng(chk)
    afsuite.model(chk, sz(chk, 5, 7), 2)
    gen, full = afsuite.sessions(chk, r, sz(chk, 5, 6), 2, sz(chk, 2000, 40000))
    for c in configs(chk):
        x = "" if c == "asan" else "-" + c
        if not (afsuite.run(chk, "forms" + x, afsuite.forms(), conds, c) and
                afsuite.run(chk, "faults" + x, afsuite.faults(), conds, c) and
                afsuite.run(chk, "behaviours-of-the-model" + x, gen, conds, c)):
            break


def C17(chk):
    atomic(chk, {"crash"})


def C18(chk):
    atomic(chk, {"clean"})


def C19(chk):
    r = rng(chk)
    codecsuite.model(chk, "laws", "Inverse", [0, 1, 63, 64, 127, 128, 192, 255][:sz(chk, 6, 8)], sz(chk, 5, 6))
    ss = codecsuite.chunk(codecsuite.b64_ops(r, sz(chk, 1.0, 20.0)))
    for c in configs(chk):
        if not codecsuite.run(chk, "base64" + ("" if c == "asan" else "-" + c), ss, c):
            break


def C20(chk):
    r = rng(chk)
    codecsuite.model(chk, "laws", "Bounded", [0, 97, 255], sz(chk, 6, 8))
    ss = codecsuite.chunk(codecsuite.cstr_ops(r, sz(chk, 1.0, 20.0))) + codecsuite.redup_sessions(r, sz(chk, 1.0, 20.0))
    for c in configs(chk):
        if not codecsuite.run(chk, "cstrings" + ("" if c == "asan" else "-" + c), ss, c):
            break


# ---------------------------------------------------------------- script interpreters
def tclrun(chk, label, sessions):
    for c in ["asan"] if chk.tier == "quick" else ["asan", "asan17", "clang", "opt"]:
        if not tclsuite.run(chk, label + ("" if c == "asan" else "-" + c), sessions, c):
            return False
    return True


def scriptmc(chk, r, group, ni, n, bugs=()):
    """laws of the interpreters over all histories; its behaviours in the real code"""
    mcsuite.model(chk, "ScriptMC", tclsuite.mc(group, ni), () if chk.tier == "quick" else bugs)
    tclrun(chk, "behaviours-of-the-model-%s-%d" % (group, ni), tclsuite.behaviour_sessions(r, group, ni, n))


def C21(chk):
    r = rng(chk)
    scriptmc(chk, r, "cmds", 1, 10**9)
    tclrun(chk, "registrations", tclsuite.command_sessions(r))
    tclrun(chk, "random", tclsuite.random_sessions(r, sz(chk, 250, 5000), 40, ["cmdop"]))
    tclrun(chk, "arguments", pick(r, tclsuite.convert_sessions(r), sz(chk, 80, 10**9)))


def C22(chk):
    r = rng(chk)
    scriptmc(chk, r, "vars", 1, sz(chk, 3000, 10**9))
    tclrun(chk, "links", tclsuite.variable_sessions(r))
    tclrun(chk, "random", tclsuite.random_sessions(r, sz(chk, 300, 6000), 40, ["varop"]))


def C23(chk):
    r = rng(chk)
    tclrun(chk, "conversions", tclsuite.convert_sessions(r))
    tclrun(chk, "lists", tclsuite.list_sessions(r))
    tclrun(chk, "round-trips", tclsuite.rt_sessions(r, sz(chk, 120, 4000)))


def C24(chk):
    r = rng(chk)
    scriptmc(chk, r, "cbs", 2, sz(chk, 3000, 10**9), ("owner",))
    tclrun(chk, "callbacks", tclsuite.callback_sessions(r, sz(chk, 250, 6000)))


def C25(chk):
    r = rng(chk)
    scriptmc(chk, r, "cmds", 2, sz(chk, 3000, 60000), ("ghost", "shared-names"))
    if chk.tier != "quick":
        scriptmc(chk, r, "vars", 2, 40000, ("ro",))
    tclrun(chk, "two-interpreters", tclsuite.random_sessions(r, sz(chk, 350, 8000), 60, ["cmdop", "varop", "cmdop", "varop", "cbop"]))
    tclrun(chk, "names", pick(r, tclsuite.pair_sessions(r), sz(chk, 2500, 10**9)))


def C26(chk):
    r = rng(chk)
    seqrun(chk, "io", g.io_sessions(r, sz(chk, 1.0, 1.6)), {"ret", "self", "others"}, {"printf", "fmt", "ostream", "rdword", "rdline"})


def C27(chk):
    r = rng(chk)
    seqrun(chk, "queues", g.queue_sessions(r, sz(chk, 400, 6000)), {"self", "ret", "others"}, QUEUE | {"postinc", "postdec"})
    seqrun(chk, "arranged", g.systematic("IVT", lambda t: g.op_queue(t)), {"self", "ret", "others"}, QUEUE)


def C28(chk):
    r = rng(chk)
    n = sz(chk, 8000, 80000)
    seqrun(chk, "sharing", pick(r, g.systematic("SIVT", lambda t: g.op_edit(t) + g.op_slice(t)[::3] + g.op_read(t) + (g.op_queue(t) if t != "S" else [])), n), {"rc", "share"}, {"hashf"})
    beh(chk, r, {"rc", "share"}, 4000, focus={"hashf"})
    seqrun(chk, "random", rand(chk, r, allops, sz(chk, 150, 3000)), {"rc", "share"}, {"hashf"})


def C29(chk):
    r = rng(chk)
    tclrun(chk, "scripts", tclsuite.load_sessions(r, sz(chk, 400, 8000)))


ALL = {k: v for k, v in list(globals().items()) if k[0] == "C" and k[1:].isdigit()}
