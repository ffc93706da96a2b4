------------------------------ MODULE ScriptMC ------------------------------
(***************************************************************************)
(* All histories of two small interpreters: what the program and a script  *)
(* may rely on, checked for every reachable state and call, and the source *)
(* of the behaviours replayed into bd::ScriptInterpTCL.                    *)
(* Group: "cmds" registrations, "vars" linked variables, "cbs" callbacks.  *)
(***************************************************************************)
EXTENDS ScriptSpec, Json
CONSTANTS NI, MaxDepth, Group, Emit, Bug
VARIABLES st, hist, last
vars == << st, hist, last >>
IS == 1 .. NI
Ev(op, k) == [op |-> op, k |-> k]
D == [hasla |-> 0, la |-> << >>, hasna |-> 0, nested |-> << >>, args |-> << >>, v |-> << >>, q |-> 0, nm |-> "x", to |-> "-", us |-> "", h |-> "v0", mn |-> -1,
      ro |-> 0, hk |-> 0, pv1 |-> "i8", slot |-> 1, n |-> 0]
Tx7 == << 55 >>
TxZz == << 122, 122 >>
Cb1 == << 101, 99, 104, 111 >>                    \* echo
Cb2 == << 121, 32, 113 >>                         \* y q
CmdCalls(k) ==
  {Ev(op, k) : op \in {"mk", "rm"}}
  \cup {Ev("cmd", k) @@ [nm |-> n, h |-> h] : n \in {"x", "y"}, h \in {"s1a", "s1b"}}
  \cup {Ev("cmd", k) @@ [nm |-> "x", h |-> h] : h \in {"del", "rep"}}
  \cup {Ev("cmd", k) @@ [nm |-> "y", h |-> "four", mn |-> 2]}
  \cup {Ev(op, k) @@ [nm |-> n] : op \in {"delc", "proc"}, n \in {"x", "y"}}
  \cup {Ev("ren", k) @@ [nm |-> "x", to |-> t] : t \in {"-", "y"}}
  \cup {Ev("ren", k) @@ [nm |-> "y", to |-> "x"]}
  \cup {Ev("call", k) @@ [nm |-> n, args |-> a] : n \in {"x", "y"}, a \in {<< >>, << NmY >>, << NmY, NmY >>, << NmX, NmY >>}}
VarCalls(k) ==
  {Ev(op, k) : op \in {"mk", "rm"}}
  \cup {Ev("link", k) @@ [nm |-> n, pv1 |-> p, ro |-> r, hk |-> r] : n \in {"a"}, p \in {"i32", "s"}, r \in {0, 1}}
  \cup {Ev("link", k) @@ [nm |-> "b", pv1 |-> p, hk |-> 1] : p \in {"s", "c4", "ki"}}
  \cup {Ev(op, k) @@ [nm |-> n] : op \in {"unlink", "unset", "get"}, n \in {"a", "b"}}
  \cup {Ev("setv", k) @@ [nm |-> n, v |-> v] : n \in {"a", "b"}, v \in {Tx7, TxZz}}
  \cup {Ev("pset", 1) @@ [pv1 |-> p, v |-> Tx7] : p \in {"i32", "s"}}
CbCalls(k) ==
  {Ev(op, k) : op \in {"mk", "rm"}}
  \cup {Ev("cmd", k) @@ [nm |-> "x", h |-> h] : h \in {"reg", "cbnow"}}
  \cup {Ev("cmd", k) @@ [nm |-> "y", h |-> "four", mn |-> 1]}
  \cup {Ev("delc", k) @@ [nm |-> n] : n \in {"x", "y"}}
  \cup {Ev("call", k) @@ [nm |-> "x", args |-> << s, c >>] : s \in {<< 49 >>, << 50 >>}, c \in {Cb1, Cb2}}
  \cup {Ev("call", k) @@ [nm |-> "x", args |-> << c >>, la |-> << TxZz >>, hasla |-> 0] : c \in {Cb1}}
  \cup {Ev("cbcall", 1) @@ [slot |-> s, args |-> a] : s \in {1, 2}, a \in {<< >>, << TxZz >>}}
Calls == UNION {CASE Group = "cmds" -> CmdCalls(k) [] Group = "vars" -> VarCalls(k) [] OTHER -> CbCalls(k) : k \in IS}

Broken(e, r) ==
  CASE Bug = "ghost" /\ e.op = "delc" -> OkAny([st EXCEPT !.i[e.k].cmds = Without(@, e.nm), !.i[e.k].prog = Without(@, e.nm)])
    [] Bug = "shared-names" /\ e.op = "cmd" /\ st.i[3 - e.k].l -> [r EXCEPT !.st.i[3 - e.k].cmds = r.st.i[e.k].cmds]
    [] Bug = "ro" /\ e.op = "setv" /\ r.code = 1 /\ HasVar(st, e.k, e.nm) -> [r EXCEPT !.st.pv[st.i[e.k].vars[e.nm].pv] = Stored(st.i[e.k].vars[e.nm].pv, e.v)]
    [] Bug = "owner" /\ e.op = "rm" -> [r EXCEPT !.st.cb = [j \in 1 .. 3 |-> IF st.cb[j].k = e.k THEN [st.cb[j] EXCEPT !.k = 3 - e.k] ELSE st.cb[j]]]
    [] OTHER -> r
Init == st = Start /\ hist = << >> /\ last = [e |-> Ev("none", 1), r |-> [code |-> 0]]
Next == /\ Len(hist) < MaxDepth
        /\ \E e \in Calls :
             LET f == e @@ D IN
             /\ Pre(f, st)
             /\ LET r == Broken(f, Exp(f, st)) IN
                  /\ st' = r.st
                  /\ last' = [e |-> f, r |-> [code |-> r.code, how |-> r.how, ret |-> r.ret, calls |-> r.calls, hooks |-> r.hooks]]
             /\ hist' = Append(hist, e)
             /\ Emit => PrintT("BEH" \o ToJson(hist'))
Spec == Init /\ [][Next]_vars

(* ---- laws ------------------------------------------------------------------ *)
Where(e) == IF e.op = "cbcall" THEN {st.cb[e.slot].k} ELSE IF e.op = "pset" THEN {} ELSE {e.k}
Ids(s, k) == {s.i[k].cmds[n].id : n \in DOMAIN s.i[k].cmds}
Laws == [][LET e == last'.e r == last'.r IN
   /\ \A k \in 1 .. 2 \ Where(e) : st'.i[k] = st.i[k]                                   \* interpreters do not affect one another
   /\ e.op \notin {"pset", "setv", "call", "cbcall"} => st'.pv = st.pv
   /\ e.op = "cmd" => /\ e.nm \in DOMAIN st'.i[e.k].cmds /\ st'.i[e.k].cmds[e.nm].h = e.h
                      /\ \A n \in DOMAIN st'.i[e.k].cmds \ {e.nm} : st'.i[e.k].cmds[n] = st.i[e.k].cmds[n]
                      /\ e.nm \in DOMAIN st.i[e.k].prog => st.i[e.k].prog[e.nm] \notin Ids(st', e.k)
   /\ (e.op = "delc" /\ e.nm \in DOMAIN st.i[e.k].prog) => st.i[e.k].prog[e.nm] \notin Ids(st', e.k)   \* whatever the script renamed it to
   /\ e.op = "delc" => \A n \in DOMAIN st.i[e.k].cmds : (e.nm \in DOMAIN st.i[e.k].prog => st.i[e.k].cmds[n].id # st.i[e.k].prog[e.nm]) => n \in DOMAIN st'.i[e.k].cmds
   /\ (e.op = "call" /\ e.nm \notin DOMAIN st.i[e.k].cmds) => r.code = 1 /\ st' = st /\ r.calls = << >>
   /\ (e.op = "call" /\ e.nm \in DOMAIN st.i[e.k].cmds) =>
        LET c == st.i[e.k].cmds[e.nm] IN
        IF c.h = "proc" THEN r.calls = << >> /\ st' = st
        ELSE IF Len(e.args) < c.mn \/ Len(e.args) > Len(Params[c.h]) THEN r.code = 1 /\ r.calls = << >> /\ st' = st
        ELSE Len(r.calls) >= 1 /\ r.calls[1].h = c.h                                    \* exactly the registered function, with what was given
   /\ e.op = "rm" => \A j \in 1 .. 3 : st'.cb[j] = (IF st.cb[j].k = e.k THEN NoCb ELSE st.cb[j])
   /\ (e.op = "setv" /\ HasVar(st, e.k, e.nm) /\ st.i[e.k].vars[e.nm].t = "link") =>
        LET v == st.i[e.k].vars[e.nm] IN
        IF v.ro THEN r.code = 1 /\ st' = st /\ r.hooks = << >>
        ELSE /\ st'.pv[v.pv] = Stored(v.pv, e.v)
             /\ \A p \in DOMAIN st.pv \ {v.pv} : st'.pv[p] = st.pv[p]
             /\ Len(r.hooks) = (IF v.hk = 0 THEN 0 ELSE 1)
   /\ (e.op = "get" /\ HasVar(st, e.k, e.nm)) => st' = st /\ r.code = 0 /\ r.ret = VarText(st, e.k, e.nm)
   /\ (e.op \in {"unlink", "unset"}) => st'.pv = st.pv /\ ~HasVar(st', e.k, e.nm)
   /\ \A p \in Const : st'.pv[p] = Pv0[p]]_vars

(* registrations up to renaming of their identities *)
CmdView(i) == [n \in DOMAIN i.cmds |-> << i.cmds[n].h, i.cmds[n].mn, {p \in DOMAIN i.prog : i.prog[p] = i.cmds[n].id} >>]
View == << [k \in 1 .. 2 |-> << st.i[k].l, CmdView(st.i[k]), DOMAIN st.i[k].prog, st.i[k].vars >>], st.pv, st.cb >>
=============================================================================
