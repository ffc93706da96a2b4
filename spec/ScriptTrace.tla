----------------------------- MODULE ScriptTrace -----------------------------
(* Trace validation of recorded executions of bd::ScriptInterpTCL against ScriptSpec. *)
EXTENDS ScriptSpec, Json, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, l, st
vars == <<sid, l, st>>
Ev(s, k) == Sessions[s].ev[k]
NEv(s) == Len(Sessions[s].ev)
Init == sid \in 1 .. Len(Sessions) /\ l = 0 /\ st = Start

Starts(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
Ends(t, p) == Len(t) >= Len(p) /\ SubSeq(t, Len(t) - Len(p) + 1, Len(t)) = p
RetOK(e, r) ==
  IF e.code = -1 THEN        \* evaluated directly: the result, or the error with its trail
    (IF r.code = 0 THEN r.how = "any" \/ (IF r.how = "pre" THEN Starts(e.ret, r.ret) ELSE e.ret = r.ret)
     ELSE r.how \in {"any", "suf"} \/ Starts(e.ret, r.ret))
  ELSE /\ e.code = r.code
       /\ CASE r.how = "eq" -> e.ret = r.ret [] r.how = "pre" -> Starts(e.ret, r.ret) [] r.how = "suf" -> Ends(e.ret, r.ret) [] OTHER -> TRUE
PeekOK(e, s) == \A k \in 1 .. 2 : e.peek[k].on = 1 =>
   /\ s.i[k].l
   /\ \A j \in 1 .. Len(CmdNames) : e.peek[k].c[j] = (IF CmdNames[j] \in DOMAIN s.i[k].cmds THEN 1 ELSE 0)
   /\ \A j \in 1 .. Len(VarNames) : IF HasVar(s, k, VarNames[j]) THEN e.peek[k].v[j].e = 1 /\ e.peek[k].v[j].t = VarText(s, k, VarNames[j]) ELSE e.peek[k].v[j].e = 0
PvOK(e, s) == \A p \in DOMAIN PvTypes : e.pv[p] = s.pv[p]
Conforms(e) ==
  IF e.err = "pre" THEN ~Pre(e, st) /\ PvOK(e, st) ELSE
  LET r == Exp(e, st) IN
  /\ Pre(e, st)
  /\ e.err = ""
  /\ RetOK(e, r)
  /\ e.calls = r.calls
  /\ e.hooks = r.hooks
  /\ PvOK(e, r.st)
  /\ PeekOK(e, r.st)
Step == /\ l < NEv(sid)
        /\ LET e == Ev(sid, l + 1) IN
             IF e.op = "end" THEN e.err = "" /\ UNCHANGED st
             ELSE Conforms(e) /\ st' = IF e.err = "pre" THEN st ELSE Exp(e, st).st
        /\ l' = l + 1 /\ UNCHANGED sid
Done == l = NEv(sid) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
