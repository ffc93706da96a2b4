----------------------------- MODULE StreamTrace -----------------------------
(***************************************************************************)
(* Trace validation of recorded executions of bd::Stream.  An injected     *)
(* file-system fault (e.hit # "") permits the call to report failure; a    *)
(* call that reports success must have had its full effect.                *)
(***************************************************************************)
EXTENDS StreamSpec, Json, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, l, st, cap
vars == <<sid, l, st, cap>>
Ev(s, k) == Sessions[s].ev[k]
NEv(s) == Len(Sessions[s].ev)
Init == /\ sid \in 1 .. Len(Sessions) /\ l = 0
        /\ st = [t |-> [k \in 1 .. 3 |-> S0], sv |-> << << >>, << >> >>, fs |-> [k \in 1 .. 3 |-> [e |-> 0, v |-> << >>, mode |-> 0]]]
        /\ cap = [k \in 1 .. 3 |-> 0]

SOK(p, x) == p.l = x.l /\ p.v = x.v /\ p.pos = x.pos /\ p.n = VLen(x.v) /\ (p.l = 1 => p.cap >= p.n)
Wild(p) == p.l = 1 /\ p.n = VLen(p.v) /\ p.cap >= p.n
Streams(e, x, except) == \A k \in 1 .. 3 \ except : SOK(e.post[k], x.t[k])
Vars(e, x, except) == \A k \in 1 .. 2 \ except : e.sv[k] = x.sv[k]
Files(e, x, except) == /\ \A k \in 1 .. 3 \ except : e.fs[k] = x.fs[k]
                       /\ e.fds = 0

Normal(e, r) ==
  /\ e.err = r.err
  /\ (e.err = "" => e.ret = r.ret)
  /\ Streams(e, r.st, r.ms)
  /\ \A k \in r.ms : Wild(e.post[k]) /\ e.post[k].v \in {st.t[k].v, << >>}
  /\ Vars(e, r.st, r.mx)
  /\ \A k \in r.mx : e.sv[k] \in {st.sv[k], << >>}
  /\ Files(e, r.st, {})
(* a file operation that reported failure although nothing forbids it to succeed: only under a fault *)
Failed(e) ==
  /\ e.hit # "" /\ e.err = "" /\ e.ret = 1
  /\ Streams(e, st, IF e.op \in {"lfile", "lfd"} THEN {e.d} ELSE {})
  /\ e.op \in {"lfile", "lfd"} => Wild(e.post[e.d])
  /\ Vars(e, st, {})
  /\ Files(e, st, IF e.op \in {"wfile", "wfd"} THEN {e.f + 1} ELSE {})
(* the operation has to fail: the stream that was to be loaded may have been emptied *)
MustFail(e, r) ==
  /\ e.err = "" /\ e.ret = 1
  /\ Streams(e, st, IF e.op \in {"lfile", "lfd"} THEN {e.d} ELSE {})
  /\ e.op \in {"lfile", "lfd"} => (Wild(e.post[e.d]) /\ e.post[e.d].v \in {<< >>, st.t[e.d].v})
  /\ Vars(e, st, {})
  /\ Files(e, st, {})
Conforms(e) ==
  IF e.err = "pre" THEN ~Pre(e, st) ELSE
  LET r == Exp(e, st, cap[e.d]) IN
  /\ Pre(e, st)
  /\ IF e.op \in FileOps /\ r.ret = 1 THEN MustFail(e, r)
     ELSE Normal(e, r) \/ (e.op \in FileOps /\ Failed(e))
  /\ e.op \in FileOps => e.keep = 1
  /\ e.op = "reserve" => e.post[e.d].cap >= e.n

Step == /\ l < NEv(sid)
        /\ LET e == Ev(sid, l + 1) IN
             IF e.op = "end" THEN e.err = "" /\ UNCHANGED <<st, cap>>
             ELSE /\ Conforms(e)
                  /\ st' = [t |-> [k \in 1 .. 3 |-> [l |-> e.post[k].l, v |-> e.post[k].v, pos |-> e.post[k].pos]], sv |-> e.sv, fs |-> e.fs]
                  /\ cap' = [k \in 1 .. 3 |-> e.post[k].cap]
        /\ l' = l + 1 /\ UNCHANGED sid
Done == l = NEv(sid) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
