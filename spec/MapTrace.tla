------------------------------ MODULE MapTrace ------------------------------
(* Trace validation of recorded executions of bd::HashTable against MapSpec. *)
EXTENDS MapSpec, Json, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, l, st
vars == <<sid, l, st>>
Ev(s, k) == Sessions[s].ev[k]
NEv(s) == Len(Sessions[s].ev)
Init == /\ sid \in 1 .. Len(Sessions) /\ l = 0
        /\ st = [t |-> [k \in 1 .. 3 |-> [l |-> 0, m |-> EmptyMap]], kv |-> [k \in 1 .. 3 |-> << >>], vv |-> [k \in 1 .. 3 |-> << >>]]

PairSet(m) == {<< k, m[k] >> : k \in DOMAIN m}
(* a recorded iteration is a listing of map m: each entry exactly once *)
Lists(rec, m) == /\ Len(rec) = Cardinality(DOMAIN m)
                 /\ {rec[k] : k \in 1 .. Len(rec)} = PairSet(m)
TableOK(p, x) == p.l = x.l /\ Lists(p.m, x.m) /\ p.n = Cardinality(DOMAIN x.m)
MovedTab(p) == p.l = 1 /\ p.n = Len(p.m)
RetOK(e, r) == IF e.op = "iter" THEN Lists(e.ret, M(st, e.d)) ELSE e.ret = r.ret
IterR == R(st, 0)
Conforms(e) ==
  IF e.err = "pre" THEN ~Pre(e, st) ELSE
  LET r == IF e.op = "iter" THEN IterR ELSE Exp(e, st) IN
  /\ Pre(e, st)
  /\ e.err = ""
  /\ RetOK(e, r)
  /\ \A k \in 1 .. 3 : IF k \in r.mt THEN TableOK(e.post[k], st.t[k]) \/ TableOK(e.post[k], [l |-> 1, m |-> EmptyMap])
                       ELSE TableOK(e.post[k], r.st.t[k])
  /\ \A k \in 1 .. 3 : IF k \in r.mk THEN e.kv[k] \in {st.kv[k], << >>} ELSE e.kv[k] = r.st.kv[k]
  /\ \A k \in 1 .. 3 : IF k \in r.mv THEN e.vv[k] \in {st.vv[k], << >>} ELSE e.vv[k] = r.st.vv[k]

NewState(e) == LET r == IF e.op = "iter" \/ e.err = "pre" THEN IterR ELSE Exp(e, st) IN
  [t |-> [k \in 1 .. 3 |-> IF k \in r.mt /\ e.post[k].m = << >> THEN [l |-> 1, m |-> EmptyMap] ELSE r.st.t[k]], kv |-> e.kv, vv |-> e.vv]

Step == /\ l < NEv(sid)
        /\ LET e == Ev(sid, l + 1) IN
             IF e.op = "end" THEN e.err = "" /\ UNCHANGED st
             ELSE Conforms(e) /\ st' = NewState(e)
        /\ l' = l + 1 /\ UNCHANGED sid
Done == l = NEv(sid) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
