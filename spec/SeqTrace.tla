------------------------------ MODULE SeqTrace ------------------------------
(***************************************************************************)
(* Trace validation of recorded executions of the real String/Array        *)
(* classes against SeqSpec.  The trace file holds one session per line;    *)
(* every session is one initial state and one behaviour.  The step for an  *)
(* event is permitted only if the recorded outcome is the one SeqSpec      *)
(* prescribes in the recorded pre-state; a behaviour that gets stuck       *)
(* (deadlock) is a rejected trace.                                         *)
(*                                                                         *)
(* Conds/FocusOps select which part of the outcome belongs to the property *)
(* under check; the rest of the state is taken over from the record.       *)
(***************************************************************************)
EXTENDS SeqSpec, Json, IOUtils

CONSTANTS Conds,     \* subset of {"self","others","moved","ret","rc","share"}
          FocusOps   \* events whose own outcome is judged

Sessions == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sid, l, st
vars == <<sid, l, st>>

Slots == 1 .. 5
Empty == [k \in Slots |-> [l |-> 0, v |-> << >>]]

Ev(s, k) == Sessions[s].ev[k]
NEv(s) == Len(Sessions[s].ev)

Init == /\ sid \in 1 .. Len(Sessions)
        /\ l = 0
        /\ st = Empty

Fatal == {"CRASH", "HANG", "LEAK", "LIFE", "EXC"}

(* -------- conditions relating the recorded event to the specification --- *)
ErrOK(e, r) == e.op \in FocusOps => e.err = r.err
SelfOK(e, r) == (e.op \in FocusOps /\ "self" \in Conds) =>
                   /\ \A k \in DOMAIN r.upd : e.post[k].l = 1 /\ e.post[k].v = r.upd[k]
                   /\ \A k \in r.del : e.post[k].l = 0
OthersOK(e, r) == ("others" \in Conds) =>
                   \A k \in Slots \ (DOMAIN r.upd \cup r.del \cup r.may) :
                        e.post[k].l = st[k].l /\ (st[k].l = 1 => e.post[k].v = st[k].v)
MovedOK(e, r) == ("moved" \in Conds) =>
                   \A k \in r.may : e.post[k].l = 1 /\ e.post[k].v \in {st[k].v, << >>}
RetOK(e, r) == (e.op \in FocusOps /\ "ret" \in Conds) => e.ret = r.ret

(* reference counts: rc of a non-empty object lies between the number of   *)
(* non-empty objects in its storage block and that number plus the empty   *)
(* objects (an empty object may or may not hold on to a block)             *)
Holders(p, b) == {k \in Slots : p[k].l = 1 /\ p[k].v # << >> /\ p[k].b = b}
Empties(p) == {k \in Slots : p[k].l = 1 /\ p[k].v = << >>}
RcOK(e) == ("rc" \in Conds) =>
   \A k \in Slots : (e.post[k].l = 1 /\ e.post[k].v # << >>) =>
       LET h == Cardinality(Holders(e.post, e.post[k].b))
       IN /\ e.post[k].rc >= h
          /\ e.post[k].rc <= h + Cardinality(Empties(e.post))
          /\ e.post[k].sh = B01(e.post[k].rc > 1)
(* copies and slices use the source's storage; modifying calls end up on   *)
(* storage no other non-empty object uses                                  *)
ShareSrc == {"newcopy", "newsub", "asg", "asgsub"}
OwnAfter == {"set", "setfrom", "repl", "replown", "app", "appown", "ins", "insown", "resizef", "inslit",
             "repllit", "applit", "elapp", "unshift", "push"}
ShareOK(e) == ("share" \in Conds) =>
   /\ (e.op \in ShareSrc /\ e.err = "" /\ e.post[e.d].v # << >>) =>
          e.d = e.s \/ e.post[e.s].v = << >> \/ e.post[e.d].b = e.post[e.s].b
   /\ (e.op \in OwnAfter /\ e.err = "" /\ e.post[e.d].v # st[e.d].v
       /\ Len(e.post[e.d].v) >= Max2(1, Len(st[e.d].v))) =>
          Holders(e.post, e.post[e.d].b) = {e.d}

Unchanged(e) == \A k \in Slots : e.post[k].l = st[k].l /\ e.post[k].v = st[k].v
Conforms(e) ==
  IF e.err = "pre" THEN ~Pre(e, st) /\ Unchanged(e) ELSE
  LET r == Exp(e, st) IN
  /\ Pre(e, st)
  /\ ErrOK(e, r)
  /\ SelfOK(e, r)
  /\ OthersOK(e, r)
  /\ MovedOK(e, r)
  /\ RetOK(e, r)
  /\ RcOK(e)
  /\ ShareOK(e)

Step == /\ l < NEv(sid)
        /\ LET e == Ev(sid, l + 1) IN
             /\ e.err \notin Fatal
             /\ IF e.op = "end" THEN TRUE ELSE Conforms(e)
             /\ st' = [k \in Slots |-> [l |-> e.post[k].l, v |-> e.post[k].v]]
        /\ l' = l + 1
        /\ UNCHANGED sid

Done == l = NEv(sid) /\ UNCHANGED vars

Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
