------------------------------ MODULE WipeTrace ------------------------------
(***************************************************************************)
(* Storage blocks, the strings on them, and which of their bytes ever held *)
(* text.  H: the users of storage after the call (four variables, then the *)
(* elements of an array of strings): block, offset, length, contents.      *)
(* F: blocks given back during the call, with the offsets whose byte still *)
(* is the text that was there before the call.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, l, held, users
vars == <<sid, l, held, users>>
Ev(s, k) == Sessions[s].ev[k]
NEv(s) == Len(Sessions[s].ev)
Free == [b |-> 0, o |-> 0, n |-> -1, t |-> << >>]
Init == sid \in 1 .. Len(Sessions) /\ l = 0 /\ held = << >> /\ users = [k \in 1 .. 4 |-> Free]

Blocks(H) == {H[k].b : k \in 1 .. Len(H)} \ {0}
Bytes(h) == h.o .. (h.o + h.n - 1)
TextOf(H, b) == UNION {Bytes(H[k]) : k \in {j \in 1 .. Len(H) : H[j].b = b}}
Was(b) == IF b \in DOMAIN held THEN held[b] ELSE {}
(* the users that go away in this call *)
Going(e) == CASE e.op = "del" -> {e.d}
              [] e.op = "arrdel" -> {k \in 5 .. Len(users) : TRUE}
              [] OTHER -> {}
Staying(e) == {k \in 1 .. Len(users) : users[k].n >= 0} \ Going(e)
Wiped(e) == \A i \in 1 .. Len(e.F) :
  LET f == e.F[i] IN
    (\E k \in Going(e) : users[k].b = f.b) => {f.left[j] : j \in 1 .. Len(f.left)} \cap Was(f.b) = {}
Intact(e) ==
  /\ \A k \in Staying(e) : k <= Len(e.H) /\ e.H[k].t = users[k].t
  /\ \A k \in Staying(e) : \A i \in 1 .. Len(e.F) : users[k].b # e.F[i].b
Step == /\ l < NEv(sid)
        /\ LET e == Ev(sid, l + 1) IN
             /\ e.err \in {"", "pre"}
             /\ e.op = "new" /\ e.err = "" => e.H[e.d].n = Len(e.v)
             /\ e.op # "end" => Wiped(e) /\ (Going(e) # {} => Intact(e))
             /\ users' = e.H
             /\ LET gone == {e.F[i].b : i \in 1 .. Len(e.F)}
                IN held' = [b \in (DOMAIN held \cup Blocks(e.H)) \ (gone \ Blocks(e.H)) |-> Was(b) \cup TextOf(e.H, b)]
        /\ l' = l + 1 /\ UNCHANGED sid
Done == l = NEv(sid) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
