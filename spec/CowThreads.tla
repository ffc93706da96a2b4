----------------------------- MODULE CowThreads -----------------------------
(***************************************************************************)
(* Copy-on-write storage used by several threads, at the granularity of    *)
(* the atomic operations on the use count.  Every thread owns its objects  *)
(* (slots); objects of different threads may refer to the same block.      *)
(*                                                                         *)
(* A call is a sequence of micro steps; between any two of them the other  *)
(* threads may run.  Checked: no access to a released block, no write to a *)
(* block another thread's object uses, every thread reads what it would    *)
(* read alone, every block is released exactly once (and is released when  *)
(* its last object goes).  Bug selects known-wrong designs, which the      *)
(* checks must reject.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, MaxOps, Bug, Serial
Slots == {1, 2}
Blk0 == 1
Blocks == 1 .. (1 + Cardinality(Threads) * MaxOps)
VARIABLES ref,     \* block -> use count
          data,    \* block -> value
          st,      \* block -> "none" | "live" | "freed"
          obj,     \* <<thread, slot>> -> block (0: an object without storage, -1: no object)
          val,     \* <<thread, slot>> -> the value the thread must see (ghost)
          pc,      \* thread -> the rest of the call: sequence of micro steps
          tmp,     \* thread -> <<held block, loaded count>>
          n,       \* thread -> calls made
          hist,    \* thread -> calls made (ghost, for replay)
          bad      \* ghost: what went wrong
vars == <<ref, data, st, obj, val, pc, tmp, n, hist, bad>>
TS == Threads \X Slots
NoVal == <<0, 0>>
Init ==
  /\ ref = [b \in Blocks |-> IF b = Blk0 THEN Cardinality(Threads) ELSE 0]
  /\ data = [b \in Blocks |-> IF b = Blk0 THEN <<0, 1>> ELSE NoVal]
  /\ st = [b \in Blocks |-> IF b = Blk0 THEN "live" ELSE "none"]
  /\ obj = [x \in TS |-> IF x[2] = 1 THEN Blk0 ELSE -1]
  /\ val = [x \in TS |-> IF x[2] = 1 THEN <<0, 1>> ELSE NoVal]
  /\ pc = [t \in Threads |-> << >>]
  /\ tmp = [t \in Threads |-> <<0, 0>>]
  /\ n = [t \in Threads |-> 0]
  /\ hist = [t \in Threads |-> << >>]
  /\ bad = "no"

S(op, a, b) == [op |-> op, a |-> a, b |-> b]
Live(t, k) == obj[<<t, k>>] # -1
HasBlk(t, k) == obj[<<t, k>>] > 0
(* the micro steps of a call *)
Code(c, k, j) ==
  CASE c = "copy"    -> << S("inc", j, 0), S("bind", k, j) >>
    [] c = "read"    -> << S("read", k, 0) >>
    [] c = "modify"  -> << S("load", k, 0), S("cow", k, 0) >>
    [] c = "destroy" -> IF Bug = "checkThenFree" THEN << S("load", k, 0), S("freeif1", k, 0) >> ELSE << S("dec", k, 0), S("none", k, 0) >>
    [] c = "assign"  -> << S("inc", j, 0), S("dec", k, 0), S("bind", k, j) >>
    [] c = "move"    -> << S("dec", k, 0), S("take", k, j) >>
Calls(t) ==
  {<<c, k, j>> \in {"copy", "read", "modify", "destroy", "assign", "move"} \X Slots \X Slots :
     /\ c \in {"read", "modify", "destroy"} => j = k /\ Live(t, k)
     /\ c = "copy" => k # j /\ ~Live(t, k) /\ Live(t, j)
     /\ c \in {"assign", "move"} => k # j /\ Live(t, k) /\ Live(t, j)}
Begin(t) ==
  /\ pc[t] = << >> /\ n[t] < MaxOps
  /\ \E c \in Calls(t) :
       /\ pc' = [pc EXCEPT ![t] = Code(c[1], c[2], c[3])]
       /\ hist' = [hist EXCEPT ![t] = Append(@, c)]
  /\ n' = [n EXCEPT ![t] = @ + 1]
  /\ UNCHANGED <<ref, data, st, obj, val, tmp, bad>>
(* after the last call every object of the thread is destroyed *)
Finish(t) ==
  /\ pc[t] = << >> /\ n[t] = MaxOps
  /\ \E k \in Slots : Live(t, k) /\ pc' = [pc EXCEPT ![t] = Code("destroy", k, k)]
  /\ UNCHANGED <<ref, data, st, obj, val, tmp, n, hist, bad>>
Touch(b) == IF b > 0 /\ st[b] # "live" THEN "used after release" ELSE bad
Fresh == CHOOSE b \in Blocks : st[b] = "none" /\ \A c \in Blocks : st[c] = "none" => b <= c
Rest(t) == [pc EXCEPT ![t] = Tail(@)]
NewVal(t) == <<t, n[t]>>
Micro(t) ==
  /\ pc[t] # << >>
  /\ LET s == Head(pc[t])
         b == IF s.a = 0 THEN 0 ELSE IF obj[<<t, s.a>>] < 0 THEN 0 ELSE obj[<<t, s.a>>] IN
     CASE s.op = "inc" ->
            /\ ref' = IF b = 0 THEN ref ELSE [ref EXCEPT ![b] = @ + 1]
            /\ bad' = Touch(b) /\ pc' = Rest(t)
            /\ UNCHANGED <<data, st, obj, val, tmp>>
       [] s.op = "dec" ->      \* decrement and, if that was the last use, release
            IF Bug = "nonAtomic" /\ b # 0 THEN
              /\ tmp' = [tmp EXCEPT ![t][2] = ref[b]]
              /\ pc' = [pc EXCEPT ![t] = <<S("decw", s.a, 0)>> \o Tail(@)]
              /\ bad' = Touch(b)
              /\ UNCHANGED <<ref, data, st, obj, val>>
            ELSE
              /\ ref' = IF b = 0 THEN ref ELSE [ref EXCEPT ![b] = @ - 1]
              /\ bad' = Touch(b)
              /\ obj' = [obj EXCEPT ![<<t, s.a>>] = 0]
              /\ pc' = IF b # 0 /\ ref[b] = 1 THEN [pc EXCEPT ![t] = <<S("free", 0, b)>> \o Tail(@)] ELSE Rest(t)
              /\ UNCHANGED <<data, st, val, tmp>>
       [] s.op = "decw" ->
            /\ ref' = [ref EXCEPT ![b] = tmp[t][2] - 1]
            /\ bad' = Touch(b)
            /\ obj' = [obj EXCEPT ![<<t, s.a>>] = 0]
            /\ pc' = IF tmp[t][2] = 1 THEN [pc EXCEPT ![t] = <<S("free", 0, b)>> \o Tail(@)] ELSE Rest(t)
            /\ UNCHANGED <<data, st, val, tmp>>
       [] s.op = "free" ->
            /\ bad' = IF st[s.b] # "live" THEN "released twice" ELSE bad
            /\ st' = [st EXCEPT ![s.b] = "freed"] /\ pc' = Rest(t)
            /\ UNCHANGED <<ref, data, obj, val, tmp>>
       [] s.op = "freeif1" ->
            /\ pc' = IF b # 0 /\ tmp[t][2] = 1 THEN [pc EXCEPT ![t] = <<S("free", 0, b), S("none", s.a, 0)>>]
                     ELSE [pc EXCEPT ![t] = <<S("none", s.a, 0)>>]
            /\ ref' = IF b # 0 THEN [ref EXCEPT ![b] = @ - 1] ELSE ref
            /\ bad' = Touch(b)
            /\ UNCHANGED <<data, st, obj, val, tmp>>
       [] s.op = "none" ->     \* the object is gone
            /\ obj' = [obj EXCEPT ![<<t, s.a>>] = -1] /\ val' = [val EXCEPT ![<<t, s.a>>] = NoVal]
            /\ pc' = Rest(t) /\ UNCHANGED <<ref, data, st, tmp, bad>>
       [] s.op = "bind" ->
            /\ obj' = [obj EXCEPT ![<<t, s.a>>] = obj[<<t, s.b>>]] /\ val' = [val EXCEPT ![<<t, s.a>>] = val[<<t, s.b>>]]
            /\ pc' = Rest(t) /\ UNCHANGED <<ref, data, st, tmp, bad>>
       [] s.op = "take" ->
            /\ obj' = [obj EXCEPT ![<<t, s.a>>] = obj[<<t, s.b>>], ![<<t, s.b>>] = 0]
            /\ val' = [val EXCEPT ![<<t, s.a>>] = val[<<t, s.b>>], ![<<t, s.b>>] = NoVal]
            /\ pc' = Rest(t) /\ UNCHANGED <<ref, data, st, tmp, bad>>
       [] s.op = "read" ->
            /\ bad' = IF b # 0 /\ st[b] # "live" THEN "used after release"
                      ELSE IF b # 0 /\ data[b] # val[<<t, s.a>>] THEN "wrong contents"
                      ELSE IF b = 0 /\ val[<<t, s.a>>] # NoVal THEN "wrong contents" ELSE bad
            /\ pc' = Rest(t) /\ UNCHANGED <<ref, data, st, obj, val, tmp>>
       [] s.op = "load" ->
            /\ tmp' = [tmp EXCEPT ![t][2] = IF b = 0 THEN 0 ELSE ref[b]]
            /\ bad' = Touch(b) /\ pc' = Rest(t)
            /\ UNCHANGED <<ref, data, st, obj, val>>
       [] s.op = "cow" ->
            IF tmp[t][2] <= 1 THEN      \* alone: write in place (or get storage first)
              LET nb == IF b = 0 THEN Fresh ELSE b IN
              /\ st' = [st EXCEPT ![nb] = IF b = 0 THEN "live" ELSE @]
              /\ ref' = IF b = 0 THEN [ref EXCEPT ![nb] = 1] ELSE ref
              /\ obj' = [obj EXCEPT ![<<t, s.a>>] = nb]
              /\ pc' = [pc EXCEPT ![t] = <<S("write", s.a, 0)>> \o Tail(@)]
              /\ bad' = Touch(b)
              /\ UNCHANGED <<data, val, tmp>>
            ELSE IF Bug = "copyAfterRelease" THEN
              /\ tmp' = [tmp EXCEPT ![t][1] = b]
              /\ pc' = [pc EXCEPT ![t] = <<S("dec", s.a, 0), S("new", s.a, 0), S("copyold", s.a, 0), S("write", s.a, 0)>> \o Tail(@)]
              /\ UNCHANGED <<ref, data, st, obj, val, bad>>
            ELSE                        \* hold the old block, leave it, copy from it, let it go
              /\ ref' = [ref EXCEPT ![b] = @ + 1]
              /\ tmp' = [tmp EXCEPT ![t][1] = b]
              /\ pc' = [pc EXCEPT ![t] = <<S("dec", s.a, 0), S("new", s.a, 0), S("copyold", s.a, 0), S("drop", s.a, 0), S("write", s.a, 0)>> \o Tail(@)]
              /\ bad' = Touch(b)
              /\ UNCHANGED <<data, st, obj, val>>
       [] s.op = "new" ->
            LET nb == Fresh IN
            /\ st' = [st EXCEPT ![nb] = "live"] /\ ref' = [ref EXCEPT ![nb] = 1]
            /\ obj' = [obj EXCEPT ![<<t, s.a>>] = nb]
            /\ pc' = Rest(t) /\ UNCHANGED <<data, val, tmp, bad>>
       [] s.op = "copyold" ->
            /\ bad' = Touch(tmp[t][1])
            /\ data' = [data EXCEPT ![b] = data[tmp[t][1]]]
            /\ pc' = Rest(t) /\ UNCHANGED <<ref, st, obj, val, tmp>>
       [] s.op = "drop" ->
            LET o == tmp[t][1] IN
            /\ ref' = [ref EXCEPT ![o] = @ - 1]
            /\ st' = IF ref[o] = 1 THEN [st EXCEPT ![o] = "freed"] ELSE st
            /\ bad' = IF st[o] # "live" THEN "released twice" ELSE bad
            /\ tmp' = [tmp EXCEPT ![t][1] = 0]
            /\ pc' = Rest(t) /\ UNCHANGED <<data, obj, val>>
       [] s.op = "write" ->
            /\ data' = [data EXCEPT ![b] = NewVal(t)]
            /\ val' = [val EXCEPT ![<<t, s.a>>] = NewVal(t)]
            /\ bad' = IF st[b] # "live" THEN "used after release"
                      ELSE IF \E x \in TS : x # <<t, s.a>> /\ obj[x] = b THEN "shared storage written"
                      ELSE IF data[b] # val[<<t, s.a>>] /\ val[<<t, s.a>>] # NoVal THEN "wrong contents" ELSE bad
            /\ pc' = Rest(t) /\ UNCHANGED <<ref, st, obj, tmp>>
  /\ UNCHANGED <<n, hist>>
Over(t) == n[t] = MaxOps /\ pc[t] = << >> /\ \A k \in Slots : ~Live(t, k)
AllOver == \A t \in Threads : Over(t)
Turn(t) == Serial => \A u \in Threads : u < t => Over(u)
Next == \E t \in Threads : Turn(t) /\ (Begin(t) \/ Finish(t) \/ Micro(t))
Spec == Init /\ [][Next]_vars
Sound == bad = "no"
Released == AllOver => \A b \in Blocks : st[b] # "live"
(* hist is not part of the state that matters *)
View == <<ref, data, st, obj, val, pc, tmp, n, bad>>
Emit == (Serial /\ AllOver) => PrintT(<<"PROG", hist>>)
=============================================================================
