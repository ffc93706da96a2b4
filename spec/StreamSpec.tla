----------------------------- MODULE StreamSpec -----------------------------
(***************************************************************************)
(* bdlib's Stream: a byte buffer with a position, and its file operations. *)
(* State st: t  : slot -> [l, v, pos, cap]   streams (cap >= Len(v) is the *)
(*                implementation's choice; seeking clamps to it)           *)
(*           sv : string variables of the program                          *)
(*           fs : file -> [e, v, mode]                                     *)
(* Contents longer than 300 bytes are opaque digests <<-1, length, ..>>.   *)
(***************************************************************************)
EXTENDS SeqOps, TLC

VLen(v) == IF v # << >> /\ v[1] = -1 THEN v[2] ELSE Len(v)
S0 == [l |-> 0, v |-> << >>, pos |-> 0]
Mk(v, p) == [l |-> 1, v |-> v, pos |-> p]
R(st, ret) == [st |-> st, ret |-> ret, err |-> "", ms |-> {}, mx |-> {}]
ErrR(st) == [R(st, 0) EXCEPT !.err = "range"]
SetS(st, d, x) == [st EXCEPT !.t[d] = x]

(* write x at the position of stream d; writing nothing past the end may   *)
(* or may not be refused                                                   *)
Puts(e, st, d, x) ==
  LET s == st.t[d] IN
  IF x = << >> THEN (IF s.pos > Len(s.v) /\ e.err = "range" THEN ErrR(st) ELSE R(st, 0))
  ELSE IF s.pos > Len(s.v) THEN ErrR(st)
  ELSE R(SetS(st, d, Mk(OverwriteAt(s.v, s.pos, x), s.pos + Len(x))), 0)

(* what read(n, c) returns at position p of v; c = 0: no delimiter *)
Avail(v, p, n) == IF p < Len(v) THEN Min2(n, Len(v) - p) ELSE 0
DelimAt(v, p, n, c) == LET I == {k \in 0 .. n - 1 : v[p + k + 1] = c} IN IF I = {} THEN n ELSE MinOf(I)
ReadLen(v, p, n, c) ==
  LET a == Avail(v, p, n) IN
  IF c = 0 THEN a
  ELSE LET k == DelimAt(v, p, a, c) IN
       IF p + k < Len(v) /\ v[p + k + 1] = c THEN k + 1 ELSE k
ReadR(st, d, n, c) ==
  LET s == st.t[d]
      k == ReadLen(s.v, s.pos, n, c)
  IN R(SetS(st, d, Mk(s.v, s.pos + k)), Range0(s.v, s.pos, k))

SeekTo(st, d, n, w, cap) ==
  LET p == CASE w = 0 -> n [] w = 1 -> st.t[d].pos + n [] w = 2 -> cap - n [] OTHER -> st.t[d].pos
  IN Max2(0, Min2(p, cap))
SetPos(st, d, p) == R(SetS(st, d, Mk(st.t[d].v, p)), p)

Big == 1000000000
Mutate(s, b, m) == IF m = 0 THEN s \o b ELSE IF s = << >> THEN s ELSE IF m = 1 THEN SetAt(s, 0, b[1]) ELSE Tail(s)

FileOK(st, f) == f \in 0 .. 2 /\ st.fs[f + 1].e = 1

(* cap: capacity of stream e.d before the call (from the record) *)
Exp(e, st, cap) ==
  CASE e.op \in {"new", "newsize"} -> R(SetS(st, e.d, Mk(<< >>, 0)), 0)
    [] e.op = "newcopy" -> R(SetS(st, e.d, st.t[e.s]), 0)
    [] e.op = "newmove" -> [R(SetS(st, e.d, st.t[e.s]), 0) EXCEPT !.ms = {e.s}]
    [] e.op = "newstr" -> R(SetS(st, e.d, Mk(st.sv[e.x], 0)), 0)
    [] e.op = "newstrmv" -> [R(SetS(st, e.d, Mk(st.sv[e.x], 0)), 0) EXCEPT !.mx = {e.x}]
    [] e.op = "newlit" -> R(SetS(st, e.d, Mk(e.v, 0)), 0)
    [] e.op = "del" -> R(SetS(st, e.d, S0), 0)
    [] e.op = "asg" -> R(SetS(st, e.d, st.t[e.s]), 0)
    [] e.op = "swap" -> R([st EXCEPT !.t[e.d] = st.t[e.s], !.t[e.s] = st.t[e.d]], 0)
    [] e.op = "puts" -> Puts(e, st, e.d, e.v)
    [] e.op = "putvar" -> [Puts(e, st, e.d, st.sv[e.x]) EXCEPT !.mx = IF e.m \in {1, 3} THEN {e.x} ELSE {}]
    [] e.op = "putst" -> Puts(e, st, e.d, st.t[e.s].v)
    [] e.op = "putpat" -> R(SetS(st, e.d, Mk(e.pv, VLen(e.pv))), 0)
    [] e.op = "read" -> ReadR(st, e.d, e.n, e.c)
    [] e.op = "getline" -> ReadR(st, e.d, e.n, 10)
    [] e.op = "readvar" -> LET r == ReadR(st, e.d, e.n, 0) IN [r EXCEPT !.st.sv[e.x] = r.ret, !.ret = 0]
    [] e.op = "peek" -> R(st, Drop(st.t[e.d].v, st.t[e.d].pos))
    [] e.op = "seek" -> SetPos(st, e.d, SeekTo(st, e.d, e.n, e.w, cap))
    [] e.op = "tell" -> R(st, st.t[e.d].pos)
    [] e.op = "trunc" -> R(SetS(st, e.d, Mk(Take(st.t[e.d].v, st.t[e.d].pos), st.t[e.d].pos)), 0)
    [] e.op = "clear" -> R(SetS(st, e.d, Mk(<< >>, 0)), 0)
    [] e.op = "reserve" -> R(st, 0)
    [] e.op = "len" -> R(st, VLen(st.t[e.d].v))
    [] e.op = "not" -> R(st, IF st.t[e.d].v = << >> THEN 1 ELSE 0)
    [] e.op = "conv" -> R([st EXCEPT !.sv[e.x] = st.t[e.d].v], 0)
    [] e.op = "sset" -> R([st EXCEPT !.sv[e.x] = e.v], 0)
    [] e.op = "smut" -> R([st EXCEPT !.sv[e.x] = Mutate(@, e.v, e.m)], 0)
    [] e.op = "fset" -> R([st EXCEPT !.fs[e.f + 1] = [e |-> 1, v |-> e.pv, mode |-> 416]], 0)
    [] e.op = "frm" -> R([st EXCEPT !.fs[e.f + 1] = [e |-> 0, v |-> << >>, mode |-> 0]], 0)
    [] e.op \in {"wfile", "wfd"} ->
         IF e.f \in 0 .. 2 THEN
           R([st EXCEPT !.fs[e.f + 1] = [e |-> 1, v |-> st.t[e.d].v,
                  mode |-> IF st.fs[e.f + 1].e = 1 THEN st.fs[e.f + 1].mode ELSE IF e.op = "wfd" THEN 416 ELSE e.mode]], 0)
         ELSE R(st, 1)
    [] e.op = "lsub" -> R(st, << 1, 0 >>)   \* a derived stream: its loading flag is up while it is being filled, and down again after the call
    [] e.op \in {"lfile", "lfd"} ->
         IF e.f = 8 THEN R(SetS(st, e.d, Mk(<< >>, 0)), 0)   \* a directory: empty, or (see Failed) an error
         ELSE IF FileOK(st, e.f) THEN R(SetS(st, e.d, Mk(st.fs[e.f + 1].v, 0)), 0) ELSE R(st, 1)

Live(st, k) == k \in 1 .. 3 /\ st.t[k].l = 1
Pre(e, st) ==
  CASE e.op \in {"sset", "smut", "fset", "frm", "lsub"} -> TRUE
    [] e.op \in {"new", "newsize", "newstr", "newstrmv", "newlit"} -> ~Live(st, e.d)
    [] e.op \in {"newcopy", "newmove"} -> ~Live(st, e.d) /\ Live(st, e.s)
    [] e.op \in {"asg", "swap", "putst"} -> Live(st, e.d) /\ Live(st, e.s)
    [] OTHER -> Live(st, e.d)
FileOps == {"wfile", "wfd", "lfile", "lfd"}
=============================================================================
