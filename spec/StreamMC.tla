------------------------------ MODULE StreamMC ------------------------------
(***************************************************************************)
(* All histories of two short streams and a file: laws of the positioned   *)
(* byte buffer, and the source of behaviours replayed into bd::Stream.     *)
(***************************************************************************)
EXTENDS StreamSpec, Json
CONSTANTS NS, MaxLen, MaxDepth, Vars, Files, Emit, Bug
VARIABLES st, hist, last
vars == << st, hist, last >>
SS == 1 .. NS
XS == IF Vars THEN {1} ELSE {}              \* the program's own string variable
Texts == {<< >>, << 97 >>, << 98, 10 >>}
Cap == 4                                   \* at most this much is ever needed: MaxLen <= Cap
Ev(op, d) == [op |-> op, d |-> d, err |-> "", f |-> 0, mode |-> 384]
Calls == UNION {
   {Ev(op, d) : op \in {"new", "del", "peek", "tell", "trunc", "clear", "len", "not"} \cup (IF Files THEN {"wfile", "lfile"} ELSE {})}
   \cup {Ev(op, d) @@ [s |-> s] : op \in {"newcopy", "newmove", "asg", "swap", "putst"}, s \in SS}
   \cup {Ev(op, d) @@ [x |-> x] : x \in XS, op \in {"newstr", "newstrmv", "conv"}}
   \cup {Ev("puts", d) @@ [v |-> v, m |-> 0] : v \in Texts}
   \cup {Ev("putvar", d) @@ [x |-> x, m |-> m] : x \in XS, m \in {0, 1}}
   \cup {Ev("read", d) @@ [n |-> n, c |-> c] : n \in {0, 1, 2, 9}, c \in {0, 10}}
   \cup {Ev("getline", d) @@ [n |-> n] : n \in {1, 9}}
   \cup {Ev("seek", d) @@ [n |-> n, w |-> w] : n \in {-1, 0, 1, 2}, w \in {0, 1}}
   : d \in SS}
  \cup {Ev("sset", 1) @@ [x |-> x, v |-> v] : x \in XS, v \in {<< 98, 10 >>}}
  \cup {Ev("smut", 1) @@ [x |-> x, v |-> << 99 >>, m |-> m] : x \in XS, m \in {1, 2}}
  \cup (IF Files THEN {Ev("frm", 1)} ELSE {})
Settle(r) == [r.st EXCEPT !.t = [k \in 1 .. 3 |-> IF k \in r.ms THEN [l |-> 1, v |-> << >>, pos |-> r.st.t[k].pos] ELSE r.st.t[k]],
                          !.sv = [k \in 1 .. 2 |-> IF k \in r.mx THEN << >> ELSE r.st.sv[k]]]
Broken(e, r) == IF Bug = "insert" /\ e.op = "puts" /\ r.err = "" THEN [r EXCEPT !.st.t[e.d].v = InsertAt(st.t[e.d].v, st.t[e.d].pos, e.v)]
                ELSE IF Bug = "shared" /\ e.op = "clear" THEN [r EXCEPT !.st.t = [k \in 1 .. 3 |-> IF r.st.t[k].l = 1 THEN r.st.t[e.d] ELSE r.st.t[k]]]
                ELSE IF Bug = "append-file" /\ e.op = "wfile" THEN [r EXCEPT !.st.fs[1].v = st.fs[1].v \o @]
                ELSE r
Init == /\ st = [t |-> [k \in 1 .. 3 |-> S0], sv |-> << << >>, << >> >>, fs |-> [k \in 1 .. 3 |-> [e |-> 0, v |-> << >>, mode |-> 0]]]
        /\ hist = << >> /\ last = [e |-> Ev("none", 1), ret |-> 0, err |-> ""]
Short(s) == /\ Len(s.sv[1]) <= MaxLen
            /\ \A k \in SS : Len(s.t[k].v) <= MaxLen
            /\ \A k \in 1 .. 3 : Len(s.fs[k].v) <= MaxLen
Next == /\ Len(hist) < MaxDepth
        /\ \E e \in Calls :
             /\ Pre(e, st)
             /\ LET r == Broken(e, Exp(e, st, Cap)) IN st' = Settle(r) /\ last' = [e |-> e, ret |-> r.ret, err |-> r.err]
             /\ Short(st')
             /\ hist' = Append(hist, e)
             /\ Emit => PrintT("BEH" \o ToJson(hist'))
Spec == Init /\ [][Next]_vars

(* ---- laws ------------------------------------------------------------------ *)
Touched(e) == IF e.op \in {"sset", "smut", "frm", "wfile"} THEN {} ELSE {e.d} \cup (IF e.op \in {"newmove", "swap"} THEN {e.s} ELSE {})
At(s, k, p) == s.t[k].v[p]
Laws == [][LET e == last'.e r == last'.ret d == e.d s == st.t[d] s1 == st'.t[d] IN
   /\ \A k \in 1 .. 3 \ Touched(e) : st'.t[k] = st.t[k]
   /\ e.op \in {"peek", "tell", "len", "not"} => st' = st
   /\ e.op = "puts" /\ last'.err = "" =>
        /\ s1.pos = s.pos + Len(e.v)
        /\ Range0(s1.v, s.pos, Len(e.v)) = e.v                                \* what was written is there
        /\ \A p \in 1 .. Len(s.v) : (p <= s.pos \/ p > s1.pos) => s1.v[p] = s.v[p]   \* nothing else changed
        /\ Len(s1.v) = Max2(Len(s.v), s1.pos) \/ e.v = << >>
   /\ last'.err # "" => st'.t = st.t /\ st'.fs = st.fs /\ s.pos > Len(s.v)
   /\ e.op \in {"read", "getline"} =>
        /\ s1.v = s.v /\ s1.pos = s.pos + Len(r)
        /\ Range0(s.v, s.pos, Len(r)) = r
        /\ (e.op = "read" /\ e.c = 0) => Len(r) = Avail(s.v, s.pos, e.n)
        /\ (e.op = "getline") => \A p \in 1 .. Len(r) - 1 : r[p] # 10
   /\ e.op = "peek" => r = Drop(s.v, s.pos)
   /\ e.op = "seek" => s1.v = s.v /\ s1.pos >= 0 /\ r = s1.pos
   /\ e.op = "wfile" => st'.fs[1].v = s.v /\ st'.fs[1].e = 1
   /\ (e.op = "lfile" /\ st.fs[1].e = 1) => s1.v = st.fs[1].v /\ s1.pos = 0 /\ st'.fs = st.fs]_vars
View == st
=============================================================================
