------------------------------ MODULE RcaImpl ------------------------------
(***************************************************************************)
(* How ReferenceCountedArray implements SeqSpec: handles onto reference    *)
(* counted storage blocks, copy on write, slices as (offset, length) into  *)
(* a block, cached hashes.                                                 *)
(*                                                                         *)
(* Checked exhaustively for a few handles and short contents:              *)
(*   Refines   every call changes the objects' contents exactly as SeqSpec *)
(*             says (so sharing is never visible)                          *)
(*   Counted   the count of a block is the number of handles on it, blocks *)
(*             without handles are gone, contents lie inside their block   *)
(*   Fresh     a cached hash is the hash of the present contents           *)
(*   Sharing   copies share, modifying calls end up on storage of their own*)
(* A reachable state here is an arrangement of storage.  Every transition  *)
(* (arrangement x call) is printed with a shortest history leading to it   *)
(* (Emit) and replayed into the real classes.                              *)
(*                                                                         *)
(* Broken designs (constant Bug) show that the invariants bite.            *)
(***************************************************************************)
EXTENDS SeqSpec
CONSTANTS NH, Lits, MaxLen, MaxDepth, Bug, Emit, Ops
VARIABLES H, B, hist
vars == << H, B, hist >>

HS == 1 .. NH
NoHash == [c |-> 0, v |-> << >>]
Dead == [l |-> 0, b |-> 0, off |-> 0, len |-> 0, h |-> NoHash]
Null == [Dead EXCEPT !.l = 1]
Junk == 0
Live(S, k) == S.H[k].l = 1
Cells(S, k) == IF S.H[k].b = 0 THEN << >> ELSE S.B[S.H[k].b].c
Val(S, k) == IF S.H[k].l = 0 THEN << >> ELSE Range0(Cells(S, k), S.H[k].off, S.H[k].len)
Abs(S) == [k \in HS |-> [l |-> S.H[k].l, v |-> Val(S, k)]]
Cur == [H |-> H, B |-> B]

(* ---- blocks --------------------------------------------------------------- *)
NewId(S) == MinOf((1 .. NH + 2) \ DOMAIN S.B)
Size(S, k) == IF S.H[k].b = 0 THEN 0 ELSE Len(Cells(S, k))
Shared(S, k) == S.H[k].b # 0 /\ S.B[S.H[k].b].refs > 1
Put(S, k, r) == [S EXCEPT !.H[k] = r]
AddRef(S, b) == IF b = 0 THEN S ELSE [S EXCEPT !.B[b].refs = @ + 1]
DropRef(S, b) == IF b = 0 THEN S
                 ELSE IF S.B[b].refs = 1 THEN [S EXCEPT !.B = [x \in DOMAIN S.B \ {b} |-> S.B[x]]]
                 ELSE [S EXCEPT !.B[b].refs = @ - 1]
NewBlk(S, cells) == [S EXCEPT !.B = (NewId(S) :> [refs |-> 1, c |-> cells]) @@ @]
PadTo(c, n) == c \o Fill(IF n > Len(c) THEN n - Len(c) ELSE 0, Junk)
SetHash0(S, k) == [S EXCEPT !.H[k].h = NoHash]

(* a private copy of the first min(len, n) elements with room for n *)
Cow(S, k, n) ==
  LET id == NewId(S)
      v == Take(Val(S, k), n)
      s1 == NewBlk(S, PadTo(v, n))
      s2 == Put(s1, k, [l |-> 1, b |-> id, off |-> 0, len |-> Len(v), h |-> NoHash])
  IN DropRef(s2, S.H[k].b)
(* room for n elements in storage of our own *)
Grow(S, k, n, scaled) ==
  LET o == S.H[k] sz == Size(S, k) v == Val(S, k)
      want == IF scaled THEN Max2((sz * 3) \div 2, n) ELSE n
  IN IF o.b = 0 THEN [NewBlk(S, PadTo(<< >>, n)) EXCEPT !.H[k].b = NewId(S)]
     ELSE IF sz < n THEN [S EXCEPT !.B[o.b].c = PadTo(v, want), !.H[k].off = 0]
     ELSE IF sz - o.off < n THEN [S EXCEPT !.B[o.b].c = OverwriteAt(@, 0, v), !.H[k].off = 0]
     ELSE S
Own(S, k, n) == LET s == IF Bug = "stale-hash" THEN S ELSE SetHash0(S, k) IN
                IF Shared(s, k) /\ Bug # "no-cow" THEN Cow(s, k, n) ELSE Grow(s, k, n, TRUE)
Reserve(S, k, n) == IF Shared(S, k) /\ Bug # "reserve-shared" THEN Cow(S, k, Max2(n, S.H[k].len)) ELSE Grow(S, k, n, FALSE)
(* write cells relative to the handle's start, set the length *)
Poke(S, k, p, t) == [S EXCEPT !.B[S.H[k].b].c = OverwriteAt(@, S.H[k].off + p, t)]
SetLen(S, k, n) == [S EXCEPT !.H[k].len = n]
Cut(S, k, n) == SetHash0(SetLen(S, k, n), k)

(* ---- calls ------------------------------------------------------------------ *)
Assign(S, d, s) == Put(DropRef(AddRef(S, S.H[s].b), S.H[d].b), d, S.H[s])
MoveTo(S, d, s) == IF d = s THEN S ELSE
                   LET s1 == Put(DropRef(S, S.H[d].b), d, S.H[s])
                   IN IF Bug = "move-length" THEN [s1 EXCEPT !.H[s].b = 0] ELSE Put(s1, s, Null)
Slice(S, d, start, len) ==
  LET o == S.H[d] L == o.len IN
  IF start >= L THEN Put(S, d, [o EXCEPT !.off = L, !.len = 0, !.h = NoHash])
  ELSE LET st == IF start < 0 THEN Max2(0, L + start) ELSE start
           rem == L - st
           n == IF len = -1 \/ len >= rem THEN rem ELSE IF len < 0 THEN Max2(rem + len, 0) ELSE len
       IN Put(S, d, [o EXCEPT !.off = @ + st, !.len = n, !.h = NoHash])
InsertSeq(S, d, p, t) ==
  LET v == Val(S, d) s == Own(S, d, Len(v) + Len(t)) IN SetLen(Poke(s, d, 0, InsertAt(v, p, t)), d, Len(v) + Len(t))
ReplSeq(S, d, p, t) ==
  LET n == Max2(p + Len(t), S.H[d].len) s == Own(S, d, n) IN SetLen(Poke(s, d, p, t), d, n)

Do(S, e) ==
  LET d == e.d s == e.s v == Val(S, e.d) IN
  CASE e.op = "new" -> Put(S, d, Null)
    [] e.op = "newlit" -> Put(NewBlk(S, e.v), d, [l |-> 1, b |-> NewId(S), off |-> 0, len |-> Len(e.v), h |-> NoHash])
    [] e.op = "newcap" -> Put(NewBlk(S, PadTo(<< >>, e.n)), d, [Null EXCEPT !.b = NewId(S)])
    [] e.op = "newcopy" -> Put(AddRef(S, S.H[s].b), d, S.H[s])
    [] e.op = "newmove" -> Put(Put(S, d, S.H[s]), s, Null)
    [] e.op = "newsub" -> Slice(Put(AddRef(S, S.H[s].b), d, S.H[s]), d, e.i, e.j)
    [] e.op = "del" -> Put(DropRef(S, S.H[d].b), d, Dead)
    [] e.op = "asg" -> Assign(S, d, s)
    [] e.op = "asgmove" -> MoveTo(S, d, s)
    [] e.op = "swap" -> Put(Put(S, d, S.H[s]), s, S.H[d])
    [] e.op = "clear" -> IF Shared(S, d) THEN Put(DropRef(S, S.H[d].b), d, Null) ELSE Put(S, d, [S.H[d] EXCEPT !.off = 0, !.len = 0, !.h = NoHash])
    [] e.op = "reserve" -> Reserve(S, d, e.n)
    [] e.op = "resizef" -> IF e.n < Len(v) THEN Cut(S, d, e.n)
                           ELSE LET w == Own(S, d, e.n) IN SetLen(IF e.n = Len(v) THEN w ELSE Poke(w, d, Len(v), Fill(e.n - Len(v), e.x)), d, e.n)
    [] e.op = "app" -> InsertSeq(S, d, Len(v), << e.x >>)
    [] e.op = "ins" -> IF PosOK(v, e.i) THEN InsertSeq(S, d, e.i, << e.x >>) ELSE S
    [] e.op = "repl" -> IF PosOK(v, e.i) THEN ReplSeq(S, d, e.i, << e.x >>) ELSE S
    [] e.op = "insseq" -> IF ~PosOK(v, e.i) THEN S ELSE IF v = << >> /\ Val(S, s) # << >> /\ d # s THEN Assign(S, d, s) ELSE InsertSeq(S, d, e.i, Val(S, s))
    [] e.op = "insseqmv" -> IF ~PosOK(v, e.i) THEN S ELSE IF v = << >> /\ Val(S, s) # << >> THEN MoveTo(S, d, s) ELSE InsertSeq(S, d, e.i, Val(S, s))
    [] e.op = "replseq" -> IF ~PosOK(v, e.i) THEN S ELSE IF e.i = 0 /\ S.H[s].len > Len(v) /\ d # s THEN Assign(S, d, s) ELSE ReplSeq(S, d, e.i, Val(S, s))
    [] e.op = "replseqmv" -> IF ~PosOK(v, e.i) THEN S ELSE IF e.i = 0 /\ S.H[s].len > Len(v) THEN MoveTo(S, d, s) ELSE ReplSeq(S, d, e.i, Val(S, s))
    [] e.op = "set" -> Poke(Own(S, d, Len(v)), d, e.i, << e.x >>)
    [] e.op = "popb" -> IF Bug = "stale-hash" THEN SetLen(S, d, Len(v) - 1) ELSE Cut(S, d, Len(v) - 1)
    [] e.op = "slice" -> Slice(S, d, e.i, e.j)
    [] e.op = "dropf" -> Slice(S, d, e.n, -1)
    [] e.op = "hashf" -> LET H1(w, k) == IF Live(w, k) /\ w.H[k].h.c = 0 THEN [w EXCEPT !.H[k].h = [c |-> 1, v |-> Val(w, k)]] ELSE w
                         IN H1(H1(S, d), s)

(* ---- which calls ------------------------------------------------------------- *)
E(op) == [op |-> op, d |-> 1, s |-> 1, i |-> 0, j |-> -1, n |-> -1, x |-> 0, v |-> << >>, w |-> << >>, m |-> ".", kv |-> << >>, ret |-> 0]
Fresh1 == 7      \* an element no literal contains
Binary == {"newcopy", "newmove", "asg", "asgmove", "swap", "insseq", "insseqmv", "replseq", "replseqmv", "newsub", "hashf"}
Calls(S) ==
  UNION {
   LET D == IF op \in NewOps THEN {k \in HS : ~Live(S, k) /\ \A j \in 1 .. k - 1 : Live(S, j)} ELSE {k \in HS : Live(S, k)} IN
   UNION {LET L == S.H[d].len base == [E(op) EXCEPT !.d = d] IN
     CASE op \in {"new", "del", "clear", "popb"} -> {base}
       [] op = "newlit" -> {[base EXCEPT !.v = t] : t \in Lits}
       [] op = "newcap" -> {[base EXCEPT !.n = 3]}
       [] op \in {"newcopy", "newmove", "asg", "asgmove"} -> {[base EXCEPT !.s = s] : s \in {k \in HS : Live(S, k)}}
       [] op \in {"swap", "hashf"} -> {[base EXCEPT !.s = s] : s \in {k \in HS : Live(S, k) /\ k >= d}}
       [] op = "newsub" -> {[base EXCEPT !.s = s, !.i = ij[1], !.j = ij[2]] : s \in {k \in HS : Live(S, k)}, ij \in {<< 1, -1 >>, << 0, 1 >>, << 1, 1 >>, << 9, -1 >>}}
       [] op = "reserve" -> {[base EXCEPT !.n = n] : n \in {1, L + 1}}
       [] op = "resizef" -> {[base EXCEPT !.n = n, !.x = Fresh1] : n \in {0, L, L + 1}}
       [] op = "app" -> {[base EXCEPT !.x = Fresh1]}
       [] op \in {"ins", "repl"} -> {[base EXCEPT !.i = i, !.x = Fresh1] : i \in {0, 1, L}}
       [] op \in {"insseq", "replseq"} -> {[base EXCEPT !.s = s, !.i = i] : s \in {k \in HS : Live(S, k)}, i \in {0, L}}
       [] op \in {"insseqmv", "replseqmv"} -> {[base EXCEPT !.s = s, !.i = i] : s \in {k \in HS : Live(S, k) /\ k # d}, i \in {0, L}}
       [] op = "set" -> {[base EXCEPT !.i = i, !.x = Fresh1] : i \in {0, L - 1}}
       [] op = "slice" -> {[base EXCEPT !.i = ij[1], !.j = ij[2]] : ij \in {<< 1, -1 >>, << 0, 1 >>, << -1, -1 >>, << 9, -1 >>}}
       [] op = "dropf" -> {[base EXCEPT !.n = 1]}
     : d \in D}
   : op \in Ops}
Possible(S) == {e \in Calls(S) : Pre(e, Abs(S))}

Short(S) == \A k \in HS : S.H[k].len <= MaxLen
Brief(e) == << e.op, e.d, e.s, e.i, e.j, e.n, e.x, e.v >>
Init == H = [k \in HS |-> Dead] /\ B = E0 /\ hist = << >>
Call(e) == LET S == Do(Cur, e) IN
           /\ Short(S)
           /\ H' = S.H /\ B' = S.B
           /\ hist' = Append(hist, e)
           /\ Emit => PrintT("BEH" \o ToString([k \in 1 .. Len(hist') |-> Brief(hist'[k])]))
Next == Len(hist) < MaxDepth /\ \E e \in Possible(Cur) : Call(e)
Spec == Init /\ [][Next]_vars

(* ---- what is checked ----------------------------------------------------------- *)
Refines == [][LET e == hist'[Len(hist')] S1 == [H |-> H', B |-> B'] r == Exp(e, Abs(Cur))
              IN \E emp \in SUBSET r.may : Abs(S1) = After(Abs(Cur), r, emp)]_vars
Counted == /\ \A k \in HS : H[k].b # 0 => /\ H[k].b \in DOMAIN B
                                          /\ H[k].off + H[k].len <= Len(B[H[k].b].c)
           /\ \A k \in HS : H[k].b = 0 => H[k].len = 0
           /\ \A b \in DOMAIN B : B[b].refs = Cardinality({k \in HS : H[k].b = b}) /\ B[b].refs > 0
HashFresh == \A k \in HS : H[k].h.c = 1 => H[k].h.v = Val(Cur, k)
ShareStep == [][LET e == hist'[Len(hist')] IN
                 /\ e.op \in {"newcopy", "newsub", "asg"} => H'[e.d].b = H'[e.s].b
                 /\ (e.op \in {"set", "app", "repl", "ins"} /\ H' # H) => B'[H'[e.d].b].refs = 1]_vars

(* ---- arrangements: block numbers and unused cells do not matter ------------------ *)
Used(b) == UNION {{H[k].off + p : p \in 1 .. H[k].len} : k \in {k \in HS : H[k].b = b}}
Blind(b) == [p \in 1 .. Len(B[b].c) |-> IF p \in Used(b) THEN B[b].c[p] ELSE Junk]
First(k) == IF H[k].b = 0 THEN 0 ELSE MinOf({j \in HS : H[j].b = H[k].b})
Arrangement == [k \in HS |-> << H[k].l, First(k), H[k].off, H[k].len, H[k].h.c, IF First(k) = k THEN Blind(H[k].b) ELSE << >> >>]
Shape == [k \in HS |-> << H[k].l, First(k), H[k].off, H[k].len, H[k].h.c, IF H[k].b = 0 THEN 0 ELSE Len(B[H[k].b].c) >>]
=============================================================================
