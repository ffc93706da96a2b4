------------------------------- MODULE SeqOps -------------------------------
(***************************************************************************)
(* The meaning of bdlib's sequence values (String = sequence of bytes,     *)
(* Array<T> = sequence of T).  Pure operators, no state.  Positions are    *)
(* 0-based as in the API; -1 stands for npos.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Sign(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0

Take(s, n) == SubSeq(s, 1, Min2(n, Len(s)))
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Range0(s, p, n) == SubSeq(s, p + 1, p + n)
Fill(n, x) == [k \in 1 .. n |-> x]
LastN(s) == s[Len(s)]
ReverseSeq(s) == [k \in 1 .. Len(s) |-> s[Len(s) + 1 - k]]

(* A position is accepted by insert/replace/find iff it is 0 or the        *)
(* element before it exists.                                               *)
PosOK(s, p) == p = 0 \/ (p >= 1 /\ p <= Len(s))
IndexOK(s, p) == p >= 0 /\ p < Len(s)

(* How many elements of t are used when asked for n (-1 = all).            *)
UseN(t, n) == IF n = -1 \/ n > Len(t) THEN t ELSE Take(t, n)

InsertAt(s, p, t) == Take(s, p) \o t \o Drop(s, p)

OverwriteAt(s, p, t) ==
  [k \in 1 .. Max2(Len(s), p + Len(t)) |->
     IF k > p /\ k <= p + Len(t) THEN t[k - p] ELSE s[k]]

SetAt(s, p, x) == [s EXCEPT ![p + 1] = x]

ResizeTo(s, n, x) == IF n <= Len(s) THEN Take(s, n) ELSE s \o Fill(n - Len(s), x)

(* substring/subarray(start, len) *)
SliceOf(s, start, len) ==
  LET L == Len(s) IN
  IF start >= L THEN << >>
  ELSE LET st  == IF start < 0 THEN Max2(0, L + start) ELSE start
           rem == L - st
           n   == IF len = -1 \/ len >= rem THEN rem
                  ELSE IF len < 0 THEN Max2(0, rem + len) ELSE len
       IN Range0(s, st, n)

(* dropping n elements at either end; n beyond the end empties *)
DropFront(s, n) == IF n >= Len(s) THEN << >> ELSE Drop(s, n)
DropBack(s, n)  == IF n >= Len(s) THEN << >> ELSE Take(s, Len(s) - n)

(* ---------------------------- searching -------------------------------- *)
FindItem(s, x, p) ==
  LET I == {k \in p .. Len(s) - 1 : s[k + 1] = x}
  IN IF I = {} THEN -1 ELSE MinOf(I) - p
RFindItem(s, x) ==
  LET I == {k \in 0 .. Len(s) - 1 : s[k + 1] = x}
  IN IF I = {} THEN -1 ELSE MaxOf(I)

MatchAt(s, t, k) == \A m \in 1 .. Len(t) : s[k + m] = t[m]
Occ(s, t, from) == {k \in from .. Len(s) - Len(t) : MatchAt(s, t, k)}

FindSub(s, t, p) ==
  IF t = << >> THEN 0
  ELSE LET I == Occ(s, t, p) IN IF I = {} THEN -1 ELSE MinOf(I) - p

(* last occurrence at a position >= lp *)
RFindSub(s, t, lp) ==
  IF t = << >> THEN Len(s) - 1
  ELSE LET I == Occ(s, t, lp) IN IF I = {} THEN -1 ELSE MaxOf(I)

(* ---------------------------- ordering --------------------------------- *)
LexCmp(s, t) ==
  LET D == {k \in 1 .. Min2(Len(s), Len(t)) : s[k] # t[k]}
  IN IF D = {} THEN Sign(Len(s) - Len(t))
     ELSE LET k == MinOf(D) IN Sign(s[k] - t[k])
LexCmpN(s, t, n) == IF n = -1 THEN LexCmp(s, t) ELSE LexCmp(Take(s, n), Take(t, n))
=============================================================================
