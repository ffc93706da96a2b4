------------------------------- MODULE StrOps -------------------------------
(***************************************************************************)
(* Byte-string operations of bdlib: case folding, splitting, joining,      *)
(* substitution, trimming, base64, bounded C-string copies.                *)
(***************************************************************************)
EXTENDS SeqOps

SP == 32
NL == 10
CR == 13
QUOTE == 34

UpperB(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
Upper(s) == [k \in 1 .. Len(s) |-> UpperB(s[k])]
IsSpace(c) == c = 32 \/ (c >= 9 /\ c <= 13)

IFind(s, t) == FindSub(Upper(s), Upper(t), 0)
RIFind(s, t, lp) == RFindSub(Upper(s), Upper(t), lp)

(* the bytes of a C string: everything before the first NUL *)
CStrOf(s) ==
  LET Z == {k \in 1 .. Len(s) : s[k] = 0}
  IN IF Z = {} THEN s ELSE Take(s, MinOf(Z) - 1)

RECURSIVE SkipFrom(_, _, _)
SkipFrom(s, it, c) == IF it < Len(s) /\ s[it + 1] = c THEN SkipFrom(s, it + 1, c) ELSE it

(* split(delim, limit): limit -1 = none.  A single-space delimiter skips   *)
(* runs of spaces before each piece.                                       *)
RECURSIVE SplitGo(_, _, _, _, _)
SplitGo(s, d, limit, it0, acc) ==
  LET skip(k) == IF d = <<SP>> THEN SkipFrom(s, k, SP) ELSE k
      rest(k) == IF limit = -1 THEN acc
                 ELSE Append(acc, IF skip(k) >= Len(s) THEN << >> ELSE Drop(s, skip(k)))
  IN IF limit # -1 /\ Len(acc) >= limit - 1 THEN rest(it0)
     ELSE LET it == skip(it0)
          IN IF it >= Len(s) THEN rest(it)
             ELSE LET f == FindSub(s, d, it)
                      n == IF f = -1 THEN Len(s) - it ELSE f
                  IN SplitGo(s, d, limit, it + n + Len(d), Append(acc, Range0(s, it, n)))

Split(s, d, limit) ==
  IF s = << >> THEN << >>
  ELSE IF limit = 1 \/ d = << >> THEN << s >>
  ELSE SplitGo(s, d, limit, 0, << >>)

Quoted(s, q) == IF q THEN <<QUOTE>> \o s \o <<QUOTE>> ELSE s
RECURSIVE Join(_, _, _)
Join(a, d, q) ==
  IF a = << >> THEN << >>
  ELSE IF Len(a) = 1 THEN Quoted(a[1], q)
  ELSE Quoted(a[1], q) \o d \o Join(Tail(a), d, q)

(* newsplit: the token and the remaining string *)
NewSplit(s, c) ==
  IF s = << >> THEN [tok |-> << >>, rest |-> << >>]
  ELSE LET f == FindItem(s, c, 0)
           n == IF f = -1 THEN Len(s) ELSE f
           m == IF c = SP /\ n < Len(s)
                THEN LET e == SkipFrom(s, n + 1, SP) IN e
                ELSE n + 1
       IN [tok |-> Take(s, n), rest |-> IF m >= Len(s) THEN << >> ELSE Drop(s, m)]

(* sub(search, replacement, limit): limit -1 = all; left to right, without *)
(* rescanning replacements                                                 *)
RECURSIVE SubGo(_, _, _, _, _)
SubGo(s, a, b, limit, cnt) ==
  LET f == FindSub(s, a, 0) IN
  IF f = -1 \/ (limit # -1 /\ cnt = limit) THEN s
  ELSE Take(s, f) \o b \o SubGo(Drop(s, f + Len(a)), a, b, limit, cnt + 1)
SubstAll(s, a, b, limit) == IF a = << >> THEN s ELSE SubGo(s, a, b, limit, 0)

(* subst over a set of (key, value) pairs applied one after the other in   *)
(* an unspecified order: the set of permitted results                      *)
RECURSIVE SubstSet(_, _)
SubstSet(s, KV) ==
  IF KV = {} THEN {s}
  ELSE UNION {SubstSet(SubstAll(s, kv[1], kv[2], -1), KV \ {kv}) : kv \in KV}

LTrimN(s) == LET I == {k \in 1 .. Len(s) : ~IsSpace(s[k])}
             IN IF I = {} THEN Len(s) ELSE MinOf(I) - 1
Trim(s) == LET I == {k \in 1 .. Len(s) : ~IsSpace(s[k])}
           IN IF I = {} THEN << >> ELSE SubSeq(s, MinOf(I), MaxOf(I))
Chomp(s) ==
  LET a == IF s # << >> /\ LastN(s) = NL THEN Take(s, Len(s) - 1) ELSE s
  IN IF a # << >> /\ LastN(a) = CR THEN Take(a, Len(a) - 1) ELSE a

RECURSIVE Repeat(_, _)
Repeat(s, n) == IF n <= 0 THEN << >> ELSE s \o Repeat(s, n - 1)

(* ------------------------- text stream input --------------------------- *)
(* operator>> on input text: word and what is left *)
ReadWord(t) ==
  LET b == LTrimN(t)
      r == Drop(t, b)
      E == {k \in 1 .. Len(r) : IsSpace(r[k])}
      n == IF E = {} THEN Len(r) ELSE MinOf(E) - 1
  IN [tok |-> Take(r, n), rest |-> Drop(r, n)]
(* getline on input text: line, what is left *)
ReadLine(t) ==
  LET f == FindItem(t, NL, 0)
  IN IF f = -1 THEN [tok |-> t, rest |-> << >>]
     ELSE [tok |-> Take(t, f), rest |-> Drop(t, f + 1)]

(* ------------------------------ printf --------------------------------- *)
RECURSIVE Digits(_, _)
Digits(n, b) == LET d == n % b
                    c == IF d < 10 THEN 48 + d ELSE 87 + d
                IN IF n < b THEN <<c>> ELSE Append(Digits(n \div b, b), c)
Dec(n) == IF n < 0 THEN <<45>> \o Digits(-n, 10) ELSE Digits(n, 10)
PadL(s, n) == Fill(Max2(0, n - Len(s)), SP) \o s
PadR(s, n) == s \o Fill(Max2(0, n - Len(s)), SP)
(* the formats exercised, on the C string z with integers k and n *)
FmtText(m, z, k, n) ==
  CASE m = "sd"   -> z \o Dec(k)
    [] m = "ds"   -> Dec(k) \o <<124>> \o z \o <<124>> \o Dec(k)
    [] m = "pad"  -> PadL(z, n)
    [] m = "lpad" -> <<91>> \o PadR(z, n) \o <<93>>
    [] m = "prec" -> Take(z, n)
    [] m = "c"    -> <<k>> \o z \o <<k>>
    [] m = "x"    -> Digits(k, 16) \o <<46>> \o z
    [] m = "pct"  -> <<37>> \o z \o <<37>>
    [] m = "none" -> <<112, 108, 97, 105, 110, 32, 116, 101, 120, 116>>

(* ------------------------------ base64 --------------------------------- *)
Pad == 61
(* the 64 symbols of the standard alphabet *)
StdAlphabet == [k \in 1 .. 64 |->
  IF k <= 26 THEN 64 + k ELSE IF k <= 52 THEN 97 + (k - 27)
  ELSE IF k <= 62 THEN 48 + (k - 53) ELSE IF k = 63 THEN 43 ELSE 47]

B64Group(g, al) ==   \* g: 1..3 bytes
  LET b1 == g[1]
      b2 == IF Len(g) > 1 THEN g[2] ELSE 0
      b3 == IF Len(g) > 2 THEN g[3] ELSE 0
  IN << al[(b1 \div 4) + 1],
        al[((b1 % 4) * 16 + (b2 \div 16)) + 1],
        IF Len(g) > 1 THEN al[((b2 % 16) * 4 + (b3 \div 64)) + 1] ELSE Pad,
        IF Len(g) > 2 THEN al[(b3 % 64) + 1] ELSE Pad >>
RECURSIVE B64Enc(_, _)
B64Enc(s, al) ==
  IF s = << >> THEN << >>
  ELSE B64Group(Take(s, 3), al) \o B64Enc(Drop(s, 3), al)

(* decoding of well-formed text: groups of 4, padding only at the end *)
IdxOf(c, al) == (CHOOSE k \in 1 .. 64 : al[k] = c) - 1
InAl(c, al) == \E k \in 1 .. 64 : al[k] = c
B64DecGroup(g, al) ==
  LET v1 == IdxOf(g[1], al)
      v2 == IdxOf(g[2], al)
      o1 == v1 * 4 + (v2 \div 16)
  IN IF g[3] = Pad THEN << o1 >>
     ELSE LET v3 == IdxOf(g[3], al)
              o2 == (v2 % 16) * 16 + (v3 \div 4)
          IN IF g[4] = Pad THEN << o1, o2 >>
             ELSE << o1, o2, (v3 % 4) * 64 + IdxOf(g[4], al) >>
RECURSIVE B64Dec(_, _)
B64Dec(t, al) ==
  IF t = << >> THEN << >>
  ELSE B64DecGroup(Take(t, 4), al) \o B64Dec(Drop(t, 4), al)
(* well-formed: every group of 4 has two symbols, then symbols or padding  *)
(* at its end, and padding occurs only in the last group                   *)
RECURSIVE B64WF(_, _)
B64WF(t, al) ==
  \/ t = << >>
  \/ /\ Len(t) >= 4
     /\ InAl(t[1], al) /\ InAl(t[2], al)
     /\ \/ InAl(t[3], al) /\ InAl(t[4], al) /\ t[3] # Pad /\ t[4] # Pad /\ B64WF(Drop(t, 4), al)
        \/ Len(t) = 4 /\ InAl(t[3], al) /\ t[3] # Pad /\ t[4] = Pad
        \/ Len(t) = 4 /\ t[3] = Pad /\ t[4] = Pad

(* ------------------------ bounded C strings ---------------------------- *)
(* dst: all bytes of a buffer (siz <= Len(dst)); src: C string bytes       *)
StrlcpyBuf(dst, src, siz) ==
  IF siz = 0 THEN dst
  ELSE LET n == Min2(Len(src), siz - 1)
       IN OverwriteAt(dst, 0, Take(src, n) \o <<0>>)
StrlcatLen(dst, siz) ==    \* length of the C string within siz bytes
  LET Z == {k \in 1 .. siz : dst[k] = 0}
  IN IF Z = {} THEN siz ELSE MinOf(Z) - 1
StrlcatBuf(dst, src, siz) ==
  LET dl == StrlcatLen(dst, siz)
  IN IF dl = siz THEN dst
     ELSE OverwriteAt(dst, dl, Take(src, Min2(Len(src), siz - dl - 1)) \o <<0>>)
=============================================================================
