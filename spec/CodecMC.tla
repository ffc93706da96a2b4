------------------------------ MODULE CodecMC ------------------------------
(***************************************************************************)
(* Design model of the codec: grows every byte sequence over Bytes up to   *)
(* MaxLen and states the laws the operators must satisfy.                  *)
(***************************************************************************)
EXTENDS StrOps
CONSTANTS Bytes, MaxLen
VARIABLE s
Rot == Drop(StdAlphabet, 13) \o Take(StdAlphabet, 13)
High == [k \in 1 .. 64 |-> 127 + k]
Init == s = << >>
Next == Len(s) < MaxLen /\ \E b \in Bytes : s' = Append(s, b)
Spec == Init /\ [][Next]_s
Law(al) == LET t == B64Enc(s, al) IN
  /\ Len(t) = 4 * ((Len(s) + 2) \div 3)
  /\ B64WF(t, al)
  /\ B64Dec(t, al) = s
  /\ \A k \in 1 .. Len(t) : InAl(t[k], al) \/ (t[k] = Pad /\ k > Len(t) - 2)
Inverse == Law(StdAlphabet) /\ Law(Rot) /\ Law(High)
(* distinct inputs have distinct encodings: follows from Inverse.           *)
(* bounded copies: s is used both as buffer and as source *)
Bounded == \A z \in 0 .. Len(s) : \A n \in 0 .. Len(s) :
  LET src == CStrOf(Take(s, n))
      b == StrlcpyBuf(s, src, z)
      c == StrlcatBuf(s, src, z)
  IN /\ Len(b) = Len(s) /\ Drop(b, z) = Drop(s, z)
     /\ z > 0 => \E k \in 1 .. z : b[k] = 0
     /\ (z > Len(src)) => CStrOf(b) = src
     /\ Len(c) = Len(s) /\ Drop(c, z) = Drop(s, z)
     /\ (\E k \in 1 .. z : s[k] = 0) => \E k \in 1 .. z : c[k] = 0
     /\ (StrlcatLen(s, z) + Len(src) < z) => CStrOf(c) = CStrOf(s) \o src
=============================================================================
