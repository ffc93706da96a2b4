----------------------------- MODULE CodecTrace -----------------------------
(***************************************************************************)
(* base64 and the C string helpers: each recorded call against the         *)
(* operators of StrOps.  live = number of malloc'd blocks the caller owns. *)
(***************************************************************************)
EXTENDS StrOps, Json, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, l, slots
vars == <<sid, l, slots>>
Ev(s, k) == Sessions[s].ev[k]
NEv(s) == Len(Sessions[s].ev)
None == <<-1>>          \* a null char*
Init == /\ sid \in 1 .. Len(Sessions) /\ l = 0 /\ slots = [k \in 0 .. 2 |-> None]

Al(e) == IF e.al = << >> THEN StdAlphabet ELSE e.al
CeilDiv(n, d) == (n + d - 1) \div d
DecodedOK(r, v, al) ==
  /\ Len(r) <= 3 * CeilDiv(Len(v), 4)
  /\ B64WF(v, al) => r = B64Dec(v, al)
(* the first siz bytes hold s with its terminator; nothing beyond siz (or  *)
(* before) changed; what follows the terminator inside siz is unspecified. *)
Holds(buf, want, siz, old) ==
  /\ Len(buf) = Len(old)
  /\ LET z == {k \in 1 .. siz : want[k] = 0}
         m == IF z = {} THEN siz ELSE MinOf(z)
     IN Take(buf, m) = Take(want, m)
  /\ Drop(buf, siz) = Drop(old, siz)
Live(sl) == Cardinality({k \in 0 .. 2 : sl[k] # None})
Bound(e) == IF e.n = -1 THEN Len(e.v) ELSE e.n
OK(e, ns) ==
  CASE e.op = "enc" -> /\ e.ret = B64Enc(e.v, Al(e)) /\ e.term = 1 /\ e.src = e.v
    [] e.op = "dec" -> /\ DecodedOK(e.ret, e.v, Al(e)) /\ e.term = 1 /\ e.src = e.v
    [] e.op = "strlcpy" -> /\ e.n2 = Len(e.v) /\ Holds(e.ret, StrlcpyBuf(e.w, e.v, e.n), e.n, e.w) /\ e.src = e.v
    [] e.op = "strlcat" -> /\ e.n2 = StrlcatLen(e.w, e.n) + Len(e.v) /\ Holds(e.ret, StrlcatBuf(e.w, e.v, e.n), e.n, e.w) /\ e.src = e.v
    [] e.op = "strdup" -> e.ret = e.v /\ e.src = e.v
    [] e.op = "strldup" -> e.ret = Take(e.v, Min2(Len(e.v), Bound(e))) /\ e.src = e.v
    [] e.op = "redup" -> /\ (e.null = 1) = (ns[e.d] = None)
                         /\ e.ret = IF ns[e.d] = None THEN << >> ELSE ns[e.d]
    [] e.op = "calloc" -> e.ret = [k \in 1 .. e.a * e.b |-> 0]
    [] e.op = "realloc" -> e.ret = IF e.nul = 1 THEN << >> ELSE Take(e.v, Min2(Len(e.v), e.n))
    [] e.op = "end" -> TRUE
Step == /\ l < NEv(sid)
        /\ LET e == Ev(sid, l + 1)
               ns == IF e.op = "end" THEN [k \in 0 .. 2 |-> None]
                     ELSE IF e.op = "redup" THEN [slots EXCEPT ![e.d] = IF e.nul = 1 THEN None ELSE e.v] ELSE slots
           IN /\ e.err = ""
              /\ OK(e, ns)
              /\ e.live \in {Live(ns), -1}       \* -1: not counted in this build
              /\ slots' = ns
        /\ l' = l + 1 /\ UNCHANGED sid
Done == l = NEv(sid) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
