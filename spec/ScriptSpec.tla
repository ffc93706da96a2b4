----------------------------- MODULE ScriptSpec -----------------------------
(***************************************************************************)
(* bdlib's script interpreters as an abstract machine.                     *)
(*                                                                         *)
(* The state holds two interpreters, the program's variables and its       *)
(* stored callbacks.  An interpreter maps script names to commands (a      *)
(* registration of the program, or a procedure of the script), the         *)
(* program's names to registrations, and variable names to links or plain  *)
(* script variables.  Interpreters share nothing but the program           *)
(* variables linked to them.  Texts are byte sequences.                    *)
(***************************************************************************)
EXTENDS ScriptText, Naturals, Integers, Sequences, FiniteSets

Empty == [x \in {} |-> 0]
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Only(f, P(_)) == [y \in {z \in DOMAIN f : P(f[z])} |-> f[y]]

CmdNames == << "x", "y", "zed" >>
VarNames == << "a", "b", "ns::c", "ar(k)" >>
NameText == ("x" :> NmX) @@ ("y" :> NmY) @@ ("zed" :> NmZed)
NameOf(t) == IF \E n \in DOMAIN NameText : NameText[n] = t THEN CHOOSE n \in DOMAIN NameText : NameText[n] = t ELSE "?"

(* ---- numbers as text ---------------------------------------------------- *)
IsDigit(c) == c >= 48 /\ c <= 57
Digits(t) == Len(t) > 0 /\ \A k \in 1 .. Len(t) : IsDigit(t[k])
Plain(t) == Digits(t) /\ (t[1] # 48 \/ Len(t) = 1)
Neg(t) == Len(t) > 0 /\ t[1] = 45
Mag(t) == IF Neg(t) THEN Tail(t) ELSE t
RECURSIVE LexLE(_, _)
LexLE(a, b) == IF a = << >> THEN TRUE ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE LexLE(Tail(a), Tail(b))
MagLE(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLE(a, b))
IntTypes == DOMAIN Low
(* a script value as an integer of type ty: its value, or zero when it is no integer or out of range *)
IntConv(ty, t) ==
  LET c == IF t \in DOMAIN IntAlias THEN IntAlias[t] ELSE t IN
  IF ~Plain(Mag(c)) THEN TxZero
  ELSE IF Neg(c) THEN (IF MagLE(Mag(c), Low[ty]) THEN c ELSE TxZero)
  ELSE IF MagLE(c, High[ty]) THEN c ELSE TxZero
RECURSIVE ToDec(_)
ToDec(n) == IF n < 0 THEN << 45 >> \o ToDec(0 - n) ELSE IF n < 10 THEN << 48 + n >> ELSE ToDec(n \div 10) \o << 48 + (n % 10) >>
RECURSIVE NatOf(_)
NatOf(t) == IF t = << >> THEN 0 ELSE 10 * NatOf(SubSeq(t, 1, Len(t) - 1)) + (t[Len(t)] - 48)
ToInt(t) == IF Neg(t) THEN 0 - NatOf(Mag(t)) ELSE NatOf(t)

(* lists written as text: words separated by one space *)
RECURSIVE Words(_)
Words(t) == IF t = << >> THEN << >>
            ELSE IF \E k \in 1 .. Len(t) : t[k] = 32
                 THEN LET k == CHOOSE k \in 1 .. Len(t) : t[k] = 32 /\ \A j \in 1 .. k - 1 : t[j] # 32
                      IN << SubSeq(t, 1, k - 1) >> \o Words(SubSeq(t, k + 1, Len(t)))
                 ELSE << t >>
(* a list argument given as text: Tcl's list syntax (without numeric escapes); no list at all is empty *)
IsWs(c) == c \in {9, 10, 11, 12, 13, 32}
EndAt(t, p) == p > Len(t) \/ IsWs(t[p])
Esc(c) == CASE c = 97 -> 7 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] c = 118 -> 11 [] OTHER -> c
RECURSIVE SkipBl(_, _)
SkipBl(t, p) == IF p <= Len(t) /\ t[p] \in {9, 32} THEN SkipBl(t, p + 1) ELSE p
RECURSIVE SkipWs(_, _)
SkipWs(t, p) == IF p <= Len(t) /\ IsWs(t[p]) THEN SkipWs(t, p + 1) ELSE p
(* from p up to the end of a bare word, or to the closing quote: [p |-> next position (0: none), v |-> text] *)
RECURSIVE Scan(_, _, _, _)
Scan(t, p, acc, quoted) ==
  IF p > Len(t) THEN [p |-> IF quoted THEN 0 ELSE p, v |-> acc]
  ELSE IF quoted /\ t[p] = 34 THEN [p |-> IF EndAt(t, p + 1) THEN p + 1 ELSE 0, v |-> acc]
  ELSE IF ~quoted /\ IsWs(t[p]) THEN [p |-> p, v |-> acc]
  ELSE IF t[p] # 92 THEN Scan(t, p + 1, Append(acc, t[p]), quoted)
  ELSE IF p = Len(t) THEN Scan(t, p + 1, Append(acc, 92), quoted)
  ELSE IF t[p + 1] = 10 THEN Scan(t, SkipBl(t, p + 2), Append(acc, 32), quoted)
  ELSE Scan(t, p + 2, Append(acc, Esc(t[p + 1])), quoted)
(* the position of the brace closing depth d, 0 if there is none *)
RECURSIVE Close(_, _, _)
Close(t, p, d) ==
  IF p > Len(t) THEN 0
  ELSE IF t[p] = 92 THEN Close(t, p + 2, d)
  ELSE IF t[p] = 123 THEN Close(t, p + 1, d + 1)
  ELSE IF t[p] = 125 THEN (IF d = 1 THEN p ELSE Close(t, p + 1, d - 1))
  ELSE Close(t, p + 1, d)
RECURSIVE Elements(_, _, _)
Elements(t, p0, acc) ==
  LET p == SkipWs(t, p0) IN
  IF p > Len(t) THEN acc
  ELSE IF t[p] = 123
       THEN LET c == Close(t, p + 1, 1) IN
            IF c = 0 \/ ~EndAt(t, c + 1) THEN << >> ELSE Elements(t, c + 1, Append(acc, SubSeq(t, p + 1, c - 1)))
  ELSE LET r == IF t[p] = 34 THEN Scan(t, p + 1, << >>, TRUE) ELSE Scan(t, p, << >>, FALSE) IN
       IF r.p = 0 THEN << >> ELSE Elements(t, r.p, Append(acc, r.v))
ListConv(t) == Elements(t, 1, << >>)

Conv(ty, t) ==
  CASE ty \in IntTypes -> IntConv(ty, t)
    [] ty = "b" -> IF t \in BoolTrue THEN << 49 >> ELSE TxZero
    [] ty = "d" -> IF t \in DOMAIN Doubles THEN Doubles[t] ELSE DblZero
    [] OTHER -> t
Default(ty) == CASE ty \in IntTypes \cup {"b"} -> TxZero [] ty = "d" -> DblZero [] ty \in {"cs", "cb"} -> TxNull [] ty \in {"l", "n"} -> << >> [] OTHER -> << >>

HexDigit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
RECURSIVE Hex(_)
Hex(t) == IF t = << >> THEN << >> ELSE << HexDigit(Head(t) \div 16), HexDigit(Head(t) % 16) >> \o Hex(Tail(t))
RECURSIVE Join(_, _)
Join(l, sep) == IF l = << >> THEN << >> ELSE IF Len(l) = 1 THEN l[1] ELSE l[1] \o sep \o Join(Tail(l), sep)
Comma == << 44 >>
Bar == << 124 >>
Semi == << 59 >>
HexList(l) == Join([k \in 1 .. Len(l) |-> Hex(l[k])], Comma)
Angle(t) == << 60 >> \o t \o << 62 >>
RECURSIVE AngleAll(_)
AngleAll(l) == IF l = << >> THEN << >> ELSE Angle(Head(l)) \o AngleAll(Tail(l))

(* ---- the handlers of the program ---------------------------------------- *)
Params == [v0 |-> << >>, s1a |-> << "s" >>, s1b |-> << "s" >>, four |-> << "s", "s", "s", "s" >>,
           ints1 |-> << "i8", "u8", "i16", "u16" >>, ints2 |-> << "i32", "u32", "i64", "u64" >>, mix |-> << "b", "cs", "s" >>,
           lp |-> << "l", "s" >>, thrS |-> << "s" >>, thrN |-> << "s" >>, retN |-> << "s" >>, thrE |-> << "s" >>, thrI |-> << "s" >>, del |-> << "s", "s" >>, rep |-> << "s", "s" >>,
           reg |-> << "s", "cb" >>, cbnow |-> << "cb", "l" >>, evg |-> << "s" >>,
           id_i8 |-> << "i8" >>, id_u8 |-> << "u8" >>, id_i16 |-> << "i16" >>, id_u16 |-> << "u16" >>, id_i32 |-> << "i32" >>, id_u32 |-> << "u32" >>,
           id_i64 |-> << "i64" >>, id_u64 |-> << "u64" >>, id_b |-> << "b" >>, id_d |-> << "d" >>, id_s |-> << "s" >>, id_l |-> << "l" >>, id_n |-> << "n" >>]
Silent == {h \in DOMAIN Params : h \notin {"v0", "s1a", "s1b", "four", "ints1", "ints2", "mix", "lp", "thrS", "thrN", "retN", "thrE", "thrI", "del", "rep", "reg", "cbnow", "evg"}}

(* arguments as the script gave them: [t |-> "s"/"l"/"n", v |-> text, list or list of lists] *)
ArgOf(ty, a) == IF a.t = "s" THEN (IF ty = "l" THEN ListConv(a.v) ELSE IF ty = "n" THEN LET l == ListConv(a.v) IN [k \in 1 .. Len(l) |-> ListConv(l[k])] ELSE Conv(ty, a.v)) ELSE a.v
(* the converted parameters, missing ones defaulted *)
Actual(h, as) == [k \in 1 .. Len(Params[h]) |-> IF k <= Len(as) THEN ArgOf(Params[h][k], as[k]) ELSE Default(Params[h][k])]
RECURSIVE Shown(_, _)
Shown(tys, ps) == IF tys = << >> THEN << >>
                  ELSE (IF Head(tys) = "l" THEN (IF Head(ps) = << >> THEN << << >> >> ELSE Head(ps)) ELSE << Head(ps) >>) \o Shown(Tail(tys), Tail(ps))
Log(h, ps) == IF h \in Silent THEN << >> ELSE << [h |-> h, a |-> Shown(Params[h], ps)] >>

(* ---- outcomes ------------------------------------------------------------ *)
(* code 0/1; how: "eq" (ret is the text), "pre" (ret starts with it), "suf" (ends with it), "any" *)
Out(st, code, how, ret, calls, hooks) == [st |-> st, code |-> code, how |-> how, ret |-> ret, calls |-> calls, hooks |-> hooks]
OkT(st, t) == Out(st, 0, "eq", t, << >>, << >>)
Fail(st, t) == Out(st, 1, "eq", t, << >>, << >>)
FailAny(st) == Out(st, 1, "any", << >>, << >>, << >>)
OkAny(st) == Out(st, 0, "any", << >>, << >>, << >>)

DropReg(st, k, id) == [st EXCEPT !.i[k].cmds = Only(@, LAMBDA c : c.id # id)]
DeleteCmd(st, k, nm) ==
  IF nm \notin DOMAIN st.i[k].prog THEN st
  ELSE [DropReg(st, k, st.i[k].prog[nm]) EXCEPT !.i[k].prog = Without(@, nm)]
CreateCmd(st, k, nm, h, mn, us) ==
  LET s1 == DeleteCmd(st, k, nm)
      rec == [id |-> st.nid, h |-> h, mn |-> IF mn < 0 THEN Len(Params[h]) ELSE mn, us |-> us]
  IN [s1 EXCEPT !.i[k].cmds = (nm :> rec) @@ @, !.i[k].prog = (nm :> st.nid) @@ @, !.nid = @ + 1]
NoCmd(st, nmText) == Fail(st, TxInvalid \o nmText \o << 34 >>)
Exists(st, k, t) == IF NameOf(t) \in DOMAIN st.i[k].cmds THEN << 49 >> ELSE TxZero

WrongArgs(st, rec, nmText, n) ==
  Fail(st, TxWrong \o ToDec(rec.mn) \o TxGot \o ToDec(n) \o TxDot \o
           (IF rec.us = "" THEN << >> ELSE TxShould \o nmText \o << 32 >> \o (IF rec.us = "u1" THEN TxU1 ELSE << >>) \o << 34 >>))

(* a handler without effects on the interpreters *)
RunSimple(st, h, ps) ==
  LET r == CASE h = "v0" -> OkT(st, << >>)
             [] h = "s1a" -> OkT(st, << 65 >> \o Angle(ps[1]))
             [] h = "s1b" -> OkT(st, << 66 >> \o Angle(ps[1]))
             [] h = "four" -> OkT(st, Join(ps, Bar))
             [] h \in {"ints1", "ints2", "mix"} -> OkT(st, Join(ps, Comma))
             [] h = "lp" -> OkT(st, AngleAll(ps[1]) \o ps[2])
             [] h = "thrS" -> Fail(st, ps[1])
             [] h = "thrN" -> Fail(st, ps[1] \o << 0 >> \o ps[1])
             [] h = "retN" -> OkT(st, ps[1] \o << 0 >> \o ps[1])
             [] h \in {"thrE", "thrI"} -> Fail(st, TxUnhandled)
             [] h = "id_l" -> OkT(st, HexList(ps[1]))
             [] h = "id_n" -> OkT(st, Join([k \in 1 .. Len(ps[1]) |-> HexList(ps[1][k])], Semi))
             [] OTHER -> OkT(st, ps[1])
  IN [r EXCEPT !.calls = Log(h, ps)]
RECURSIVE Invoke(_, _, _, _, _)

(* ---- callbacks: the text of a command with leading arguments ------------- *)
AsText(l) == [j \in 1 .. Len(l) |-> [t |-> "s", v |-> l[j]]]
(* what eval() gives: the result, or a text starting with the error message *)
CbCall(st, k, text, args) ==
  LET w == Words(text)
      all == Tail(w) \o args
      p == Head(w)
      q == IF Len(p) > 2 /\ SubSeq(p, 1, 2) = NmColons THEN SubSeq(p, 3, Len(p)) ELSE p
      r == IF q = TxRec THEN OkT(st, HexList(all))
           ELSE IF q = TxEcho THEN (IF Len(all) = 1 THEN OkT(st, all[1]) ELSE FailAny(st))
           ELSE IF q = TxErr THEN (IF Len(all) = 1 THEN Fail(st, all[1]) ELSE FailAny(st))
           ELSE IF NameOf(q) = "?" THEN NoCmd(st, p)
           ELSE Invoke(st, k, NameOf(q), p, AsText(all))
  IN [r EXCEPT !.how = IF r.code = 1 /\ r.how = "eq" THEN "pre" ELSE @, !.code = 0]

(* ---- variables ------------------------------------------------------------ *)
PvTypes == [i8 |-> "i8", u8 |-> "u8", i16 |-> "i16", u16 |-> "u16", i32 |-> "i32", u32 |-> "u32", i64 |-> "i64", u64 |-> "u64",
            b |-> "b", d |-> "d", s |-> "s", s2 |-> "s", c1 |-> "c1", c4 |-> "c4", c9 |-> "c9", c90 |-> "c90", ki |-> "i32", ks |-> "s", kc |-> "s"]
Const == {"ki", "ks", "kc"}
Pv0 == [p \in DOMAIN PvTypes |-> CASE p = "ki" -> TxKi [] p = "ks" -> TxKs [] p = "kc" -> TxKc [] PvTypes[p] \in IntTypes \cup {"b"} -> TxZero [] p = "d" -> DblZero [] OTHER -> << >>]
Cut(t, n) == SubSeq(t, 1, IF Len(t) < n THEN Len(t) ELSE n)
Stored(p, t) == CASE PvTypes[p] = "c1" -> << >> [] PvTypes[p] = "c4" -> Cut(t, 3) [] PvTypes[p] = "c9" -> Cut(t, 8) [] PvTypes[p] = "c90" -> Cut(t, 89) [] OTHER -> Conv(PvTypes[p], t)
VarText(st, k, nm) == LET v == st.i[k].vars[nm] IN IF v.t = "link" THEN st.pv[v.pv] ELSE v.v
HasVar(st, k, nm) == nm \in DOMAIN st.i[k].vars
Write(st, k, nm, t) ==
  IF ~HasVar(st, k, nm) \/ st.i[k].vars[nm].t = "plain" THEN OkAny([st EXCEPT !.i[k].vars = (nm :> [t |-> "plain", v |-> t]) @@ @])
  ELSE LET v == st.i[k].vars[nm] IN
       IF v.ro THEN Out(st, 1, "suf", TxRO, << >>, << >>)
       ELSE LET n == Stored(v.pv, t)
            IN Out([st EXCEPT !.pv[v.pv] = n], 0, "any", << >>, << >>,
                   IF v.hk = 0 THEN << >> ELSE << [h |-> v.hk, o |-> st.pv[v.pv], n |-> n] >>)

(* ---- commands ------------------------------------------------------------ *)
SlotOf(t) == IF t = << 49 >> THEN 1 ELSE IF t = << 50 >> THEN 2 ELSE 3
NoCb == [k |-> 0, text |-> << >>]
Run(st, k, h, ps) ==
  CASE h = "del" -> LET s == DeleteCmd(st, k, NameOf(ps[1])) IN [OkT(s, Exists(s, k, ps[2])) EXCEPT !.calls = Log(h, ps)]
    [] h = "rep" -> LET s == CreateCmd(st, k, NameOf(ps[1]), "s1b", -1, "") IN [OkT(s, Exists(s, k, ps[2])) EXCEPT !.calls = Log(h, ps)]
    [] h = "reg" -> [OkT([st EXCEPT !.cb[SlotOf(ps[1])] = IF ps[2] = TxNull THEN NoCb ELSE [k |-> k, text |-> ps[2]]], << >>) EXCEPT !.calls = Log(h, ps)]
    [] h = "cbnow" -> IF ps[1] = TxNull THEN [OkT(st, TxNone) EXCEPT !.calls = Log(h, ps)]
                      ELSE LET r == CbCall(st, k, ps[1], ps[2]) IN [r EXCEPT !.calls = Log(h, ps) \o @]
    (* evaluates "set a text": in the global scope, wherever the command was called *)
    [] h = "evg" -> LET r == Write(st, k, "a", ps[1]) IN Out(r.st, 0, "any", << >>, Log(h, ps), r.hooks)
    [] OTHER -> RunSimple(st, h, ps)
Invoke(st, k, nm, nmText, as) ==
  IF nm \notin DOMAIN st.i[k].cmds THEN NoCmd(st, nmText)
  ELSE LET rec == st.i[k].cmds[nm] IN
       IF rec.h = "proc" THEN OkT(st, << 80 >>)
       ELSE IF Len(as) < rec.mn \/ Len(as) > Len(Params[rec.h]) THEN WrongArgs(st, rec, nmText, Len(as))
       ELSE Run(st, k, rec.h, Actual(rec.h, as))

NewInterp == [l |-> TRUE, cmds |-> Empty, prog |-> Empty, vars |-> Empty]
NoInterp == [NewInterp EXCEPT !.l = FALSE]
Start == [i |-> [k \in 1 .. 2 |-> NoInterp], pv |-> Pv0, cb |-> [j \in 1 .. 3 |-> NoCb], nid |-> 1]

(* ---- scripts and script files: statements written as letter and text ------- *)
(* the state after the statements, the result or error of the last one run, and the calls and hooks made *)
Stmt(st, k, x) ==
  LET t == Tail(x) IN
  CASE Head(x) = 115 -> LET r == Write(st, k, "a", t) IN                                      \* s: set a text
                          IF r.code = 1 THEN r ELSE [r EXCEPT !.how = "any"]
    [] Head(x) = 101 -> Fail(st, t)                                                            \* e: error text
    [] Head(x) = 114 -> [OkT(st, t) EXCEPT !.code = 2]                                         \* r: return text
    [] Head(x) = 120 -> Invoke(st, k, "x", NmX, << [t |-> "s", v |-> t] >>)                    \* x: call x with text
    [] Head(x) = 78 -> OkT(st, t \o << 0 >> \o t)                                             \* N: a word with a NUL inside
    [] Head(x) = 35 -> Out(st, 0, "skip", << >>, << >>, << >>)                                 \* #: a comment
    [] OTHER -> IF HasVar(st, k, "a") THEN OkT(st, VarText(st, k, "a")) ELSE FailAny(st)       \* g: set a
RECURSIVE Stmts(_, _, _, _)
Stmts(st, k, l, acc) ==
  IF l = << >> THEN acc
  ELSE LET r == Stmt(st, k, Head(l))
           a == [r EXCEPT !.calls = acc.calls \o @, !.hooks = acc.hooks \o @,
                          !.how = IF @ = "skip" THEN acc.how ELSE @, !.ret = IF r.how = "skip" THEN acc.ret ELSE @]
       IN IF r.code = 0 THEN Stmts(r.st, k, Tail(l), a) ELSE a
RunScript(st, k, l) == Stmts(st, k, l, OkT(st, << >>))
IsScript(fn) == Len(fn) >= 4 /\ SubSeq(fn, Len(fn) - 3, Len(fn)) = TxTcl
Load(st, k, fn, there, l) ==
  IF ~IsScript(fn) THEN Out(st, 12, "eq", TxInit, << >>, << >>)
  ELSE IF there = 0 THEN Out(st, 11, "pre", TxCouldnt, << >>, << >>)
  ELSE LET r == RunScript(st, k, l) IN
       IF r.code = 1 THEN [r EXCEPT !.code = 11] ELSE [r EXCEPT !.code = 10, !.how = "eq", !.ret = TxInit]

(* ---- one event -------------------------------------------------------------- *)
ArgsOf(e) == (IF e.hasla = 1 THEN << [t |-> "l", v |-> e.la] >> ELSE << >>) \o (IF e.hasna = 1 THEN << [t |-> "n", v |-> e.nested] >> ELSE << >>) \o AsText(e.args)
Exp(e, st) ==
  CASE e.op = "mk" -> OkAny([st EXCEPT !.i[e.k] = NewInterp])
    [] e.op = "rm" -> OkAny([st EXCEPT !.i[e.k] = NoInterp, !.cb = [j \in 1 .. 3 |-> IF @[j].k = e.k THEN NoCb ELSE @[j]]])
    [] e.op = "cmd" -> OkAny(CreateCmd(st, e.k, e.nm, e.h, e.mn, e.us))
    [] e.op = "delc" -> OkAny(DeleteCmd(st, e.k, e.nm))
    [] e.op = "ren" ->
         LET c == st.i[e.k].cmds IN
         IF e.nm \notin DOMAIN c THEN FailAny(st)
         ELSE IF e.to = "-" THEN OkAny([st EXCEPT !.i[e.k].cmds = Without(@, e.nm)])
         ELSE IF e.to \in DOMAIN c THEN FailAny(st)
         ELSE OkAny([st EXCEPT !.i[e.k].cmds = (e.to :> c[e.nm]) @@ Without(@, e.nm)])
    [] e.op = "proc" -> OkAny([st EXCEPT !.i[e.k].cmds = (e.nm :> [id |-> 0, h |-> "proc", mn |-> 0, us |-> ""]) @@ @])
    [] e.op = "call" -> Invoke(st, e.k, e.nm, (IF e.q = 1 THEN NmColons ELSE << >>) \o NameText[e.nm], ArgsOf(e))
    [] e.op = "link" -> OkAny([st EXCEPT !.i[e.k].vars = (e.nm :> [t |-> "link", pv |-> e.pv1, ro |-> (e.ro = 1 \/ e.pv1 \in Const), hk |-> e.hk]) @@ @])
    [] e.op = "unlink" -> OkAny([st EXCEPT !.i[e.k].vars = Without(@, e.nm)])
    [] e.op = "pset" -> OkAny([st EXCEPT !.pv[e.pv1] = Stored(e.pv1, e.v)])
    [] e.op = "get" -> IF HasVar(st, e.k, e.nm) THEN OkT(st, VarText(st, e.k, e.nm)) ELSE FailAny(st)
    [] e.op = "setv" -> LET r == Write(st, e.k, e.nm, e.v) IN IF e.q > 4 THEN [r EXCEPT !.how = "any"] ELSE r
    [] e.op = "incr" -> LET r == Write(st, e.k, e.nm, ToDec(ToInt(VarText(st, e.k, e.nm)) + e.n)) IN r
    [] e.op = "unset" -> IF HasVar(st, e.k, e.nm) THEN OkAny([st EXCEPT !.i[e.k].vars = Without(@, e.nm)]) ELSE FailAny(st)
    [] e.op = "cbcall" -> CbCall(st, st.cb[e.slot].k, st.cb[e.slot].text, IF e.q = 1 THEN << >> ELSE e.args)
    [] e.op = "evs" -> LET r == RunScript(st, e.k, e.vl) IN IF r.code = 2 THEN [r EXCEPT !.code = IF e.m = 1 THEN 0 ELSE 2] ELSE r
    [] e.op = "load" -> Load(st, e.k, e.fn, e.ex, e.vl)
    [] e.op = "rt" -> IF e.ty = "n" THEN OkT(st, e.nested) ELSE IF e.ty = "l" THEN OkT(st, e.vl) ELSE OkT(st, e.v)

Small(t) == Len(t) <= 6 /\ Plain(Mag(t))
Pre(e, st) ==
  CASE e.op = "mk" -> ~st.i[e.k].l
    [] e.op = "pset" -> TRUE
    [] e.op = "cbcall" -> st.cb[e.slot].k # 0
    [] OTHER -> st.i[e.k].l
=============================================================================
