------------------------------ MODULE SeqSpec ------------------------------
(***************************************************************************)
(* Abstract state machine of bdlib's value containers (String, Array<T>).  *)
(*                                                                         *)
(* State: a store of object slots.  A slot is a record [l, v]: l = 1 iff   *)
(* an object lives there, v its contents.  There is no notion of storage   *)
(* sharing here: that is the point - whatever the implementation shares,   *)
(* it must look like this machine.  RcaImpl.tla models the sharing and is  *)
(* checked to refine this module; SeqTrace.tla checks executions of the    *)
(* real classes against it.                                                *)
(*                                                                         *)
(* One public call = one event e = one step.  Exp(e, st) gives the outcome *)
(* the call must have in store st:                                         *)
(*   upd : slot -> new contents          (slots that get a defined value)  *)
(*   may : slots whose contents afterwards are the old ones or empty       *)
(*         (moved-from objects)                                            *)
(*   del : slots whose object is destroyed                                 *)
(*   err : "" or "range" (std::out_of_range)                               *)
(*   ret : the returned value (0 if none)                                  *)
(* Every slot not in upd, may or del is unchanged.                         *)
(***************************************************************************)
EXTENDS StrOps, TLC

V(st, k) == st[k].v
IsLive(st, k) == st[k].l = 1
E0 == [x \in {} |-> 0]

Out(upd, may, del, err, ret) == [upd |-> upd, may |-> may, del |-> del, err |-> err, ret |-> ret]
Upd(k, val) == Out(k :> val, {}, {}, "", 0)
UpdMay(k, val, s) == IF k = s THEN Out(E0, {k}, {}, "", 0) ELSE Out(k :> val, {s}, {}, "", 0)
UpdRet(k, val, r) == Out(k :> val, {}, {}, "", r)
Ret(r) == Out(E0, {}, {}, "", r)
Same == Ret(0)
Throw == Out(E0, {}, {}, "range", 0)
B01(b) == IF b THEN 1 ELSE 0

Rel6(c) == << B01(c = 0), B01(c # 0), B01(c < 0), B01(c <= 0), B01(c > 0), B01(c >= 0) >>

(* literal C-string argument v used with count n (-1: up to its NUL)       *)
CLit(v, n) == IF n = -1 THEN CStrOf(v) ELSE Take(v, n)

(* ------------------------- life cycle ---------------------------------- *)
LifeOps == {"new", "newcap", "newlit", "newfill", "newcopy", "newmove", "newsub", "del",
            "asg", "asgmove", "asglit", "asgsub", "swap"}
ExpLife(e, st) ==
  CASE e.op = "new"     -> Upd(e.d, << >>)
    [] e.op = "newcap"  -> Upd(e.d, << >>)
    [] e.op = "newlit"  -> Upd(e.d, e.v)
    [] e.op = "newfill" -> Upd(e.d, Fill(e.n, e.x))
    [] e.op = "newcopy" -> Upd(e.d, V(st, e.s))
    [] e.op = "newmove" -> UpdMay(e.d, V(st, e.s), e.s)
    [] e.op = "newsub"  -> Upd(e.d, SliceOf(V(st, e.s), e.i, e.j))
    [] e.op = "del"     -> Out(E0, {}, {e.d}, "", 0)
    [] e.op = "asg"     -> Upd(e.d, V(st, e.s))
    [] e.op = "asgmove" -> IF e.d = e.s THEN Same ELSE UpdMay(e.d, V(st, e.s), e.s)
    [] e.op = "asglit"  -> Upd(e.d, e.v)
    [] e.op = "asgsub"  -> Upd(e.d, SliceOf(V(st, e.s), e.i, e.j))
    [] e.op = "swap"    -> Out((e.d :> V(st, e.s)) @@ (e.s :> V(st, e.d)), {}, {}, "", 0)

(* --------------------------- editing ----------------------------------- *)
EditOps == {"clear", "reserve", "resize", "resizef", "app", "appown", "appseq", "appseqmv",
            "applit", "ins", "insown", "insseq", "insseqmv", "insrange", "inslit",
            "repl", "replown", "replseq", "replseqmv", "repllit", "set", "setfrom", "popb",
            "elapp", "appself", "insself", "replself"}
ExpEdit(e, st) ==
  LET c == V(st, e.d) IN
  CASE e.op = "clear"   -> Upd(e.d, << >>)
    [] e.op = "reserve" -> Upd(e.d, c)
    [] e.op = "resize"  -> Upd(e.d, Take(c, e.n))               \* only shrinking is specified
    [] e.op = "resizef" -> Upd(e.d, ResizeTo(c, e.n, e.x))
    [] e.op = "app"     -> Upd(e.d, Append(c, e.x))
    [] e.op = "appown"  -> Upd(e.d, Append(c, c[e.i + 1]))
    [] e.op = "appseq"  -> Upd(e.d, c \o UseN(V(st, e.s), e.n))
    [] e.op = "appseqmv" -> LET t == UseN(V(st, e.s), e.n)
                            IN IF e.n = 0 THEN Out(E0, {e.s}, {}, "", 0)
                               ELSE UpdMay(e.d, c \o t, e.s)
    [] e.op = "applit"  -> Upd(e.d, c \o CLit(e.v, e.n))
    (* the argument is a C string inside the object's own buffer           *)
    [] e.op = "appself" -> Upd(e.d, c \o Range0(c, e.i, e.n))
    [] e.op = "insself" -> IF e.n = 0 THEN Same ELSE IF ~PosOK(c, e.j) THEN Throw
                           ELSE Upd(e.d, InsertAt(c, e.j, Range0(c, e.i, e.n)))
    [] e.op = "replself" -> IF e.n = 0 THEN Same ELSE IF ~PosOK(c, e.j) THEN Throw
                           ELSE Upd(e.d, OverwriteAt(c, e.j, Range0(c, e.i, e.n)))
    [] e.op = "ins"     -> IF ~PosOK(c, e.i) THEN Throw
                           ELSE UpdRet(e.d, InsertAt(c, e.i, <<e.x>>), IF e.m \in {"it", "itmv"} THEN e.i ELSE 0)
    [] e.op = "insown"  -> IF ~PosOK(c, e.i) THEN Throw
                           ELSE Upd(e.d, InsertAt(c, e.i, <<c[e.j + 1]>>))
    [] e.op = "insseq"  -> IF e.n = 0 THEN Same ELSE IF ~PosOK(c, e.i) THEN Throw
                           ELSE Upd(e.d, InsertAt(c, e.i, UseN(V(st, e.s), e.n)))
    [] e.op = "insseqmv" -> IF e.n = 0 THEN Out(E0, {e.s}, {}, "", 0)
                            ELSE IF ~PosOK(c, e.i) THEN Out(E0, {e.s} \ {e.d}, {}, "range", 0)
                            ELSE UpdMay(e.d, InsertAt(c, e.i, UseN(V(st, e.s), e.n)), e.s)
    [] e.op = "insrange" -> UpdRet(e.d, InsertAt(c, e.i, e.v), e.i)
    [] e.op = "inslit"  -> IF e.n = 0 THEN Same ELSE IF ~PosOK(c, e.i) THEN Throw
                           ELSE Upd(e.d, InsertAt(c, e.i, CLit(e.v, e.n)))
    [] e.op = "repl"    -> IF ~PosOK(c, e.i) THEN Throw ELSE Upd(e.d, OverwriteAt(c, e.i, <<e.x>>))
    [] e.op = "replown" -> IF ~PosOK(c, e.i) THEN Throw ELSE Upd(e.d, OverwriteAt(c, e.i, <<c[e.j + 1]>>))
    [] e.op = "replseq" -> IF e.n = 0 THEN Same ELSE IF ~PosOK(c, e.i) THEN Throw
                           ELSE Upd(e.d, OverwriteAt(c, e.i, UseN(V(st, e.s), e.n)))
    [] e.op = "replseqmv" -> IF e.n = 0 THEN Out(E0, {e.s}, {}, "", 0)
                             ELSE IF ~PosOK(c, e.i) THEN Out(E0, {e.s} \ {e.d}, {}, "range", 0)
                             ELSE UpdMay(e.d, OverwriteAt(c, e.i, UseN(V(st, e.s), e.n)), e.s)
    [] e.op = "repllit" -> IF e.n = 0 THEN Same ELSE IF ~PosOK(c, e.i) THEN Throw
                           ELSE Upd(e.d, OverwriteAt(c, e.i, CLit(e.v, e.n)))
    [] e.op = "set"     -> Upd(e.d, SetAt(c, e.i, e.x))
    [] e.op = "setfrom" -> Upd(e.d, SetAt(c, e.i, V(st, e.s)[e.j + 1]))
    [] e.op = "popb"    -> Upd(e.d, Take(c, Len(c) - 1))
    [] e.op = "elapp"   -> Upd(e.d, SetAt(c, e.i, c[e.i + 1] \o e.w))

(* ------------------------- slicing in place ---------------------------- *)
SliceOps == {"slice", "sliceasg", "sliceasgsl", "sliceasgmv", "dropf", "dropb", "postinc", "postdec"}
ExpSlice(e, st) ==
  LET c == V(st, e.d)
      sl == UseN(V(st, e.s), IF e.j < -1 THEN -1 ELSE e.j)
  IN
  CASE e.op = "slice"   -> Upd(e.d, SliceOf(c, e.i, e.j))
    [] e.op = "sliceasg" -> IF e.j = 0 THEN Same ELSE IF ~PosOK(c, e.i) THEN Throw
                            ELSE Upd(e.d, OverwriteAt(c, e.i, sl))
    (* d(i, j) = s(x, n): a slice assigned to a slice *)
    [] e.op = "sliceasgsl" -> IF e.j = 0 THEN Same ELSE IF ~PosOK(c, e.i) THEN Throw
                            ELSE Upd(e.d, OverwriteAt(c, e.i, UseN(SliceOf(V(st, e.s), e.x, e.n), IF e.j < -1 THEN -1 ELSE e.j)))
    [] e.op = "sliceasgmv" -> IF e.j = 0 THEN Out(E0, {e.s}, {}, "", 0)
                              ELSE IF ~PosOK(c, e.i) THEN Out(E0, {e.s} \ {e.d}, {}, "range", 0)
                              ELSE UpdMay(e.d, OverwriteAt(c, e.i, sl), e.s)
    [] e.op = "dropf"   -> Upd(e.d, DropFront(c, e.n))
    [] e.op = "dropb"   -> Upd(e.d, DropBack(c, e.n))
    (* strings: x++ yields the old string; arrays: the removed element *)
    [] e.op = "postinc" -> UpdRet(e.d, DropFront(c, 1), IF e.m = "S" THEN c ELSE Take(c, 1))
    [] e.op = "postdec" -> UpdRet(e.d, DropBack(c, 1), IF e.m = "S" THEN c ELSE <<LastN(c)>>)

(* ------------------------- stack and queue ----------------------------- *)
QueueOps == {"shift", "pop", "unshift", "push"}
ExpQueue(e, st) ==
  LET c == V(st, e.d) IN
  CASE e.op = "shift"   -> UpdRet(e.d, Tail(c), c[1])
    [] e.op = "pop"     -> UpdRet(e.d, Take(c, Len(c) - 1), LastN(c))
    [] e.op = "unshift" -> Upd(e.d, <<e.x>> \o c)
    [] e.op = "push"    -> Upd(e.d, Append(c, e.x))

(* --------------------------- reading ----------------------------------- *)
ReadOps == {"at", "idx", "iter", "riter", "len", "empty", "find", "rfind", "eq", "hashf",
            "cmp", "cmpc", "rel", "relc", "eqn", "tfirst", "tlast", "tinc", "tdec", "fsub", "rfsub", "ifsub", "rifsub",
            "cstr", "dup", "copyout", "stdstr", "ostream",
            "split", "sub", "subst", "chompc", "trimc", "rep", "plus", "join", "printf", "fmt"}
TempOf(e, c) == IF e.m = "copy" THEN c ELSE SliceOf(c, e.i, e.j)
ExpRead(e, st) ==
  LET c == V(st, e.d) IN
  CASE e.op = "at"    -> IF IndexOK(c, e.i) THEN Ret(c[e.i + 1]) ELSE Throw
    [] e.op = "idx"   -> Ret(c[e.i + 1])
    [] e.op = "iter"  -> Ret(c)
    [] e.op = "riter" -> Ret(ReverseSeq(c))
    [] e.op = "len"   -> Ret(Len(c))
    [] e.op = "empty" -> Ret(B01(c = << >>))
    [] e.op = "find"  -> IF ~PosOK(c, e.i) THEN Throw ELSE Ret(FindItem(c, e.x, e.i))
    [] e.op = "rfind" -> Ret(RFindItem(c, e.x))
    [] e.op = "eq"    -> Ret(B01(c = V(st, e.s)))
    [] e.op = "hashf" -> Ret(<<1, B01(c = V(st, e.s))>>)
    [] e.op = "cmp"   -> Ret(LexCmpN(c, V(st, e.s), e.n))
    [] e.op = "cmpc"  -> Ret(LexCmpN(c, CStrOf(e.v), e.n))
    [] e.op = "rel"   -> Ret(Rel6(LexCmp(c, V(st, e.s))))
    [] e.op = "relc"  -> Ret(Rel6(LexCmp(c, CStrOf(e.v))))
    (* arrays: equal lengths and equal first n elements *)
    [] e.op = "eqn"   -> Ret(B01(Len(c) = Len(V(st, e.s)) /\ UseN(c, e.n) = UseN(V(st, e.s), e.n)))
    (* taking from a temporary copy or subarray *)
    [] e.op = "tfirst" -> Ret(TempOf(e, c)[1])
    [] e.op = "tlast" -> Ret(LastN(TempOf(e, c)))
    [] e.op = "tinc"  -> Ret(Take(TempOf(e, c), 1))
    [] e.op = "tdec"  -> Ret(<<LastN(TempOf(e, c))>>)
    [] e.op = "fsub"  -> IF ~PosOK(c, e.i) THEN Throw ELSE Ret(FindSub(c, V(st, e.s), e.i))
    [] e.op = "rfsub" -> Ret(RFindSub(c, V(st, e.s), e.i))
    [] e.op = "ifsub" -> Ret(IFind(c, V(st, e.s)))
    [] e.op = "rifsub" -> Ret(RIFind(c, V(st, e.s), e.i))
    [] e.op = "cstr"  -> Ret(Append(c, 0))
    [] e.op = "dup"   -> Ret(Append(c, 0))
    (* copy out at most n (-1: all): copied bytes, then 3 guard bytes *)
    [] e.op = "copyout" -> Ret(UseN(c, e.n) \o <<170, 170, 170>>)
    [] e.op = "stdstr"  -> Ret(c)
    [] e.op = "ostream" -> Ret(c)
    [] e.op = "split" -> Ret(Split(c, V(st, e.s), e.n))
    [] e.op = "sub"   -> Ret(SubstAll(c, e.v, e.w, e.n))
    [] e.op = "subst" -> Ret(CHOOSE r \in SubstSet(c, {e.kv[k] : k \in 1 .. Len(e.kv)}) :
                               e.ret \in SubstSet(c, {e.kv[k] : k \in 1 .. Len(e.kv)}) => r = e.ret)
    [] e.op = "chompc" -> Ret(Chomp(c))
    [] e.op = "trimc" -> Ret(Trim(c))
    [] e.op = "rep"   -> Ret(Repeat(c, e.n))
    [] e.op = "plus"  -> Ret(c \o V(st, e.s))
    [] e.op = "join"  -> Ret(Join(c, e.w, e.n = 1))
    [] e.op = "printf" -> Ret(e.w \o CStrOf(c) \o e.w)
    [] e.op = "fmt"    -> Ret(FmtText(e.m, CStrOf(c), e.i, e.n))

(* ------------------- string operations that edit ----------------------- *)
TextOps == {"newsplit", "chomp", "trim", "rdword", "rdline", "newprintf"}
ExpText(e, st) ==
  LET c == V(st, e.d) IN
  CASE e.op = "newsplit" -> LET r == NewSplit(c, e.x) IN UpdRet(e.d, r.rest, r.tok)
    [] e.op = "chomp" -> Upd(e.d, Chomp(c))
    [] e.op = "trim"  -> Upd(e.d, Trim(c))
    [] e.op = "rdword" -> LET r == ReadWord(e.v) IN UpdRet(e.d, r.tok, << IF r.tok = << >> THEN 0 ELSE 1 >> \o r.rest)
    [] e.op = "rdline" -> LET r == ReadLine(e.v) IN UpdRet(e.d, r.tok, << IF e.v = << >> THEN 0 ELSE 1 >> \o r.rest)

AllOps == LifeOps \cup EditOps \cup SliceOps \cup QueueOps \cup ReadOps \cup TextOps

Exp(e, st) ==
  CASE e.op \in LifeOps  -> ExpLife(e, st)
    [] e.op \in EditOps  -> ExpEdit(e, st)
    [] e.op \in SliceOps -> ExpSlice(e, st)
    [] e.op \in QueueOps -> ExpQueue(e, st)
    [] e.op \in ReadOps  -> ExpRead(e, st)
    [] e.op \in TextOps  -> ExpText(e, st)

(* ----------------------------------------------------------------------- *)
(* Preconditions: calls outside them have no defined meaning and are never *)
(* made by the drivers (they answer "pre" exactly when Pre is false).      *)
UsesS == {"newcopy", "newmove", "newsub", "asg", "asgmove", "asgsub", "swap", "appseq", "appseqmv",
          "insseq", "insseqmv", "replseq", "replseqmv", "setfrom", "sliceasg", "sliceasgsl", "sliceasgmv", "eq",
          "hashf", "cmp", "rel", "eqn", "fsub", "rfsub", "ifsub", "rifsub", "split", "plus"}
NewOps == {"new", "newcap", "newlit", "newfill", "newcopy", "newmove", "newsub"}
CountOps == {"newcap", "newfill", "reserve", "resize", "resizef", "dropf", "dropb", "rep"}
Pre(e, st) ==
  /\ e.op \in UsesS => e.s \in DOMAIN st /\ IsLive(st, e.s)
  /\ e.op \in CountOps => e.n >= 0 /\ e.n <= 20000
  /\ IF e.op \in NewOps THEN ~IsLive(st, e.d)
     ELSE /\ IsLive(st, e.d)
          /\ LET L == Len(V(st, e.d)) IN
             /\ e.op \in {"appseqmv", "insseqmv", "replseqmv", "sliceasgmv"} => e.d # e.s
             /\ e.op \in {"idx", "set", "setfrom", "appown", "elapp"} => e.i >= 0 /\ e.i < L
             /\ e.op \in {"insown", "replown"} => e.j >= 0 /\ e.j < L
             /\ e.op = "setfrom" => e.j >= 0 /\ e.j < Len(V(st, e.s))
             /\ e.op \in {"shift", "pop", "popb", "postdec"} => L > 0
             /\ (e.op = "postinc" /\ e.m # "S") => L > 0
             /\ (e.op = "dropb" /\ e.m = "pre") => L > 0
             /\ e.op = "resize" => e.n <= L
             /\ (e.op = "insrange" \/ (e.op = "ins" /\ e.m \in {"it", "itmv"})) => e.i >= 0 /\ e.i <= L
             /\ e.op \in {"appself", "insself", "replself"} => e.i >= 0 /\ e.n >= 0 /\ e.i + e.n <= L
             /\ e.op \in {"split", "sub"} => e.n # 0 /\ e.n >= -1
             /\ e.op \in {"appseq", "appseqmv", "insseq", "insseqmv", "replseq", "replseqmv",
                           "applit", "inslit", "repllit", "cmp", "cmpc", "eqn", "copyout"} => e.n >= -1
             /\ e.op \in {"tfirst", "tlast", "tinc", "tdec"} => TempOf(e, V(st, e.d)) # << >>
             /\ e.op \in {"rfsub", "rifsub"} => e.i >= 0

(* The store after outcome r, for a fixed resolution of moved-from slots   *)
(* (emp: the moved-from slots that end up empty).                          *)
After(st, r, emp) ==
  [k \in DOMAIN st |->
     IF k \in DOMAIN r.upd THEN [l |-> 1, v |-> r.upd[k]]
     ELSE IF k \in r.del THEN [l |-> 0, v |-> << >>]
     ELSE IF k \in r.may /\ k \in emp THEN [l |-> 1, v |-> << >>]
     ELSE [l |-> st[k].l, v |-> st[k].v]]
=============================================================================
