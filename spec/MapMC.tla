------------------------------- MODULE MapMC -------------------------------
(***************************************************************************)
(* All histories of a few small tables: the laws a map must obey, checked  *)
(* for every reachable state and call, and the source of the behaviours    *)
(* replayed into bd::HashTable (every state x call, after a shortest       *)
(* history).                                                               *)
(***************************************************************************)
EXTENDS MapSpec, Json
CONSTANTS NT, MaxDepth, Vars, Emit, Bug
VARIABLES st, hist, last
vars == << st, hist, last >>
Keys == {<< 97 >>, << 98 >>}
Vals == {<< >>, << 120 >>}
TS == 1 .. NT
XS == IF Vars THEN {1} ELSE {}              \* the program's own key and value variables
Ev(op, d) == [op |-> op, d |-> d]
Calls == UNION {
   {Ev(op, d) : op \in {"new", "newcap", "del", "clear", "size", "empty"}}
   \cup {Ev(op, d) @@ [s |-> s] : op \in {"newcopy", "newmove", "asg", "asgmove", "swap"}, s \in TS}
   \cup {Ev(op, d) @@ [k |-> k] : op \in {"idx", "cidx", "get", "contains", "remove", "find"}, k \in Keys}
   \cup {Ev(op, d) @@ [k |-> k, v |-> v] : op \in {"ins", "idxset", "findset"}, k \in Keys, v \in Vals}
   \cup {Ev(op, d) @@ [k |-> k, k2 |-> j] : op \in {"insval", "idxval"}, k \in Keys, j \in Keys}
   \cup {Ev(op, d) @@ [k2 |-> k] : op \in {"rmself", "vtake"}, k \in Keys}
   \cup {Ev(op, d) @@ [kvar |-> x] : x \in XS, op \in {"getvar", "hasvar", "rmvar"}}
   \cup {Ev(op, d) @@ [kvar |-> x, vvar |-> x, m |-> m] : x \in XS, op \in {"insvar", "idxvar"}, m \in {0, 2}}
   \cup {Ev("asglist", d) @@ [ks |-> l[1], vs |-> l[2]] : l \in {<< << >>, << >> >>, << << << 97 >>, << 97 >> >>, << << >>, << 120 >> >> >>}}
   : d \in TS}
  \cup {Ev("kset", 1) @@ [kvar |-> x, k |-> k] : x \in XS, k \in Keys}
  \cup {Ev("vset", 1) @@ [vvar |-> x, v |-> << 120 >>] : x \in XS}
  \cup UNION {{Ev("kmut", 1) @@ [kvar |-> x, v |-> << 98 >>, m |-> 1], Ev("vmut", 1) @@ [vvar |-> x, v |-> << 121 >>, m |-> 1], Ev("vmut", 1) @@ [vvar |-> x, v |-> << 121 >>, m |-> 2]} : x \in XS}
   (* (kmut and vmut lengthen or empty: bounded by ShortVars) *)
ShortVars(s) == \A k \in 1 .. 3 : Len(s.kv[k]) <= 2 /\ Len(s.vv[k]) <= 2

(* what was moved from is empty here (the implementation may keep it) *)
Settle(r) == [t |-> [k \in 1 .. 3 |-> IF k \in r.mt /\ r.st.t[k].l = 1 THEN [l |-> 1, m |-> EmptyMap] ELSE r.st.t[k]],
              kv |-> [k \in 1 .. 3 |-> IF k \in r.mk THEN << >> ELSE r.st.kv[k]],
              vv |-> [k \in 1 .. 3 |-> IF k \in r.mv THEN << >> ELSE r.st.vv[k]]]
Broken(e, r) == IF Bug = "alias" /\ e.op = "newcopy" THEN r
                ELSE IF Bug = "alias" /\ e.op = "idxset" THEN [r EXCEPT !.st.t = [k \in 1 .. 3 |-> IF r.st.t[k].l = 1 THEN r.st.t[e.d] ELSE r.st.t[k]]]
                ELSE IF Bug = "const-inserts" /\ e.op = "cidx" THEN [r EXCEPT !.st = SetM(st, e.d, Put(M(st, e.d), e.k, Get(M(st, e.d), e.k)))]
                ELSE IF Bug = "overwrite" /\ e.op = "ins" THEN [r EXCEPT !.st = SetM(st, e.d, Put(M(st, e.d), e.k, e.v))]
                ELSE r
Init == /\ st = [t |-> [k \in 1 .. 3 |-> [l |-> 0, m |-> EmptyMap]], kv |-> [k \in 1 .. 3 |-> << >>], vv |-> [k \in 1 .. 3 |-> << >>]]
        /\ hist = << >> /\ last = [e |-> Ev("none", 1), ret |-> 0]
Next == /\ Len(hist) < MaxDepth
        /\ \E e \in Calls :
             /\ Pre(e, st)
             /\ LET r == Broken(e, Exp(e, st)) IN st' = Settle(r) /\ last' = [e |-> e, ret |-> r.ret]
             /\ ShortVars(st')
             /\ hist' = Append(hist, e)
             /\ Emit => PrintT("BEH" \o ToJson(hist'))
Spec == Init /\ [][Next]_vars

(* ---- laws ------------------------------------------------------------------ *)
Size(s, d) == Cardinality(DOMAIN s.t[d].m)
Written(e) == {e.d} \cup (IF e.op \in {"newmove", "asgmove", "swap"} THEN {e.s} ELSE {})
Reads == {"cidx", "get", "contains", "find", "size", "empty", "getvar", "hasvar"}
Laws == [][LET e == last'.e r == last'.ret IN
   /\ \A k \in 1 .. 3 \ Written(e) : st'.t[k] = st.t[k]                     \* tables are independent
   /\ e.op \in Reads => st' = st                                            \* reading inserts nothing
   /\ e.op \in {"kset", "vset", "kmut", "vmut"} => st'.t = st.t             \* nor do the program's variables matter later
   /\ e.op = "ins" => /\ Has(M(st', e.d), e.k)
                      /\ r = 1 <=> Size(st', e.d) = Size(st, e.d) + 1
                      /\ r = 0 => st' = st
                      /\ r = 1 => M(st', e.d)[e.k] = e.v
   /\ e.op = "remove" => /\ ~Has(M(st', e.d), e.k)
                         /\ r = 1 <=> Size(st', e.d) = Size(st, e.d) - 1
                         /\ \A k \in DOMAIN M(st, e.d) \ {e.k} : M(st', e.d)[k] = M(st, e.d)[k]
   /\ e.op = "idxset" => M(st', e.d) = Put(M(st, e.d), e.k, e.v)
   /\ e.op \in {"newcopy", "asg"} => M(st', e.d) = M(st, e.s)
   /\ e.op \in {"newmove", "asgmove"} => M(st', e.d) = (IF e.d = e.s THEN EmptyMap ELSE M(st, e.s))]_vars
View == st
=============================================================================
