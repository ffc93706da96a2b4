------------------------------ MODULE MapSpec ------------------------------
(***************************************************************************)
(* bdlib's HashTable as an abstract machine: a store of tables, each a     *)
(* finite map from keys to values, plus key and value variables of the     *)
(* program.  Nothing is shared: tables own their keys and values.          *)
(* Keys and values are byte sequences (integers are written base 256,      *)
(* arrays of one-character strings as the characters).                     *)
(***************************************************************************)
EXTENDS SeqOps, TLC

EmptyMap == [x \in {} |-> << >>]
Put(m, k, v) == (k :> v) @@ m
Del(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
Has(m, k) == k \in DOMAIN m
Get(m, k) == IF Has(m, k) THEN m[k] ELSE << >>
RECURSIVE FromPairs(_, _)
(* first occurrence of a key wins, as for an initializer list *)
FromPairs(ks, vs) == IF ks = << >> THEN EmptyMap
                     ELSE Put(FromPairs(Tail(ks), Tail(vs)), Head(ks), Head(vs))

BulkKey(i) == << 75, 1 + (i \div 200), 1 + (i % 200) >>
BulkKeys(a, b) == {BulkKey(i) : i \in a .. b - 1}
B01(b) == IF b THEN 1 ELSE 0
Mutate(s, b, m) == IF m = 0 THEN s \o b ELSE IF s = << >> THEN s
                   ELSE IF m = 1 THEN SetAt(s, 0, b[1]) ELSE Tail(s)

(* ---- outcome of event e in state st = [t, kv, vv] ---------------------- *)
(* t : slot -> [l, m]; result record: new t/kv/vv, ret, and the variables   *)
(* and tables that were moved from (contents old or empty afterwards)       *)
R(st, ret) == [st |-> st, ret |-> ret, mt |-> {}, mk |-> {}, mv |-> {}]
SetM(st, d, m) == [st EXCEPT !.t[d] = [l |-> 1, m |-> m]]
M(st, d) == st.t[d].m

Insert(st, d, k, v) == IF Has(M(st, d), k) THEN R(st, 0) ELSE R(SetM(st, d, Put(M(st, d), k, v)), 1)

Exp(e, st) ==
  CASE e.op = "new" \/ e.op = "newcap" -> R(SetM(st, e.d, EmptyMap), 0)
    [] e.op = "newcopy" \/ e.op = "asg" -> R(SetM(st, e.d, M(st, e.s)), 0)
    [] e.op = "newmove" \/ e.op = "asgmove" ->
         IF e.d = e.s THEN [R(st, 0) EXCEPT !.mt = {e.d}]
         ELSE [R(SetM(st, e.d, M(st, e.s)), 0) EXCEPT !.mt = {e.s}]
    [] e.op = "newlist" \/ e.op = "asglist" -> R(SetM(st, e.d, FromPairs(e.ks, e.vs)), 0)
    [] e.op = "del" -> R([st EXCEPT !.t[e.d] = [l |-> 0, m |-> EmptyMap]], 0)
    [] e.op = "swap" -> R([st EXCEPT !.t[e.d] = st.t[e.s], !.t[e.s] = st.t[e.d]], 0)
    [] e.op = "clear" -> R(SetM(st, e.d, EmptyMap), 0)
    [] e.op = "ins" -> Insert(st, e.d, e.k, e.v)
    [] e.op = "insvar" ->
         LET r == Insert(st, e.d, st.kv[e.kvar], st.vv[e.vvar]) IN
         [r EXCEPT !.mk = IF e.m \in {1, 3} THEN {e.kvar} ELSE {}, !.mv = IF e.m \in {2, 3} THEN {e.vvar} ELSE {}]
    [] e.op = "insval" -> Insert(st, e.d, e.k, M(st, e.d)[e.k2])
    [] e.op = "idxval" -> R(SetM(st, e.d, Put(M(st, e.d), e.k, M(st, e.d)[e.k2])), 0)
    [] e.op = "idxvar" -> [R(SetM(st, e.d, Put(M(st, e.d), st.kv[e.kvar], st.vv[e.vvar])), 0) EXCEPT !.mv = IF e.m = 2 THEN {e.vvar} ELSE {}]
    [] e.op = "idxset" -> R(SetM(st, e.d, Put(M(st, e.d), e.k, e.v)), 0)
    [] e.op = "idx" -> R(SetM(st, e.d, Put(M(st, e.d), e.k, Get(M(st, e.d), e.k))), Get(M(st, e.d), e.k))
    [] e.op = "cidx" \/ e.op = "get" -> R(st, Get(M(st, e.d), e.k))
    [] e.op = "getvar" -> R(st, Get(M(st, e.d), st.kv[e.kvar]))
    [] e.op = "contains" -> R(st, B01(Has(M(st, e.d), e.k)))
    [] e.op = "hasvar" -> R(st, B01(Has(M(st, e.d), st.kv[e.kvar])))
    [] e.op = "remove" -> R(SetM(st, e.d, Del(M(st, e.d), e.k)), B01(Has(M(st, e.d), e.k)))
    [] e.op = "rmvar" -> R(SetM(st, e.d, Del(M(st, e.d), st.kv[e.kvar])), B01(Has(M(st, e.d), st.kv[e.kvar])))
    [] e.op = "rmself" -> R(SetM(st, e.d, Del(M(st, e.d), e.k2)), 1)
    [] e.op = "find" -> R(st, IF Has(M(st, e.d), e.k) THEN << e.k, M(st, e.d)[e.k] >> ELSE << >>)
    [] e.op = "findset" -> R(SetM(st, e.d, Put(M(st, e.d), e.k, e.v)), 0)
    [] e.op = "vtake" -> R([st EXCEPT !.vv[1] = M(st, e.d)[e.k2]], 0)
    [] e.op = "size" -> R(st, Cardinality(DOMAIN M(st, e.d)))
    [] e.op = "empty" -> R(st, IF DOMAIN M(st, e.d) = {} THEN 2 ELSE 1)
    [] e.op = "bulkins" ->
         LET new == BulkKeys(e.a, e.b) \ DOMAIN M(st, e.d)
         IN R(SetM(st, e.d, [k \in DOMAIN M(st, e.d) \cup new |-> IF k \in new THEN Tail(k) ELSE M(st, e.d)[k]]), Cardinality(new))
    [] e.op = "bulkdel" ->
         LET old == BulkKeys(e.a, e.b) \cap DOMAIN M(st, e.d)
         IN R(SetM(st, e.d, [k \in DOMAIN M(st, e.d) \ old |-> M(st, e.d)[k]]), Cardinality(old))
    [] e.op = "kset" -> R([st EXCEPT !.kv[e.kvar] = e.k], 0)
    [] e.op = "vset" -> R([st EXCEPT !.vv[e.vvar] = e.v], 0)
    [] e.op = "kmut" -> R([st EXCEPT !.kv[e.kvar] = Mutate(@, e.v, e.m)], 0)
    [] e.op = "vmut" -> R([st EXCEPT !.vv[e.vvar] = Mutate(@, e.v, e.m)], 0)

Live(st, k) == k \in 1 .. 3 /\ st.t[k].l = 1
Pre(e, st) ==
  CASE e.op \in {"new", "newcap", "newlist"} -> ~Live(st, e.d)
    [] e.op \in {"newcopy", "newmove"} -> ~Live(st, e.d) /\ Live(st, e.s)
    [] e.op \in {"asg", "asgmove", "swap"} -> Live(st, e.d) /\ Live(st, e.s)
    [] e.op \in {"kset", "vset", "kmut", "vmut"} -> TRUE
    [] e.op \in {"insval", "idxval", "rmself", "vtake"} -> Live(st, e.d) /\ Has(M(st, e.d), e.k2)
    [] e.op = "findset" -> Live(st, e.d) /\ Has(M(st, e.d), e.k)
    [] OTHER -> Live(st, e.d)
=============================================================================
