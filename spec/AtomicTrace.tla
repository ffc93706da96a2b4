----------------------------- MODULE AtomicTrace -----------------------------
(***************************************************************************)
(* Trace validation of recorded executions of bd::AtomicFile.  Every API   *)
(* call carries the system calls the library made, each with the state of  *)
(* the directory right after it.  Conds: "crash" (C17: every instant) and  *)
(* "clean" (C18: outcome, leftovers, descriptors).                         *)
(***************************************************************************)
EXTENDS AtomicSpec, Json, IOUtils
CONSTANT Conds
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, l, fs, af, synced
vars == <<sid, l, fs, af, synced>>
Ev(s, k) == Sessions[s].ev[k]
NEv(s) == Len(Sessions[s].ev)
NoFile == [e |-> 0, ino |-> 0, v |-> << >>, mode |-> 0]
Closed == [open |-> 0, f |-> 0, mode |-> 0, data |-> << >>]
Files == 1 .. 10
Init == /\ sid \in 1 .. Len(Sessions) /\ l = 0
        /\ fs = [k \in Files |-> NoFile]
        /\ af = [k \in 1 .. 2 |-> Closed]
        /\ synced = << >>
Bad == {8, 9}           \* file numbers (1-based) whose open or commit cannot succeed: no directory / a directory

(* ---- the instants inside one API call ---------------------------------- *)
Sync(sy, s) == IF s.n \in {"fsync", "fdatasync"} /\ s.rc = 0 /\ s.ino # 0 THEN (s.ino :> <<s.iv, s.im>>) @@ sy ELSE sy
RECURSIVE SyncAfter(_, _)
SyncAfter(sy, q) == IF q = << >> THEN sy ELSE SyncAfter(Sync(sy, Head(q)), Tail(q))
(* the file the call is about; its entry may change only during commit *)
Subject(e) == af[e.d].f
InstantOK(e, s, sy) ==
  \A k \in Files :
     IF e.op = "commit" /\ af[e.d].open = 1 /\ k = Subject(e)
     THEN TargetOK(s.T[k], fs[k], af[e.d].data, af[e.d].mode, sy)
     ELSE s.T[k] = fs[k]
InstantsOK(e) == ("crash" \in Conds) =>
  \A i \in 1 .. Len(e.sys) : InstantOK(e, e.sys[i], SyncAfter(synced, SubSeq(e.sys, 1, i)))

(* ---- outcome of one API call ------------------------------------------- *)
Essential == {"mkstemp", "mkostemp", "open", "fchmod", "fsync", "fdatasync", "close", "rename"}
OpenFds(a) == a[1].open + a[2].open
ModeOf(e) == IF e.mode = -1 THEN 384 ELSE e.mode
Result(e) ==
  CASE e.op = "fset" -> [fs |-> [fs EXCEPT ![e.f + 1] = e.T[e.f + 1]], af |-> af, ret |-> {1}]
    [] e.op = "frm"  -> [fs |-> [fs EXCEPT ![e.f + 1] = NoFile], af |-> af, ret |-> {1}]
    [] e.op = "write" -> [fs |-> fs, af |-> [af EXCEPT ![e.d].data = @ \o e.v], ret |-> {1}]
    [] e.op = "isopen" -> [fs |-> fs, af |-> af, ret |-> {af[e.d].open}]
    [] e.op = "fd" -> [fs |-> fs, af |-> af, ret |-> {af[e.d].open}]
    [] e.op = "open" ->
        LET fails == e.f + 1 = 8 \/ e.hit \in {"mkstemp", "mkostemp", "open"}
            either == e.f + 1 = 10 \/ e.hit # ""
            ok == e.ret = 1
        IN [fs |-> fs, af |-> [af EXCEPT ![e.d] = IF ok THEN [open |-> 1, f |-> e.f + 1, mode |-> ModeOf(e), data |-> << >>] ELSE Closed],
            ret |-> IF fails THEN {0} ELSE IF either THEN {0, 1} ELSE {1}]
    [] e.op = "commit" ->
        IF af[e.d].open = 0 THEN [fs |-> fs, af |-> af, ret |-> {0}]
        ELSE LET fails == af[e.d].f = 9 \/ e.hit \in Essential
                 k == af[e.d].f
                 ok == e.ret = 1
             IN [fs |-> IF ok THEN [fs EXCEPT ![k] = [e |-> 1, ino |-> e.T[k].ino, v |-> af[e.d].data, mode |-> af[e.d].mode]] ELSE fs,
                 af |-> [af EXCEPT ![e.d] = Closed],
                 ret |-> IF fails THEN {0} ELSE IF e.hit # "" THEN {0, 1} ELSE {1}]
    [] e.op = "abort" -> [fs |-> fs, af |-> [af EXCEPT ![e.d] = Closed],
                          ret |-> IF e.hit # "" THEN {0, 1} ELSE {af[e.d].open}]
    [] e.op = "del" -> [fs |-> fs, af |-> [af EXCEPT ![e.d] = Closed], ret |-> {1}]

OutcomeOK(e, r) ==
  /\ e.err = ""
  /\ ("clean" \in Conds) =>
       /\ e.ret \in r.ret
       /\ \A k \in Files : e.T[k] = r.fs[k]
       /\ e.x = OpenFds(r.af)              \* one temporary per open file, none otherwise
       /\ e.fds = OpenFds(r.af)
       /\ e.op1 = r.af[1].open /\ e.op2 = r.af[2].open
  /\ ("crash" \in Conds) =>
       /\ \A k \in Files : e.T[k] = r.fs[k]
       /\ (e.op = "commit" /\ e.ret = 1) =>
             LET k == af[e.d].f IN Synced(SyncAfter(synced, e.sys), e.T[k].ino, e.T[k].v, e.T[k].mode)

Step == /\ l < NEv(sid)
        /\ LET e == Ev(sid, l + 1) IN
             IF e.err = "pre" THEN UNCHANGED <<fs, af, synced>>
             ELSE IF e.op = "end" THEN
               /\ e.err = ""
               /\ ("clean" \in Conds) => e.x = 0 /\ e.fds = 0
               /\ \A k \in Files : e.T[k] = fs[k]
               /\ UNCHANGED <<fs, af, synced>>
             ELSE LET r == Result(e) IN
               /\ e.err = ""
               /\ InstantsOK(e)
               /\ OutcomeOK(e, r)
               /\ fs' = e.T
               /\ af' = r.af
               /\ synced' = SyncAfter(synced, e.sys)
        /\ l' = l + 1 /\ UNCHANGED sid
Done == l = NEv(sid) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
