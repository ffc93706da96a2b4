------------------------------ MODULE AtomicMC ------------------------------
(***************************************************************************)
(* Design model of AtomicFile: one client, every interleaving of API calls,*)
(* a possible failure of every system call and a crash at every instant.   *)
(* Checked exhaustively; its behaviours are also printed (Emit) as call    *)
(* sequences with fault positions and replayed into the real code.         *)
(***************************************************************************)
EXTENDS AtomicSpec
CONSTANTS MaxCalls, MaxFaults, UseSync, ChmodFirst
VARIABLES dir,      \* names: "t" target, "tmp" temporary -> inode (0: none)
          ino,      \* inode -> [v, mode]
          syn,      \* inode -> <<v, mode>> on stable storage
          pc, st,   \* st: "closed" | "open"
          want, data, old, res, faults, hist, k, crashed
vars == <<dir, ino, syn, pc, st, want, data, old, res, faults, hist, k, crashed>>

Modes == {-1, 420}
Eff(m) == IF m = -1 THEN 384 ELSE m
NewIno == Cardinality(DOMAIN ino) + 1

Init == /\ dir = [t |-> 1, tmp |-> 0]
        /\ ino = (1 :> [v |-> <<0>>, mode |-> 416])
        /\ syn = (1 :> <<<<0>>, 416>>)
        /\ pc = "idle" /\ st = "closed" /\ want = -1 /\ data = << >> /\ old = 1
        /\ res = "none" /\ faults = 0 /\ hist = << >> /\ k = 0 /\ crashed = FALSE

Call(name, next) == /\ pc = "idle" /\ ~crashed /\ Len(hist) < MaxCalls
                    /\ pc' = next /\ hist' = Append(hist, <<name, 0>>) /\ k' = 0
(* a system call: numbered within the API call, may fail *)
Fail == /\ faults < MaxFaults /\ faults' = faults + 1
        /\ hist' = [hist EXCEPT ![Len(hist)][2] = k + 1] /\ k' = k + 1
Okay == faults' = faults /\ hist' = hist /\ k' = k + 1
Ret(r) == pc' = "idle" /\ res' = r

(* ---- API calls --------------------------------------------------------- *)
OpenCall == \E m \in Modes : /\ Call(IF m = -1 THEN "open" ELSE "openm", IF st = "open" THEN "o_unlink" ELSE "o_mkstemp") /\ want' = m /\ old' = dir.t
                             /\ UNCHANGED <<dir, ino, syn, st, data, res, faults, crashed>>
WriteCall == /\ st = "open" /\ Len(data) < 2 /\ Call("write", "idle")
             /\ data' = Append(data, Len(data) + 1)
             /\ ino' = [ino EXCEPT ![dir.tmp].v = data']
             /\ UNCHANGED <<dir, syn, st, want, old, res, faults, crashed>>
CommitCall == /\ Call("commit", IF st # "open" THEN "ret_false" ELSE IF want # -1 /\ ChmodFirst THEN "c_chmod" ELSE "c_fsync")
              /\ UNCHANGED <<dir, ino, syn, st, want, data, old, res, faults, crashed>>
AbortCall == \E n \in {"abort", "del"} :
              /\ Call(n, IF st = "open" THEN "a_unlink" ELSE "ret_false")
              /\ UNCHANGED <<dir, ino, syn, st, want, data, old, res, faults, crashed>>
RetFalse == pc = "ret_false" /\ Ret("notopen") /\ UNCHANGED <<dir, ino, syn, st, want, data, old, faults, hist, k, crashed>>

(* ---- system calls of open ---------------------------------------------- *)
Unlinked == [dir EXCEPT !.tmp = 0]
OUnlink == pc = "o_unlink" /\ pc' = "o_close" /\ dir' = Unlinked /\ UNCHANGED <<ino, syn, st, want, data, old, res, faults, hist, k, crashed>>
OClose == /\ pc = "o_close" /\ (Okay \/ Fail) /\ pc' = "o_mkstemp" /\ st' = "closed"
          /\ UNCHANGED <<dir, ino, syn, want, data, old, res, crashed>>
OMkstemp == /\ pc = "o_mkstemp"
            /\ \/ Okay /\ dir' = [dir EXCEPT !.tmp = NewIno] /\ ino' = (NewIno :> [v |-> << >>, mode |-> 384]) @@ ino
                  /\ st' = "open" /\ data' = << >> /\ old' = dir.t /\ Ret("true")
               \/ Fail /\ st' = "closed" /\ Ret("false") /\ UNCHANGED <<dir, ino, data, old>>
            /\ UNCHANGED <<syn, want, crashed>>
(* ---- system calls of commit -------------------------------------------- *)
CChmod == /\ pc = "c_chmod"
          /\ \/ Okay /\ ino' = [ino EXCEPT ![dir.tmp].mode = want] /\ pc' = IF ChmodFirst THEN "c_fsync" ELSE "c_close"
             \/ Fail /\ pc' = "f_unlink" /\ UNCHANGED ino
          /\ UNCHANGED <<dir, syn, st, want, data, old, res, crashed>>
CFsync == /\ pc = "c_fsync"
          /\ \/ Okay /\ syn' = (IF UseSync THEN (dir.tmp :> <<ino[dir.tmp].v, ino[dir.tmp].mode>>) @@ syn ELSE syn)
                /\ pc' = IF want # -1 /\ ~ChmodFirst THEN "c_chmod" ELSE "c_close"
             \/ Fail /\ pc' = "f_unlink" /\ UNCHANGED syn
          /\ UNCHANGED <<dir, ino, st, want, data, old, res, crashed>>
CClose == /\ pc = "c_close"
          /\ \/ Okay /\ pc' = "c_rename"
             \/ Fail /\ pc' = "f_unlink"
          /\ st' = "closed"
          /\ UNCHANGED <<dir, ino, syn, want, data, old, res, crashed>>
CRename == /\ pc = "c_rename"
           /\ \/ Okay /\ dir' = [t |-> dir.tmp, tmp |-> 0] /\ Ret("true")
              \/ Fail /\ pc' = "f_unlink" /\ UNCHANGED <<dir, res>>
           /\ UNCHANGED <<ino, syn, st, want, data, old, crashed>>
FUnlink == pc = "f_unlink" /\ dir' = Unlinked /\ pc' = "f_close" /\ UNCHANGED <<ino, syn, st, want, data, old, res, faults, hist, k, crashed>>
FClose == /\ pc = "f_close" /\ st' = "closed" /\ Ret("false")
          /\ IF st = "open" THEN Okay \/ Fail ELSE UNCHANGED <<faults, hist, k>>
          /\ UNCHANGED <<dir, ino, syn, want, data, old, crashed>>
(* ---- abort -------------------------------------------------------------- *)
AUnlink == pc = "a_unlink" /\ dir' = Unlinked /\ pc' = "a_close" /\ UNCHANGED <<ino, syn, st, want, data, old, res, faults, hist, k, crashed>>
AClose == /\ pc = "a_close" /\ (Okay \/ Fail) /\ st' = "closed" /\ Ret("aborted")
          /\ UNCHANGED <<dir, ino, syn, want, data, old, crashed>>
(* ---- crash: unsynced contents are lost ---------------------------------- *)
Crash == /\ ~crashed /\ crashed' = TRUE
         /\ ino' = [i \in DOMAIN ino |-> IF i \in DOMAIN syn THEN [v |-> syn[i][1], mode |-> syn[i][2]] ELSE [v |-> << >>, mode |-> 384]]
         /\ \E d \in {dir, [dir EXCEPT !.t = old]} : dir' = d
         /\ pc' = "crashed"
         /\ UNCHANGED <<syn, st, want, data, old, res, faults, hist, k>>

Next == OpenCall \/ WriteCall \/ CommitCall \/ AbortCall \/ RetFalse \/ OUnlink \/ OClose \/ OMkstemp \/ CChmod \/ CFsync
        \/ CClose \/ CRename \/ FUnlink \/ FClose \/ AUnlink \/ AClose \/ Crash
Spec == Init /\ [][Next]_vars

(* ---- properties ---------------------------------------------------------- *)
Entry(d) == [e |-> 1, ino |-> d.t, v |-> ino[d.t].v, mode |-> ino[d.t].mode]
(* C17 *)
AllOrNothing == \/ dir.t = old
                \/ ino[dir.t].v = data /\ ino[dir.t].mode = Eff(want)
(* the old file itself is never modified *)
OldKept == ino[1] = [v |-> <<0>>, mode |-> 416]
(* C18 *)
NoTrace == (pc = "idle" /\ st = "closed" /\ ~crashed) => dir.tmp = 0
FailureReported == (pc = "idle" /\ hist # << >> /\ hist[Len(hist)][1] = "commit" /\ res = "false" /\ ~crashed /\ dir.t # old) => FALSE
Success == (pc = "idle" /\ hist # << >> /\ hist[Len(hist)][1] = "commit" /\ res = "true") => ino[dir.t].v = data /\ dir.t # old

(* ---- behaviours for replay ----------------------------------------------- *)
Emit == (pc = "idle" /\ ~crashed /\ Len(hist) = MaxCalls) => PrintT(<<"BEH", hist>>)
NoCrash == ~crashed
=============================================================================
