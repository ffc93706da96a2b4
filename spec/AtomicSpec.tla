----------------------------- MODULE AtomicSpec -----------------------------
(***************************************************************************)
(* bdlib's AtomicFile over a file system that can fail and crash.          *)
(* Shared by the design model (AtomicMC) and the trace check (AtomicTrace).*)
(*                                                                         *)
(* A file entry is [e, ino, v, mode].  "synced" maps an inode to the       *)
(* contents and mode that are on stable storage; what is not there may be  *)
(* lost by a crash.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Synced(synced, i, v, m) == i \in DOMAIN synced /\ synced[i] = <<v, m>>

(* What the target may be at any instant: untouched, or the complete new   *)
(* file, in a form that survives a crash.                                  *)
TargetOK(t, old, new, mode, synced) ==
  \/ t = old
  \/ t.e = 1 /\ t.v = new /\ t.mode = mode /\ t.ino # old.ino /\ Synced(synced, t.ino, t.v, t.mode)

(* After a crash: the name refers to what it refers to now or did before   *)
(* (the renames since the last directory sync may be lost), and the file's *)
(* contents are what was synced.                                           *)
CrashOK(t, old, new, mode, synced) ==
  t = old \/ (t.ino \in DOMAIN synced /\ synced[t.ino] = <<new, mode>>)
=============================================================================
