------------------------------ MODULE SaveFile ------------------------------
(***************************************************************************)
(* Saving a patch to a file on a file system where the saving process may  *)
(* stop, or a file operation may fail, at any point.                       *)
(*                                                                         *)
(* disk: file |-> version it holds (None: no such file, Broken: anything   *)
(* that is not one complete saved patch).  A save takes several steps; the *)
(* steps write somewhere else, and one step publishes the new version.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == -1
Broken == -2
Ovr(f, k, v) == (k :> v) @@ f
Disk(s, f) == IF f \in DOMAIN s.disk THEN s.disk[f] ELSE None

InitSave == [disk |-> <<>>, ver |-> None]
Edit(s, v) == [s EXCEPT !.ver = v]

\* what a save that ended with r may leave behind
Outcomes(s, f, r) == CASE r = "ok" -> {s.ver}
                       [] OTHER -> {Disk(s, f), s.ver}
\* what may be seen in the file while saving: the old version, then the new one
Seen(s, f, seq) == \A j \in 1..Len(seq) :
                      /\ seq[j] \in {Disk(s, f), s.ver}
                      /\ j > 1 /\ seq[j - 1] = s.ver => seq[j] = s.ver
Saved(s, f, now) == [s EXCEPT !.disk = Ovr(@, f, now)]

Loaded(s, f) == IF Disk(s, f) >= 0 THEN [s EXCEPT !.ver = Disk(s, f)] ELSE s
=============================================================================
