---------------------------- MODULE MC_SaveFile -----------------------------
(* The saving algorithm (write a second file, then rename it) over a file   *)
(* system, stopped or failing at any step: it refines SaveFile's atomic save.*)
EXTENDS SaveFile
CONSTANTS Size, MaxVer
VARIABLES tgt, tmp, pc, new, res, left
vars == <<tgt, tmp, pc, new, res, left>>
\* a file: [ver, len, ok]; complete if len = Size(ver) and nothing of another version remains in it
NoFile == [ver |-> None, len |-> 0]
Len_(v) == IF v % 2 = 0 THEN Size ELSE 1
Complete(f) == f.ver >= 0 /\ f.len = Len_(f.ver)
Content(f) == IF f.ver = None THEN None ELSE IF Complete(f) THEN f.ver ELSE Broken

Init == tgt = NoFile /\ tmp = NoFile /\ pc = "idle" /\ new = 0 /\ res = "-" /\ left = 0
Start == pc = "idle" /\ new < MaxVer /\ new' = new + 1 /\ pc' = "open" /\ res' = "-" /\ left' = Len_(new + 1) /\ UNCHANGED <<tgt, tmp>>
Open == pc = "open" /\ tmp' = [ver |-> new, len |-> 0] /\ pc' = "write" /\ UNCHANGED <<tgt, new, res, left>>
Write == pc = "write" /\ left > 0 /\ \E n \in 1..left : tmp' = [tmp EXCEPT !.len = @ + n] /\ left' = left - n
         /\ UNCHANGED <<tgt, new, res, pc>>
Rename == pc = "write" /\ left = 0 /\ tgt' = tmp /\ tmp' = NoFile /\ pc' = "idle" /\ res' = "ok" /\ UNCHANGED <<new, left>>
Stop(r) == pc # "idle" /\ pc' = "idle" /\ res' = r /\ UNCHANGED <<tgt, tmp, new, left>>
Next == Start \/ Open \/ Write \/ Rename \/ Stop("err") \/ Stop("crashed")
Spec == Init /\ [][Next]_vars

NeverBroken == Content(tgt) # Broken
OkMeansNew == res = "ok" => Content(tgt) = new
\* every step leaves the file as it is or publishes the new version
Atomic == [][Content(tgt') \in {Content(tgt), new}]_vars
=============================================================================
