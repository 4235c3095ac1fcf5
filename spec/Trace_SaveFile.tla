--------------------------- MODULE Trace_SaveFile ---------------------------
(* Validates recorded save/crash/load histories against SaveFile.          *)
EXTENDS SaveFile, Json, IOUtils
VARIABLES tid, l, s, bad
Traces == ndJsonDeserialize(IOEnv.TRACES)
Has(e, f) == f \in DOMAIN e
Rng(q) == {q[j] : j \in DOMAIN q}

Step(e) ==
  CASE e.op = "edit" -> Edit(s, e.v)
    [] e.op = "save" -> Saved(s, e.f, e.st)
    [] e.op = "load" -> Loaded(s, e.f)
    [] OTHER -> s

\* the injected fault really happened
Hit(e) == e.fault # "none" /\ Len(e.log) >= e.k

Bad(t, e) ==
  IF Has(e, "panic") THEN {"panic"}
  ELSE IF e.op = "save" THEN
         (IF Seen(s, e.f, [j \in 1..Len(e.log) |-> e.log[j][3]]) THEN {} ELSE {"exposed"})
    \cup (IF e.st \in Outcomes(s, e.f, e.res) THEN {} ELSE {"outcome"})
    \cup (IF ~Hit(e) /\ e.res = "err" THEN {"refused"} ELSE {})
    \cup (IF e.fault = "short" /\ e.res # "ok" THEN {"refused"} ELSE {})
  ELSE IF e.op = "load" THEN
         (IF e.res = (IF Disk(s, e.f) >= 0 THEN "ok" ELSE "err") THEN {} ELSE {"load"})
    \cup (IF e.ver = t.ver THEN {} ELSE {"loaded"})
  ELSE IF e.op = "ls" THEN
         (IF \A x \in Rng(e.is) : x[2] = Disk(s, x[1]) THEN {} ELSE {"disk"})
  ELSE {}

Init == /\ tid \in 1..Len(Traces) /\ l = 0 /\ bad = {} /\ s = InitSave

Next ==
  /\ bad = {}
  /\ l < Len(Traces[tid].ev)
  /\ LET e == Traces[tid].ev[l + 1] IN
       /\ s' = IF Has(e, "panic") THEN s ELSE Step(e)
       /\ bad' = Bad(s', e)
  /\ l' = l + 1
  /\ UNCHANGED tid

Spec == Init /\ [][Next]_<<tid, l, s, bad>>
Ok == bad = {} \/ PrintT(<<"BAD", tid, l, bad>>)
=============================================================================
