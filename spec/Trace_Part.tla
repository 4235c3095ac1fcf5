----------------------------- MODULE Trace_Part -----------------------------
(* Validates recorded runs of nodes, divided into blocks differently.       *)
EXTENDS Part, Json, IOUtils, TLC
VARIABLES tid, l, s, bad

Traces == ndJsonDeserialize(IOEnv.TRACES)
Has(e, f) == f \in DOMAIN e

Step(e) ==
  CASE e.op = "blk"    -> Block(s, e.n, e.out)
    [] e.op = "fresh"  -> Fresh(s)
    [] e.op = "scopes" -> Shows(s, e.scope)
    [] e.op = "set"    -> s

\* what the audio side does besides processing (see Heap)
Aside(e) ==
  IF ~Has(e, "rt") THEN {}
  ELSE (IF e.rt[1] # 0 THEN {"takes"} ELSE {}) \cup (IF e.rt[2] # 0 THEN {"frees"} ELSE {})
       \cup (IF e.rt[3] # 0 THEN {"writes"} ELSE {})

QueryBad(e) ==
  CASE e.op = "blk" ->
         (IF e.fin = 1 THEN {} ELSE {"finite"})
         \cup (IF \A k \in DOMAIN e.out : Len(e.out[k]) = e.n THEN {} ELSE {"len"})
         \cup (IF Agrees(s, e.n, e.out) THEN {} ELSE {"divide"})
    [] e.op = "scopes" -> IF ShowsSame(s, e.scope) THEN {} ELSE {"shown"}
    [] OTHER -> {}

Init == tid \in 1..Len(Traces) /\ l = 0 /\ bad = {} /\ s = InitPart
Next == /\ bad = {}
        /\ l < Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l + 1] IN
             IF Has(e, "panic") THEN s' = s /\ bad' = {"panic"}
             ELSE s' = Step(e) /\ bad' = QueryBad(e) \cup Aside(e)
        /\ l' = l + 1
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l, s, bad>>
Ok == bad = {} \/ PrintT(<<"BAD", tid, l, bad>>)
=============================================================================
