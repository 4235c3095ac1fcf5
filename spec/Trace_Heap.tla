----------------------------- MODULE Trace_Heap -----------------------------
(* Validates recorded runs against Heap: which samples are still there once *)
(* everything has settled, and what the audio side did meanwhile.           *)
EXTENDS Heap, Json, IOUtils
VARIABLES tid, l, s, bad

Traces == ndJsonDeserialize(IOEnv.TRACES)
Has(e, f) == f \in DOMAIN e

Step(e) ==
  CASE e.op = "change" -> IF e.res = "ok" THEN Change(s, e.cells) ELSE s
    [] e.op = "clear"  -> Clear(s)
    [] e.op = "smp"    -> SetSample(s, e.n, e.k)
    [] e.op = "nosmp"  -> SetSample(s, e.n, 0)
    [] e.op = "mod"    -> SetMod(s, e.p, e.a # -999)
    [] e.op = "dyn"    -> SetFun(s, e.i, e.k)
    [] e.op \in {"upd", "held"} -> Update(s)
    [] e.op = "settle" -> Settled(s)
    [] OTHER           -> s

Bads(e, t) ==
  (IF Has(e, "rt") /\ e.rt[1] # 0 THEN {"takes"} ELSE {})
  \cup (IF Has(e, "rt") /\ e.rt[2] # 0 THEN {"frees"} ELSE {})
  \cup (IF Has(e, "rt") /\ e.rt[3] # 0 THEN {"writes"} ELSE {})
  \cup (IF Has(e, "waits") /\ e.waits # 0 THEN {"waits"} ELSE {})
  \cup (IF e.op # "settle" THEN {} ELSE
         (IF Rng(e.smp) = Live(t) THEN {} ELSE {"live"})
         \cup (IF FunsOk(t, Rng(e.funs)) THEN {} ELSE {"funs"}))

Init == tid \in 1..Len(Traces) /\ l = 0 /\ bad = {} /\ s = InitHeap
Next == /\ bad = {}
        /\ l < Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l + 1] IN
             IF Has(e, "panic") THEN s' = s /\ bad' = {"panic"}
             ELSE s' = Step(e) /\ bad' = Bads(e, s')
        /\ l' = l + 1
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l, s, bad>>
Ok == bad = {} \/ PrintT(<<"BAD", tid, l, bad>>)
=============================================================================
