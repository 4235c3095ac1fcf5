------------------------------ MODULE MC_Synth -------------------------------
(* Explores the SynthConstructor over small descriptions.                   *)
EXTENDS Synth
CONSTANTS Depth
VARIABLES s, n, last

R(k) == <<"rust1x1", k>>
OneOp == {<<"set", 1, 1024>>, <<"mod", 1, 0, 8>>, <<"in", 1, 1, 0>>, <<"in", 1, 2, 0>>, <<"in", 0, 2, 1>>, <<"set", 9, 0>>}
Descr == {<<[n |-> R(a), ops |-> <<p>>], [n |-> R(b), ops |-> q]>> : a \in 0..1, b \in 0..1, p \in OneOp, q \in {<<>>} \cup {<<o>> : o \in OneOp}}

Init == s = InitSynth(8000) /\ n = 0 /\ last = [k |-> "init"]
Next ==
  /\ n < Depth /\ n' = n + 1
  /\ \/ \E D \in Descr : s' = Upload(s, D, 1) /\ last' = [k |-> "upload", d |-> D]
     \/ \E D \in Descr : s' = Update1(s, D, 1) /\ last' = [k |-> "params", d |-> D]
     \/ s' = ClearSynth(s) /\ last' = [k |-> "clear"]
     \/ s' = Update(s) /\ last' = [k |-> "upd"]
     \/ s' = Block(s, 128) /\ last' = [k |-> "blk"]
Spec == Init /\ [][Next]_<<s, n, last>>
View == <<[s EXCEPT !.blk = 0, !.up = 0, !.run.id = 0, !.led = <<>>, !.lver = <<>>, !.q = [j \in DOMAIN @ |-> IF @[j].k = "prog" THEN [@[j] EXCEPT !.p.id = 0] ELSE @[j]]], n>>

Inv ==
  /\ RunSound(s)
  /\ Converged(s)
  /\ ~HasCycle(s.g.nodes, WireSet(s.g))
  \* every known amount and value is what the descriptions asked for
  /\ \A k \in DOMAIN s.g.pv : k \in DOMAIN s.pv /\ s.pv[k] = s.g.pv[k]
  /\ \A k \in DOMAIN s.g.ma : s.g.ma[k] = (IF k \in DOMAIN s.ma THEN s.ma[k] ELSE NoAmt)

\* two-state properties, checked on every transition
Step ==
  /\ last'.k \in {"upload", "params"} => (Errors(s, last'.d, 1) # {} => s' = s)
  /\ last'.k \in {"upd", "blk"} => s'.g = s.g /\ s'.pv = s.pv
  /\ last'.k \notin {"upd", "blk"} => s'.run = s.run /\ s'.ps = s.ps
Steps == [][Step]_<<s, n, last>>
=============================================================================
