---------------------------- MODULE Trace_Synth -----------------------------
(* Validates recorded executions of the SynthConstructor against Synth.     *)
EXTENDS Synth, Json, IOUtils
VARIABLES tid, l, s, bad

Traces == ndJsonDeserialize(IOEnv.TRACES)
Has(e, f) == f \in DOMAIN e
\* builder nodes are numbered from 0 in the scripts
Lift(D) == [j \in DOMAIN D |-> [n |-> D[j].n, ops |-> [k \in DOMAIN D[j].ops |->
             LET o == D[j].ops[k] IN IF o[1] = "in" THEN <<o[1], o[2], o[3] + 1, o[4]>> ELSE o]]]

Cur(e) ==
  IF e.op = "blk" /\ ClearPending(s)
  THEN [s EXCEPT !.rver = [i \in DOMAIN @ |->
          IF \E c \in Rng(e.calls) : c.i = i /\ c.v = s.ver[i] THEN s.ver[i] ELSE @[i]]]
  ELSE s

Step(e) ==
  CASE e.op = "upload" -> Upload(s, Lift(e.d), e.root + 1)
    [] e.op = "params" -> Update1(s, Lift(e.d), e.root + 1)
    [] e.op = "clear"  -> ClearSynth(s)
    [] e.op = "dyn"    -> SetDyn(s, e.i, e.v)
    [] e.op = "upd"    -> Update(s)
    [] e.op = "blk"    -> Block(Cur(e), e.n)
    [] OTHER           -> s

QueryBad(t, e) ==
  CASE e.op = "blk" -> BlockMis(s, Cur(e), t, e)
    [] e.op = "upload" ->
         LET E == Errors(s, Lift(e.d), e.root + 1) IN
         IF E = {} THEN (IF e.res = "ok" THEN {} ELSE {"refused"})
         ELSE IF e.res \in E THEN {} ELSE {"accepted"}
    [] e.op = "params" ->
         LET D == Lift(e.d)  r == e.root + 1
             E == Errors(s, D, r) IN
         IF E # {} THEN (IF e.res \in E THEN {} ELSE {"accepted"})
         ELSE IF e.res \notin {"ok", "new"} THEN {"refused"}
         ELSE IF (e.res = "new") # Reuploads(s, D, r) THEN {"reupload"} ELSE {}
    [] e.op = "led" ->
         IF \A x \in Rng(e.leds) : x[1] \in LedLive(s) => x[2] = s.led[x[1]] /\ x[3] = s.led[x[1]] + 2048
         THEN {} ELSE {"led"}
    [] e.op = "fb" ->
         IF \A x \in Rng(e.fbs) : LET f == FbVal(s, <<x[1][1], x[1][2]>>, x[1][3]) IN f.known => x[2] = f.v
         THEN {} ELSE {"fb"}
    [] OTHER -> {}

Bad(t, e) == IF Has(e, "panic") THEN {"panic"}
             ELSE QueryBad(t, e) \cup (IF RunSound(t) /\ Converged(t) THEN {} ELSE {"model"})

Init == /\ tid \in 1..Len(Traces)
        /\ l = 0 /\ bad = {}
        /\ s = InitSynth(Traces[tid].cfg.sr)
Next == /\ bad = {}
        /\ l < Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l + 1] IN
             /\ s' = IF Has(e, "panic") THEN s ELSE Step(e)
             /\ bad' = Bad(s', e)
        /\ l' = l + 1
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l, s, bad>>
Ok == bad = {} \/ PrintT(<<"BAD", tid, l, bad>>)
=============================================================================
