----------------------------- MODULE Trace_Midi -----------------------------
(* Validates recorded executions of the MIDI nodes against Midi.            *)
EXTENDS Midi, Json, IOUtils
VARIABLES tid, l, s, bad

Traces == ndJsonDeserialize(IOEnv.TRACES)
Has(e, f) == f \in DOMAIN e

Step(e) ==
  CASE e.op = "inject" -> [s |-> Inject(s, e.ev)]
    [] e.op = "setp"   -> [s |-> SetCfg(s, "p", e.i, 0, e.v)]
    [] e.op = "setc"   -> [s |-> SetCfg(s, "c", e.i, e.k, e.v)]
    [] e.op = "upd"    -> [s |-> Upd(s)]
    [] e.op = "host"   -> Host(s, e.evs, e.n)
    [] e.op = "events" -> [s |-> [s EXCEPT !.rep = <<>>]]

\* starts of runs
Starts(n, same(_, _)) == {f \in 0..(n - 1) : f = 0 \/ ~same(f - 1, f)}
Near(note, det, v) == Abs(120 * v - (note - 69) * 4096 - 120 * det) <= 130
SigOk(o, S) == {o[j][1] : j \in DOMAIN o} = S
PBad(o, R, det, n) ==
  LET G(f) == R[f + 1].open  N(f) == R[f + 1].note  V(f) == R[f + 1].vel IN
     (IF /\ SigOk(o[2], Starts(n, LAMBDA a, b : G(a) = G(b)))
         /\ \A j \in DOMAIN o[2] : o[2][j][2] = (IF G(o[2][j][1]) THEN 4096 ELSE 0) THEN {} ELSE {"gate"})
  \cup (IF /\ SigOk(o[1], Starts(n, LAMBDA a, b : N(a) = N(b)))
           /\ \A j \in DOMAIN o[1] : Near(N(o[1][j][1]), det, o[1][j][2]) THEN {} ELSE {"pitch"})
  \cup (IF /\ SigOk(o[3], Starts(n, LAMBDA a, b : V(a) = V(b)))
           /\ \A j \in DOMAIN o[3] : o[3][j][2] = V(o[3][j][1]) THEN {} ELSE {"vel"})
CBad(o, R, n) ==
  IF \A k \in 1..3 : \A f \in 1..n : Abs(o[k][f] - R[f].cur[k]) <= 2 THEN {} ELSE {"cc"}

QueryBad(r, e) ==
  CASE e.op = "host" ->
         UNION {PBad(e.p[k], r.P[k], Traces[tid].cfg.p[k].det, e.n) : k \in DOMAIN r.P}
         \cup UNION {CBad(e.c[k], r.C[k], e.n) : k \in DOMAIN r.C}
         \cup (IF /\ \A k \in DOMAIN e.ledp : e.ledp[k] = (IF r.s.led.p[k] THEN 4096 ELSE 0)
                  /\ \A k \in DOMAIN e.ledc : e.ledc[k] = (IF r.s.led.c[k] THEN 4096 ELSE 0) THEN {} ELSE {"led"})
    [] e.op = "events" -> IF e.got = s.rep THEN {} ELSE {"report"}
    [] OTHER -> {}

Init == /\ tid \in 1..Len(Traces)
        /\ l = 0 /\ bad = {}
        /\ s = LET c == Traces[tid].cfg IN
               InitMidi([k \in DOMAIN c.p |-> [mode |-> c.p[k].mode, chan |-> c.p[k].chan, glen |-> c.p[k].glen, tlen |-> c.tlen]],
                        [k \in DOMAIN c.c |-> [chan |-> c.c[k].chan, ccs |-> c.c[k].ccs, step |-> c.c[k].step]])
Next == /\ bad = {}
        /\ l < Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l + 1] IN
             IF Has(e, "panic") THEN s' = s /\ bad' = {"panic"}
             ELSE LET r == Step(e) IN s' = r.s /\ bad' = QueryBad(r, e)
        /\ l' = l + 1
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l, s, bad>>
Ok == bad = {} \/ PrintT(<<"BAD", tid, l, bad>>)
=============================================================================
