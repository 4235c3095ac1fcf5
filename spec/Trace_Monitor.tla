--------------------------- MODULE Trace_Monitor ---------------------------
(* Validates what the monitor showed against what the nodes received and    *)
(* produced.                                                                *)
EXTENDS Json, IOUtils, Integers, Sequences, FiniteSets, TLC
M == INSTANCE Monitor WITH PointLen <- 900, Shown <- 160
VARIABLES tid, l, cells, at, sg, ln, seen, loose, bad
vars == <<tid, l, cells, at, sg, ln, seen, loose, bad>>
Traces == ndJsonDeserialize(IOEnv.TRACES)
Has(e, f) == f \in DOMAIN e

Cell(e) == [n |-> e.n, i |-> e.i, o |-> e.o]
SignalsAt(c, p) == IF p \in DOMAIN c THEN M!Signals(c[p]) ELSE M!NoSignals
RunsOf(e, s) == LET J == {j \in DOMAIN e.seen : e.seen[j][1] = s[1] /\ e.seen[j][2] = s[2] /\ e.seen[j][3] = s[3]} IN
                IF J = {} THEN <<>> ELSE e.seen[CHOOSE j \in J : TRUE][4]
Fed(e) == [k \in 1..6 |-> IF sg[k] = M!None THEN ln[k] ELSE M!FeedRuns(ln[k], RunsOf(e, sg[k]))]

\* states the reader may be shown: not older than the one before
Fits(e, k) == {n \in seen[k]..Len(ln[k].pts) : e.shown[k] = M!View(ln[k].pts, n)}
Least(S) == CHOOSE n \in S : \A m \in S : n <= m
Bad(e) ==
  IF Has(e, "panic") THEN {"panic"}
  ELSE IF loose THEN (IF e.op # "calm" THEN {}
                      ELSE IF \A j \in DOMAIN e.ports : e.shown[e.ports[j] + 1][160] = <<e.v, e.v>> THEN {} ELSE {"again"})
  ELSE IF e.op = "sync" /\ e.res # "ok" THEN {"sync"}
  ELSE IF e.op \in {"play", "drip"} /\ \E k \in 1..6 : sg[k] # M!None /\ RunsOf(e, sg[k]) = <<>> THEN {"silent"}
  ELSE IF e.op = "peek" THEN (IF \A k \in 1..6 : Fits(e, k) # {} THEN {} ELSE {"shown"})
  ELSE IF e.op = "settle" THEN (IF \A k \in 1..6 : e.shown[k] = M!View(ln[k].pts, Len(ln[k].pts)) THEN {}
                                ELSE IF \A k \in 1..6 : Fits(e, k) # {} THEN {"late"} ELSE {"shown"})
  ELSE {}

Trim(x) == IF Len(x.pts) > 160 THEN [x EXCEPT !.pts = SubSeq(x.pts, Len(x.pts) - 159, Len(x.pts))] ELSE x
Without(c, p) == [q \in DOMAIN c \ {p} |-> c[q]]
Init == /\ tid \in 1..Len(Traces) /\ l = 0 /\ bad = {} /\ cells = <<>> /\ at = <<0, 0>> /\ sg = M!NoSignals
        /\ ln = [k \in 1..6 |-> M!NoLine] /\ seen = [k \in 1..6 |-> 0] /\ loose = FALSE
Next ==
  /\ bad = {} /\ l < Len(Traces[tid].ev)
  /\ LET e == Traces[tid].ev[l + 1] B == Bad(e) go == B = {} IN
       /\ bad' = B
       /\ cells' = CASE e.op = "set" -> (<<e.x, e.y>> :> Cell(e)) @@ cells
                     [] e.op = "del" -> Without(cells, <<e.x, e.y>>)
                     [] e.op = "clear" -> <<>>
                     [] OTHER -> cells
       /\ at' = CASE e.op = "mon" -> <<e.x, e.y>> [] e.op = "clear" -> <<0, 0>> [] OTHER -> at
       /\ sg' = CASE e.op \in {"mon", "sync", "clear"} -> SignalsAt(cells', at') [] OTHER -> sg
       /\ ln' = IF ~go \/ loose THEN ln
                ELSE IF e.op \in {"play", "drip"} THEN Fed(e)
                ELSE IF e.op = "settle" THEN [k \in 1..6 |-> Trim(ln[k])] ELSE ln
       /\ seen' = IF ~go \/ loose THEN seen
                  ELSE IF e.op = "peek" THEN [k \in 1..6 |-> Least(Fits(e, k))]
                  ELSE IF e.op = "settle" THEN [k \in 1..6 |-> M!Min(160, Len(ln[k].pts))]
                  ELSE seen
       /\ loose' = (loose \/ e.op = "storm")
  /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
Ok == bad = {} \/ PrintT(<<"BAD", tid, l, bad>>)
=============================================================================
