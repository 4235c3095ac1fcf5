--------------------------- MODULE Trace_Tracker ---------------------------
(* Validates recorded tracker executions.  What has been transmitted is    *)
(* only determined once everything was exchanged ("settle").               *)
EXTENDS Tracker, Json, IOUtils
VARIABLES tid, l, p, bad
Traces == ndJsonDeserialize(IOEnv.TRACES)
Has(e, f) == f \in DOMAIN e
Rng(q) == {q[j] : j \in DOMAIN q}
Abs(x) == IF x < 0 THEN -x ELSE x

RECURSIVE PutAll(_, _, _)
PutAll(q, cs, j) == IF j > Len(cs) THEN q ELSE PutAll(SetCell(q, cs[j][1], cs[j][2], cs[j][3]), cs, j + 1)

Step(e) ==
  CASE e.op = "set"  -> SetCell(p, e.r, e.c, e.v)
    [] e.op = "clr"  -> ClrCell(p, e.r, e.c)
    [] e.op = "chg"  -> ChgCell(p, e.r, e.c, e.v)
    [] e.op = "type" -> SetType(p, e.c, e.t)
    [] e.op = "rows" -> SetRows(p, e.n)
    [] e.op = "load" -> PutAll(SetRows([types |-> [c \in Cols |-> e.types[c + 1]], cells |-> <<>>, rows |-> 0], e.n), e.cells, 1)
    [] OTHER -> p

Tol == 40
Near(x, S) == \E v \in S : Abs(x - v) <= Tol
\* the readout was taken at phases of a pattern with e.rows rows
SettleBad(e) ==
  IF p.rows = 0 \/ e.rows # p.rows THEN {}
  ELSE UNION { { LET w == Play(p, c, q.r, q.s) IN
                 IF w.known /\ ~Near(q.v[c + 1], w.v) THEN p.types[c]
                 ELSE IF q.g[c + 1] # w.g THEN "gateout" ELSE "ok" : c \in Cols } : q \in Rng(e.got) } \ {"ok"}

CellsBad(e) ==
  (IF \A q \in Rng(e.got) :
        LET set == <<q[1], q[2]>> \in DOMAIN p.cells IN
        /\ q[4] = CellVal(p, q[1], q[2])
        /\ q[3] = IF set THEN p.cells[<<q[1], q[2]>>] ELSE -1
   THEN {} ELSE {"cells"})
  \cup (IF e.rows = p.rows THEN {} ELSE {"rows"})
  \cup (IF \A c \in Cols : e.types[c + 1] = p.types[c] THEN {} ELSE {"types"})

Bad(e) ==
  IF Has(e, "panic") THEN {"panic"}
  ELSE IF e.op = "settle" THEN SettleBad(e)
  ELSE IF e.op = "cells" THEN CellsBad(e) ELSE {}

Init == tid \in 1..Len(Traces) /\ l = 0 /\ bad = {} /\ p = InitPat
Next ==
  /\ bad = {} /\ l < Len(Traces[tid].ev)
  /\ LET e == Traces[tid].ev[l + 1] IN
       /\ p' = IF Has(e, "panic") THEN p ELSE Step(e)
       /\ bad' = Bad(e)
  /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l, p, bad>>
Ok == bad = {} \/ PrintT(<<"BAD", tid, l, bad>>)
=============================================================================
