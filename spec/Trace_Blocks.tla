---------------------------- MODULE Trace_Blocks ----------------------------
(* Validates recorded edits and runs of block diagrams.                     *)
EXTENDS Blocks, Json, IOUtils
VARIABLES tid, l, d, seen, prog, dirty, pv, st, bad
vars == <<tid, l, d, seen, prog, dirty, pv, st, bad>>
Traces == ndJsonDeserialize(IOEnv.TRACES)
Has(e, f) == f \in DOMAIN e
Rng(q) == {q[j] : j \in DOMAIN q}

Blk(r) == [x |-> r.x, y |-> r.y, id |-> r.id, typ |-> r.typ, lbl |-> r.lbl, rows |-> r.rows, ins |-> r.ins, outs |-> r.outs, c |-> r.c]
Obs(e) == [a \in 0..(Len(e.areas) - 1) |-> {Blk(e.areas[a + 1][j]) : j \in DOMAIN e.areas[a + 1]}]
Count(e) == LET RECURSIVE C(_) C(a) == IF a = 0 THEN 0 ELSE Len(e.areas[a]) + C(a - 1) IN C(Len(e.areas))

\* identities the implementation chose for new blocks: read off the observation
NewAt(o, a, x, y) == LET S == IF a \in DOMAIN o THEN {b \in o[a] : b.x = x /\ b.y = y} ELSE {} IN IF S = {} THEN [id |-> -2, c |-> <<-1, -1>>] ELSE The(S)
Res(e, o) ==
  CASE e.op = "put" -> LET n == NewAt(o, e.a, e.x, e.y) IN {Put(d, e.a, e.x, e.y, e.typ, e.lbl, n.id, n.c)}
    [] e.op = "rm" -> {Remove(d, e.a, e.x, e.y)}
    [] e.op = "shift" -> {ShiftPort(d, e.a, e.x, e.y, e.row, e.out)}
    [] e.op = "mv" -> {Move(d, e.a, e.x, e.y, e.a2, e.x2, e.y2)}
    [] e.op = "cl" -> LET yy == IF e.a \in DOMAIN d /\ At(d[e.a], e.x, e.y) # {} THEN DropY(The(At(d[e.a], e.x, e.y)), e.y, e.y2) ELSE e.y2
                          n == NewAt(o, e.a2, e.x2, yy)
                      IN {Clone(d, e.a, e.x, e.y, e.a2, e.x2, e.y2, n.id, n.c)}
    [] e.op = "mvc" -> MoveChainResults(d, e.a, e.x, e.y, e.a2, e.x2, e.y2)
    [] e.op = "split" -> {Split(d, e.a, e.x, e.y, e.fill,
                               [p \in {<<e.x + 1, w>> : w \in -30..60} |-> NewAt(o, e.a, p[1], p[2]).id],
                               [p \in {<<e.x + 1, w>> : w \in -30..60} |-> NewAt(o, e.a, p[1], p[2]).c])}
    [] OTHER -> {Done(d)}

\* same diagram; areas nobody refers to may be left over
Same(o, w) == /\ DOMAIN w \subseteq DOMAIN o
              /\ \A a \in DOMAIN w : o[a] = w[a]
              /\ \A a \in DOMAIN o \ DOMAIN w : o[a] = {}
FreshOk(o) == (Ids(o) \ Ids(d)) \cap seen = {}

EditBad(e) ==
  LET o == Obs(e) R == Res(e, o) IN
  (IF \E r \in R : Same(o, r.d) THEN {}
   ELSE IF \A r \in R : r.res # "ok" THEN {"refused"} ELSE {"edit"})
  \cup (IF \E r \in R : (r.res = "ok") = (e.res = "ok") THEN {} ELSE {"res"}) \* why it is refused is not prescribed
  \cup (IF Same(o, d) \/ e.gen THEN {} ELSE {"gen"})
  \cup (IF Sound(o) /\ Count(e) = LET RECURSIVE C(_) C(S) == IF S = {} THEN 0 ELSE LET a == The(S) IN Cardinality(o[a]) + C(S \ {a}) IN C(DOMAIN o) THEN {} ELSE {"sound"})
  \cup (IF FreshOk(o) THEN {} ELSE {"fresh"})

LookBad(e) ==
  LET o == Obs(e)
      Want(p) == LET S == IF p[1] \in DOMAIN d THEN At(d[p[1]], p[2], p[3]) ELSE {} IN
                 IF S = {} THEN <<0>>
                 ELSE LET b == The(S) IN <<1, b.x, b.y, b.rows, b.lbl, [j \in 1..b.rows |-> b.ins[j] # "~"], [j \in 1..b.rows |-> b.outs[j] # "~"], b.c[1], b.c[2]>>
      Reach == {0} \cup UNION {AreasIn(d, b) : b \in d[0]}
  IN (IF Same(o, d) THEN {} ELSE {"edit"})
     \cup (IF \A j \in DOMAIN e.at : e.got[j] = Want(e.at[j]) THEN {} ELSE {"view"})
     \cup (IF \A a \in Reach : \A c \in CellsOf(d[a]) : c[1] < e.sizes[a + 1][1] /\ c[2] < e.sizes[a + 1][2] THEN {} ELSE {"size"})
     \cup (IF e.tree = TreeText(d) THEN {} ELSE {"tree"})

CheckBad(e) == IF e.res = "ok" THEN (IF Compiles(d) \/ ~dirty THEN {} ELSE {"accept"})
               ELSE (IF Compiles(d) THEN {"compile"} ELSE {})

Prog == IF 0 \in DOMAIN prog THEN prog[0] ELSE {}
RECURSIVE Runs(_, _, _, _)
Runs(e, j, p, s) == IF j > Len(e.got) THEN [bad |-> {}, pv |-> p, st |-> s]
  ELSE LET r == RunOnce(Prog, p, s, e["in"]) IN
       IF \E k \in 1..3 : Known(r.out[k]) /\ r.out[k] # e.got[j][k] THEN [bad |-> {"run"}, pv |-> p, st |-> s]
       ELSE Runs(e, j + 1, r.pv, r.st)

IsEdit(e) == Has(e, "areas") /\ e.op # "look"
Bad(e) ==
  IF Has(e, "panic") THEN {"panic"}
  ELSE IF e.op = "look" THEN LookBad(e)
  ELSE IF IsEdit(e) THEN EditBad(e)
  ELSE IF e.op = "check" THEN CheckBad(e)
  ELSE IF e.op = "run" THEN Runs(e, 1, pv, st).bad
  ELSE {}

Init == /\ tid \in 1..Len(Traces) /\ l = 0 /\ bad = {} /\ d = (0 :> {}) /\ seen = {0} /\ prog = (0 :> {}) /\ dirty = FALSE
        /\ pv = [k \in Persistent |-> 0] /\ st = <<>>
Next ==
  /\ bad = {} /\ l < Len(Traces[tid].ev)
  /\ LET e == Traces[tid].ev[l + 1] B == Bad(e) go == B = {} IN
       /\ bad' = B
       /\ d' = IF go /\ IsEdit(e) THEN Obs(e) ELSE d
       /\ seen' = IF go /\ IsEdit(e) THEN seen \cup Ids(Obs(e)) ELSE seen
       /\ dirty' = IF ~go THEN dirty
                   ELSE IF IsEdit(e) THEN dirty \/ e.op = "snap" \/ ~Same(Obs(e), d)
                   ELSE IF e.op = "check" THEN FALSE
                   ELSE IF e.op = "backend" THEN dirty ELSE dirty
       /\ LET take == go /\ e.op = "check" /\ e.res = "ok" /\ Compiles(d) /\ l < 100000 IN
          /\ prog' = IF go /\ e.op = "backend" THEN (0 :> {})
                     ELSE IF take THEN d ELSE prog
          /\ st' = IF go /\ e.op = "backend" THEN <<>>
                   ELSE IF take THEN [i \in {b.id : b \in d[0]} |-> IF i \in {b.id : b \in Prog} THEN Look(st, i) ELSE IF prog = (0 :> {}) /\ Traces[tid].cfg.be THEN Unknown ELSE 0]
                   ELSE IF go /\ e.op = "run" THEN Runs(e, 1, pv, st).st ELSE st
       /\ pv' = IF go /\ e.op = "backend" THEN [k \in Persistent |-> Unknown]
                ELSE IF go /\ e.op = "run" THEN Runs(e, 1, pv, st).pv ELSE pv
  /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
Ok == bad = {} \/ PrintT(<<"BAD", tid, l, bad>>)
=============================================================================
