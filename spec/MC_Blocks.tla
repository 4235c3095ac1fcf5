----------------------------- MODULE MC_Blocks ------------------------------
(* Every history of edits of a small diagram keeps it sound and loses or    *)
(* invents nothing but what was asked for.                                  *)
EXTENDS Blocks
CONSTANTS Depth, W, H, TypeSet
VARIABLES d, n, last
P == (0..W) \X (0..H)
NewId(D) == IF Ids(D) = {} THEN 1 ELSE 1 + CHOOSE i \in Ids(D) : \A j \in Ids(D) : j <= i
NewSub(D) == LET m == Cardinality(DOMAIN D) IN <<m, m + 1>>
Fill(D, x) == LET m == Cardinality(DOMAIN D) IN
  [id |-> [p \in {<<x + 1, w>> : w \in -5..(H + 5)} |-> 1000 * n + p[2] + 100],
   sub |-> [p \in {<<x + 1, w>> : w \in -5..(H + 5)} |-> <<m + 2 * (p[2] + 5), m + 2 * (p[2] + 5) + 1>>]]
Results ==
     {[op |-> "put", r |-> Put(d, a, p[1], p[2], t, "", NewId(d), NewSub(d))] : a \in DOMAIN d, p \in P, t \in TypeSet}
  \cup {[op |-> "rm", r |-> Remove(d, a, p[1], p[2])] : a \in DOMAIN d, p \in P}
  \cup {[op |-> "keep", r |-> ShiftPort(d, a, p[1], p[2], row, o)] : a \in DOMAIN d, p \in P, row \in 0..2, o \in BOOLEAN}
  \cup {[op |-> "keep", r |-> Move(d, a, p[1], p[2], a2, q[1], q[2])] : a \in DOMAIN d, p \in P, a2 \in DOMAIN d, q \in P}
  \cup {[op |-> "put", r |-> Clone(d, a, p[1], p[2], a2, q[1], q[2], NewId(d), NewSub(d))] : a \in DOMAIN d, p \in P, a2 \in DOMAIN d, q \in P}
  \cup UNION {{[op |-> "keep", r |-> r] : r \in MoveChainResults(d, a, p[1], p[2], a2, q[1], q[2])} : a \in DOMAIN d, p \in P, a2 \in DOMAIN d, q \in P}
  \cup {LET f == Fill(d, p[1]) IN [op |-> "split", r |-> Split(d, a, p[1], p[2], t, f.id, f.sub)] : a \in DOMAIN d, p \in P, t \in {"", "->", "->2"}}
Init == d = (0 :> {}) /\ n = 0 /\ last = [op |-> "init", kept |-> TRUE]
Next == /\ n < Depth
        /\ \E e \in Results :
             /\ d' = e.r.d /\ n' = n + 1
             /\ last' = [op |-> e.op,
                         kept |-> CASE e.r.res # "ok" -> e.r.d = d
                                    [] e.op = "put" -> Ids(d) \subseteq Ids(e.r.d) /\ Cardinality(Ids(e.r.d)) = Cardinality(Ids(d)) + 1
                                    [] e.op = "rm" -> Ids(e.r.d) \subseteq Ids(d) /\ Cardinality(Ids(e.r.d)) = Cardinality(Ids(d)) - 1
                                    [] e.op = "split" -> Ids(d) \subseteq Ids(e.r.d)
                                    [] OTHER -> Ids(e.r.d) = Ids(d)]
Spec == Init /\ [][Next]_<<d, n, last>>
\* every reachable diagram has a tree and runs without leaving the definitions
Total == Len(TreeText(d)) > 0 /\ (Compiles(d) => Len(RunOnce(d[0], [k \in Persistent |-> 0], <<>>, <<1, 2, 3, 4, 5, 6>>).out) = 3)
Inv == Sound(d) /\ last.kept /\ Total
=============================================================================
