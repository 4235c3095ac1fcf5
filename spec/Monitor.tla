------------------------------ MODULE Monitor ------------------------------
(* The monitor shows the six signals of the monitored cell: three inputs   *)
(* and three outputs.  Every signal is reduced to points, each the least   *)
(* and the greatest value of PointLen consecutive samples; the last Shown  *)
(* points can be read at any time, the newest last.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS PointLen, Shown

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
NoAcc == [n |-> 0, lo |-> 0, hi |-> 0]
Grow(a, n, v) == IF a.n = 0 THEN [n |-> n, lo |-> v, hi |-> v]
                 ELSE [n |-> a.n + n, lo |-> Min(a.lo, v), hi |-> Max(a.hi, v)]

\* a line: what is accumulated for the next point, and all points so far
NoLine == [acc |-> NoAcc, pts |-> <<>>]

\* feeds a signal given as runs <<length, value>>
RECURSIVE Feed(_, _, _, _)
Feed(ln, runs, j, left) ==
  IF j > Len(runs) THEN ln
  ELSE IF left = 0 THEN Feed(ln, runs, j + 1, IF j < Len(runs) THEN runs[j + 1][1] ELSE 0)
  ELSE LET k == Min(left, PointLen - ln.acc.n)
           a == Grow(ln.acc, k, runs[j][2])
       IN Feed(IF a.n = PointLen THEN [acc |-> NoAcc, pts |-> Append(ln.pts, <<a.lo, a.hi>>)] ELSE [ln EXCEPT !.acc = a],
               runs, j, left - k)
FeedRuns(ln, runs) == IF runs = <<>> THEN ln ELSE Feed(ln, runs, 1, runs[1][1])

\* what is shown after k points
View(pts, k) == [j \in 1..Shown |-> IF k - Shown + j >= 1 THEN pts[k - Shown + j] ELSE <<0, 0>>]

\* which signals of a cell are monitored: ports of the inputs 0.., of the outputs 10..
None == <<"", 0, 0>>
NoSignals == [k \in 1..6 |-> None]
Signals(c) == [k \in 1..6 |->
   LET p == IF k <= 3 THEN c.i[k] ELSE c.o[k - 3] IN
   IF p < 0 THEN None ELSE <<c.n[1], c.n[2], IF k <= 3 THEN p ELSE 10 + p>>]
=============================================================================
