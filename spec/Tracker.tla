------------------------------ MODULE Tracker ------------------------------
(***************************************************************************)
(* The tracker: a pattern of up to 256 rows and 6 typed columns, edited by *)
(* the frontend, transmitted column by column through a bounded queue to   *)
(* the sequencer on the audio side, which plays it at a given phase.       *)
(* Cell values are 0..4095; signals are in units of 1/65520 (16 per 4095). *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS QMax                    \* capacity of the queue
Cols == 0..5
MaxRows == 256
One == 65520

Put(f, k, v) == (k :> v) @@ f
Rest(f, k) == [j \in (DOMAIN f) \ {k} |-> f[j]]

\* cells: partial function <<row, col>> -> value
InitPat == [types |-> [c \in Cols |-> "value"], cells |-> <<>>, rows |-> MaxRows]

In(r, c) == r < MaxRows /\ c \in Cols
SetCell(p, r, c, v) == IF In(r, c) THEN [p EXCEPT !.cells = Put(@, <<r, c>>, v)] ELSE p
ClrCell(p, r, c) == IF In(r, c) THEN [p EXCEPT !.cells = Rest(@, <<r, c>>)] ELSE p
CellVal(p, r, c) == IF <<r, c>> \in DOMAIN p.cells THEN p.cells[<<r, c>>] ELSE 0
ChgCell(p, r, c, o) == LET v == CellVal(p, r, c) + o IN
                       SetCell(p, r, c, IF v < 0 THEN 0 ELSE IF v > 4095 THEN 4095 ELSE v)
SetType(p, c, t) == IF c \in Cols THEN [p EXCEPT !.types = Put(@, c, t)] ELSE p
SetRows(p, n) == [p EXCEPT !.rows = IF n > MaxRows THEN MaxRows ELSE n]

(*------------------------- what a column plays --------------------------*)
SetRowsIn(p, c, lo, hi) == {r \in lo..hi : <<r, c>> \in DOMAIN p.cells}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

\* value column: linear between set cells, starting at 0 and ending at the last row
\* (at 0 if that is empty)
ValueAt(p, c, r) ==
  LET last == p.rows - 1
      key(x) == IF x \in SetRowsIn(p, c, 0, last) THEN (p.cells[<<x, c>>] % 4096) * 16 ELSE 0
      S == SetRowsIn(p, c, 0, last) \cup {0, last}
      a == MaxOf({x \in S : x <= r})
      b == MinOf({x \in S : x >= r}) IN
  IF a = b THEN key(a) ELSE (key(a) * (b - r) + key(b) * (r - a)) \div (b - a)

\* step and note columns hold the last set value; before the first one they are 0
HeldRow(p, c, r) == LET S == SetRowsIn(p, c, 0, r) IN IF S = {} THEN -1 ELSE MaxOf(S)
StepAt(p, c, r) == LET h == HeldRow(p, c, r) IN IF h < 0 THEN 0 ELSE (p.cells[<<h, c>>] % 4096) * 16
NoteAt(p, c, r) == LET h == HeldRow(p, c, r)
                       n == (p.cells[<<h, c>>] - 69) * 546 IN      \* 65520 * 0.1 / 12 = 546
                   IF h < 0 THEN 0 ELSE IF n > One THEN One ELSE IF n < -One THEN -One ELSE n

\* output and gate of column c at row r, sixteenth s of that row (its middle).
\* `alt`: further admissible outputs, `known`: whether the output is determined at all
Play(p, c, r, s) ==
  LET t == p.types[c]
      set == <<r, c>> \in DOMAIN p.cells
      last == p.rows - 1
      prev == IF r = 0 THEN last ELSE r - 1
      f == 2 * s + 1 IN
  CASE t = "value" ->
         [v |-> {(ValueAt(p, c, prev) * (32 - f) + ValueAt(p, c, r) * f) \div 32},
          g |-> IF r = last THEN 1 ELSE 0, known |-> TRUE]
    [] t = "step" -> [v |-> {StepAt(p, c, r)}, g |-> IF set THEN 1 ELSE 0, known |-> TRUE]
    [] t = "note" -> [v |-> {NoteAt(p, c, r)}, g |-> IF set THEN 1 ELSE 0, known |-> TRUE]
    [] OTHER ->
         LET x == p.cells[<<r, c>>]
             len == 2 * ((x % 16) + 1)
             div == 16 - ((x \div 16) % 16)
             prob == (x \div 256) % 16
             m == (f * div) % 32
             on == IF m <= len THEN One ELSE 0 IN
         IF ~set THEN [v |-> {0}, g |-> 0, known |-> TRUE]
         ELSE [v |-> IF prob = 15 THEN {on} ELSE {on, 0}, g |-> 1, known |-> m # len /\ m # 0]

(*---------------------- transmission to the sequencer --------------------*)
\* t: [p: pattern, dirty: columns to send, q: queue of [c, snap], bk: [rows, cols: c -> snap]]
NoCol == [t |-> "value", cells |-> <<>>, rows |-> MaxRows]
Snap(p, c) == [t |-> p.types[c], rows |-> p.rows,
               cells |-> [r \in {k[1] : k \in {j \in DOMAIN p.cells : j[2] = c}} |-> p.cells[<<r, c>>]]]
InitTrk == [p |-> InitPat, dirty |-> Cols, q |-> <<>>, bkrows |-> MaxRows, bk |-> [c \in Cols |-> NoCol]]

Edit(t, p2, D) == [t EXCEPT !.p = p2, !.dirty = @ \cup D]
CanSend(t, c) == c \in t.dirty /\ Len(t.q) < QMax
Send(t, c) == [t EXCEPT !.dirty = @ \ {c}, !.q = Append(@, [c |-> c, s |-> Snap(t.p, c)])]
Recv(t) == IF t.q = <<>> THEN t
           ELSE [t EXCEPT !.q = Tail(@), !.bkrows = Head(t.q).s.rows, !.bk = Put(@, Head(t.q).c, Head(t.q).s)]
\* a new sequencer (the node was created again) starts from nothing
NewBackend(t) == [t EXCEPT !.dirty = Cols, !.q = <<>>, !.bkrows = MaxRows, !.bk = [c \in Cols |-> NoCol]]

Settled(t) == t.dirty = {} /\ t.q = <<>>
\* once everything is exchanged the sequencer plays exactly the pattern
TrkConverged(t) == Settled(t) => /\ t.bkrows = t.p.rows
                                 /\ \A c \in Cols : t.bk[c] = Snap(t.p, c)
=============================================================================
