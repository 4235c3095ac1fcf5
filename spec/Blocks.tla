------------------------------- MODULE Blocks -------------------------------
(* Block diagrams (WBlockDSP): areas hold blocks, blocks occupy one column  *)
(* and several rows, an output port feeds the input port right of it.       *)
(* The edit operations, the meaning of a diagram as an expression tree, and *)
(* its meaning as a program with inputs, variables and block local state.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Pad(q, n) == [j \in 1..n |-> IF j <= Len(q) THEN q[j] ELSE "~"]
Typ(rows, ins, outs, areas) == [rows |-> rows, ins |-> Pad(ins, rows), outs |-> Pad(outs, rows), areas |-> areas]
Types ==
  ("zero" :> Typ(1, <<>>, <<"">>, 0)) @@ ("value" :> Typ(1, <<>>, <<"">>, 0)) @@
  ("PI" :> Typ(1, <<>>, <<"">>, 0)) @@ ("TAU" :> Typ(1, <<>>, <<"">>, 0)) @@
  ("->" :> Typ(1, <<"">>, <<"">>, 0)) @@ ("->2" :> Typ(2, <<"">>, <<"", "">>, 0)) @@ ("->3" :> Typ(3, <<"">>, <<"", "", "">>, 0)) @@
  ("set" :> Typ(1, <<"">>, <<>>, 0)) @@ ("get" :> Typ(1, <<>>, <<"">>, 0)) @@
  ("if" :> Typ(1, <<"">>, <<"">>, 2)) @@
  ("+" :> Typ(2, <<"", "">>, <<"">>, 0)) @@ ("*" :> Typ(2, <<"", "">>, <<"">>, 0)) @@
  ("-" :> Typ(2, <<"a", "b">>, <<"">>, 0)) @@ ("/" :> Typ(2, <<"a", "b">>, <<"">>, 0)) @@
  ("/%" :> Typ(2, <<"a", "b">>, <<"di", "re">>, 0)) @@
  ("accum" :> Typ(2, <<"in", "re">>, <<"su">>, 0)) @@
  ("s&h~" :> Typ(2, <<"in", "se">>, <<"va">>, 0))

------------------------------------------------------------------------------
(* Geometry.  d is a diagram: a function from area numbers to block sets.   *)
Cells(b) == {<<b.x, b.y + r>> : r \in 0..(b.rows - 1)}
CellsOf(B) == UNION {Cells(b) : b \in B}
At(B, x, y) == {b \in B : <<x, y>> \in Cells(b)}
The(S) == CHOOSE v \in S : TRUE
Disjoint(B) == \A b \in B, c \in B : b # c => Cells(b) \cap Cells(c) = {}
Free(B, b) == Cells(b) \cap CellsOf(B) = {}
Shift(b, dx, dy) == [b EXCEPT !.x = @ + dx, !.y = @ + dy]
MoveAll(B, dx, dy) == {Shift(b, dx, dy) : b \in B}
Max(a, b) == IF a > b THEN a ELSE b
MinOf(S) == CHOOSE v \in S : \A w \in S : v <= w

InY(b)  == {b.y + r - 1 : r \in {j \in 1..Len(b.ins) : b.ins[j] # "~"}}
OutY(b) == {b.y + r - 1 : r \in {j \in 1..Len(b.outs) : b.outs[j] # "~"}}
Feeds(a, b) == b.x = a.x + 1 /\ OutY(a) \cap InY(b) # {}
RECURSIVE Grow(_, _)
Grow(B, S) == LET T == S \cup {b \in B : \E s \in S : Feeds(b, s) \/ Feeds(s, b)} IN IF T = S THEN S ELSE Grow(B, T)
Chain(B, b) == Grow(B, {b})

\* the areas contained in a block, transitively
Sub1(b) == {b.c[j] : j \in {k \in 1..2 : b.c[k] # -1}}
RECURSIVE SubAreas(_, _)
SubAreas(d, S) == LET T == S \cup UNION {UNION {Sub1(b) : b \in d[a]} : a \in S \cap DOMAIN d} IN IF T = S THEN S ELSE SubAreas(d, T)
AreasIn(d, b) == SubAreas(d, Sub1(b))

------------------------------------------------------------------------------
(* Edits.  A result is [res, d]: "ok" with the new diagram, or an error and *)
(* the unchanged diagram.                                                   *)
Refuse(d, why) == [res |-> why, d |-> d]
Done(d) == [res |-> "ok", d |-> d]

\* id and sub areas (sub: sequence of fresh area numbers) are chosen by the implementation
New(typ, lbl, x, y, id, sub) ==
  LET t == Types[typ] IN
  [x |-> x, y |-> y, id |-> id, typ |-> typ, lbl |-> IF lbl = "" THEN typ ELSE lbl, rows |-> t.rows, ins |-> t.ins, outs |-> t.outs,
   c |-> IF t.areas = 2 THEN <<sub[1], sub[2]>> ELSE IF t.areas = 1 THEN <<sub[1], -1>> ELSE <<-1, -1>>]
WithAreas(d, c) == d @@ [s \in {c[j] : j \in {k \in 1..2 : c[k] # -1}} |-> {}]

Put(d, a, x, y, typ, lbl, id, sub) ==
  IF a \notin DOMAIN d THEN Refuse(d, "area")
  ELSE IF typ \notin DOMAIN Types THEN Refuse(d, "type")
  ELSE LET b == New(typ, lbl, x, y, id, sub) IN
       IF ~Free(d[a], b) THEN Refuse(d, "space")
       ELSE Done(WithAreas([d EXCEPT ![a] = @ \cup {b}], b.c))

Remove(d, a, x, y) ==
  IF a \notin DOMAIN d THEN Refuse(d, "area")
  ELSE IF At(d[a], x, y) = {} THEN Refuse(d, "noblock")
  ELSE Done([d EXCEPT ![a] = @ \ At(d[a], x, y)])

\* takes element k of q out and puts it one position further, the last one becomes the first
Rot(q, k) == LET n == Len(q) IN
  IF k = n THEN <<q[n]>> \o SubSeq(q, 1, n - 1)
  ELSE [q EXCEPT ![k] = q[k + 1], ![k + 1] = q[k]]
ShiftPort(d, a, x, y, row, out) ==
  IF a \notin DOMAIN d THEN Done(d)
  ELSE IF At(d[a], x, y) = {} THEN Done(d)
  ELSE LET b == The(At(d[a], x, y)) IN
       IF b.rows <= 1 \/ row >= b.rows THEN Done(d)
       ELSE LET n == IF out THEN [b EXCEPT !.outs = Rot(@, row + 1)] ELSE [b EXCEPT !.ins = Rot(@, row + 1)]
            IN Done([d EXCEPT ![a] = (@ \ {b}) \cup {n}])

\* where a block grabbed at row y ends up when it is dropped at y2
DropY(b, y, y2) == IF y > b.y THEN Max(0, y2 - (y - b.y)) ELSE y2

Move(d, a, x, y, a2, x2, y2) ==
  IF a \notin DOMAIN d THEN Refuse(d, "area")
  ELSE IF At(d[a], x, y) = {} THEN Refuse(d, "noblock")
  ELSE LET b == The(At(d[a], x, y)) n == [b EXCEPT !.x = x2, !.y = DropY(b, y, y2)] IN
       IF a2 \in AreasIn(d, b) THEN Refuse(d, "circular")
       ELSE IF a2 \notin DOMAIN d THEN Refuse(d, "area")
       ELSE LET e == [d EXCEPT ![a] = @ \ {b}] IN
            IF ~Free(e[a2], n) THEN Refuse(d, "space") ELSE Done([e EXCEPT ![a2] = @ \cup {n}])

\* a clone gets its own identity and its own, empty sub areas
Clone(d, a, x, y, a2, x2, y2, id, sub) ==
  IF a \notin DOMAIN d THEN Refuse(d, "area")
  ELSE IF At(d[a], x, y) = {} THEN Refuse(d, "noblock")
  ELSE LET b == The(At(d[a], x, y))
           n == [b EXCEPT !.x = x2, !.y = DropY(b, y, y2), !.id = id,
                          !.c = [j \in 1..2 |-> IF b.c[j] = -1 THEN -1 ELSE sub[j]]] IN
       IF a2 \notin DOMAIN d THEN Refuse(d, "area")
       ELSE IF ~Free(d[a2], n) THEN Refuse(d, "space")
       ELSE Done(WithAreas([d EXCEPT ![a2] = @ \cup {n}], n.c))

\* a chain moves as a whole; if the requested place is taken it may end up nearby
Nearby == {<<dx, dy>> : dx \in -1..1, dy \in -3..3}
ChainTarget(C, a, x, y, a2, x2, y2) ==
  IF a = a2 THEN <<x2 - x, y2 - y>>
  ELSE LET mx == MinOf({b.x : b \in C}) my == MinOf({b.y : b \in C}) IN
       <<Max(0, mx - x + x2) - mx, Max(0, my - y + y2) - my>>
MoveChainResults(d, a, x, y, a2, x2, y2) ==
  IF a \notin DOMAIN d THEN {Refuse(d, "area")}
  ELSE IF At(d[a], x, y) = {} THEN {Refuse(d, "noblock")}
  ELSE LET C == Chain(d[a], The(At(d[a], x, y))) IN
       IF a2 # a /\ \E b \in C : a2 \in AreasIn(d, b) THEN {Refuse(d, "circular")}
       ELSE IF a2 \notin DOMAIN d THEN {Refuse(d, "area")}
       ELSE LET e == [d EXCEPT ![a] = @ \ C]
                t == ChainTarget(C, a, x, y, a2, x2, y2)
                Fits(o) == \A b \in MoveAll(C, t[1] + o[1], t[2] + o[2]) : Free(e[a2], b)
                Res(o) == Done([e EXCEPT ![a2] = @ \cup MoveAll(C, t[1] + o[1], t[2] + o[2])])
            IN IF Fits(<<0, 0>>) THEN {Res(<<0, 0>>)}
               ELSE IF \E o \in Nearby : Fits(o) THEN {Res(o) : o \in {p \in Nearby : Fits(p)}}
               ELSE {Refuse(d, "space")}

\* splitting right of column x makes room for one column and bridges the other connections with filler blocks
SplitFill(C, x, y) == {<<x + 1, w>> : w \in (UNION {OutY(b) : b \in {q \in C : q.x = x}} \cap UNION {InY(b) : b \in {q \in C : q.x = x + 1}}) \ {y}}
Split(d, a, x, y, fill, ids, subs) ==
  IF a \notin DOMAIN d THEN Refuse(d, "area")
  ELSE IF At(d[a], x, y) = {} THEN Refuse(d, "noblock")
  ELSE IF fill # "" /\ fill \notin DOMAIN Types THEN Refuse(d, "type")
  ELSE LET C == Chain(d[a], The(At(d[a], x, y)))
           e == [d EXCEPT ![a] = @ \ C]
           F == IF fill = "" THEN {} ELSE {New(fill, "", p[1], p[2], ids[p], subs[p]) : p \in SplitFill(C, x, y)}
           S == {IF b.x > x THEN Shift(b, 1, 0) ELSE b : b \in C} \cup F
           W(D) == LET RECURSIVE G(_, _)
                       G(D2, R) == IF R = {} THEN D2 ELSE LET f == The(R) IN G(WithAreas(D2, f.c), R \ {f}) IN G(D, F)
       IN IF ~Disjoint(S) \/ \E b \in S : ~Free(e[a], b) THEN Refuse(d, "space")
          ELSE Done(W([e EXCEPT ![a] = @ \cup S]))

------------------------------------------------------------------------------
(* What must hold of every diagram.                                         *)
Ids(d) == UNION {{b.id : b \in d[a]} : a \in DOMAIN d}
NoOverlap(d) == \A a \in DOMAIN d : Disjoint(d[a])
UniqueIds(d) == \A a \in DOMAIN d, a2 \in DOMAIN d : \A b \in d[a], c \in d[a2] : (b.id = c.id) => (a = a2 /\ b = c)
Holders(d, s) == UNION {{<<a, b.id>> : b \in {q \in d[a] : s \in Sub1(q)}} : a \in DOMAIN d}
Hierarchy(d) == /\ \A a \in DOMAIN d : \A b \in d[a] : Sub1(b) \subseteq (DOMAIN d \ {0}) /\ a \notin AreasIn(d, b) /\ (b.c[1] # -1 => b.c[1] # b.c[2])
                /\ \A s \in DOMAIN d : Cardinality(Holders(d, s)) <= 1
Sound(d) == NoOverlap(d) /\ UniqueIds(d) /\ Hierarchy(d)

------------------------------------------------------------------------------
(* The expression tree of a diagram, as text.                               *)
Less(p, q) == p[2] < q[2] \/ (p[2] = q[2] /\ p[1] < q[1])
RECURSIVE SortPos(_)
SortPos(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE p \in S : \A q \in S : p = q \/ Less(p, q) IN <<m>> \o SortPos(S \ {m})
\* the port at absolute row y of block b
InAt(b, y) == LET j == y - b.y + 1 IN IF j \in 1..Len(b.ins) /\ j <= b.rows THEN b.ins[j] ELSE "~"
OutAt(b, y) == LET j == y - b.y + 1 IN IF j \in 1..Len(b.outs) /\ j <= b.rows THEN b.outs[j] ELSE "~"
HasIn(B, x, y) == \E b \in At(B, x, y) : InAt(b, y) # "~"
\* <<x, y, isOutput>>: blocks without outputs and outputs that feed nothing, top to bottom, left to right
Sinks(B) == SortPos({<<b.x, b.y, FALSE>> : b \in {q \in B : OutY(q) = {}}} \cup
                    UNION {{<<b.x, w, TRUE>> : w \in {v \in OutY(b) : ~HasIn(B, b.x + 1, v)}} : b \in B})

RECURSIVE Join(_, _)
Join(q, j) == IF j > Len(q) THEN "" ELSE (IF j > 1 THEN " " ELSE "") \o q[j] \o Join(q, j + 1)
NodeText(id, typ, lbl, kids) == typ \o "#" \o ToString(id) \o ":" \o lbl \o "[" \o Join(kids, 1) \o "]"
RECURSIVE BlockText(_, _, _), InText(_, _, _, _, _), AreaText(_, _), OutText(_, _, _, _)
OutText(d, a, x, y) ==
  LET S == At(d[a], x, y) IN
  IF S = {} THEN [o |-> "", t |-> NodeText(0, "zero", "", <<>>)]
  ELSE LET b == The(S) IN
       IF OutAt(b, y) = "~" THEN [o |-> "", t |-> NodeText(0, "zero", "", <<>>)]
       ELSE [o |-> OutAt(b, y), t |-> BlockText(d, a, b)]
InText(d, a, b, j, acc) ==
  IF j > b.rows THEN acc
  ELSE IF b.ins[j] = "~" THEN InText(d, a, b, j + 1, acc)
  ELSE LET o == OutText(d, a, b.x - 1, b.y + j - 1) IN
       InText(d, a, b, j + 1, Append(acc, b.ins[j] \o "<" \o o.o \o "=" \o o.t))
BlockText(d, a, b) ==
  NodeText(b.id, b.typ, b.lbl,
    InText(d, a, b, 1, <<>>) \o (IF b.c[1] = -1 THEN <<>> ELSE <<"<=" \o AreaText(d, b.c[1])>>)
                             \o (IF b.c[2] = -1 THEN <<>> ELSE <<"<=" \o AreaText(d, b.c[2])>>))
AreaText(d, a) ==
  LET s == Sinks(d[a])
      T(p) == IF p[3] THEN LET o == OutText(d, a, p[1], p[2]) IN "<=" \o NodeText(0, "<res>", "", <<"<" \o o.o \o "=" \o o.t>>)
              ELSE "<=" \o BlockText(d, a, The(At(d[a], p[1], p[2])))
  IN NodeText(0, "<a>", "", [j \in 1..Len(s) |-> T(s[j])])
TreeText(d) == NodeText(0, "<r>", "", <<"<=" \o AreaText(d, 0)>>)

------------------------------------------------------------------------------
(* The program a diagram means.  Every block computes once per run, when    *)
(* its value is first needed; sinks run top to bottom, left to right.       *)
(* Values are integers; what leaves the integers is Unknown.                *)
Unknown == 1000000007
Big == 8000000
Norm(v) == IF v > Big \/ v < -Big THEN Unknown ELSE v
Known(v) == v # Unknown
Num == [n \in {"-7", "-3", "-2", "-1", "0", "1", "2", "3", "4", "5", "9", "11"} |->
  CASE n = "-7" -> -7 [] n = "-3" -> -3 [] n = "-2" -> -2 [] n = "-1" -> -1 [] n = "0" -> 0 [] n = "1" -> 1 [] n = "2" -> 2
    [] n = "3" -> 3 [] n = "4" -> 4 [] n = "5" -> 5 [] n = "9" -> 9 [] OTHER -> 11]
Abs(x) == IF x < 0 THEN -x ELSE x
Mul(a, b) == IF a = 0 \/ b = 0 THEN (IF Known(a) /\ Known(b) THEN 0 ELSE Unknown)
             ELSE IF ~Known(a) \/ ~Known(b) \/ Abs(a) > 2000 \/ Abs(b) > 2000 THEN Unknown ELSE a * b
\* exact division or Unknown
Div(a, b) == IF ~Known(a) \/ ~Known(b) \/ b = 0 THEN Unknown
             ELSE IF Abs(a) % Abs(b) # 0 THEN Unknown
             ELSE IF a = 0 /\ b < 0 THEN 0
             ELSE LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
Rem(a, b) == IF ~Known(a) \/ ~Known(b) \/ b = 0 THEN Unknown
             ELSE LET r == Abs(a) % Abs(b) IN IF a < 0 THEN -r ELSE r
Add(a, b) == IF Known(a) /\ Known(b) THEN Norm(a + b) ELSE Unknown
Sub(a, b) == IF Known(a) /\ Known(b) THEN Norm(a - b) ELSE Unknown

Runnable == DOMAIN Types \ {"if"}
Compiles(d) == \A b \in d[0] : b.typ \in Runnable /\ (b.typ = "value" => b.lbl \in DOMAIN Num)
Look(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0
Store(f, k, v) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = v] ELSE (k :> v) @@ f

\* s: [v: variables, st: state of blocks, m: blocks already computed -> outputs by name]
RECURSIVE EvalBlock(_, _, _), EvalAt(_, _, _, _)
EvalAt(B, x, y, s) ==
  LET S == At(B, x, y) IN
  IF S = {} THEN [v |-> 0, s |-> s]
  ELSE LET b == The(S) IN
       IF OutAt(b, y) = "~" THEN [v |-> 0, s |-> s]
       ELSE LET t == EvalBlock(B, b, s) IN [v |-> t.m[b.id][OutAt(b, y)], s |-> t]
Row(b, name) == CHOOSE j \in 1..Len(b.ins) : b.ins[j] = name
Rows(b) == LET S == {j \in 1..Len(b.ins) : b.ins[j] # "~"} IN
           IF Cardinality(S) = 2 THEN <<MinOf(S), MinOf(S \ {MinOf(S)})>> ELSE <<MinOf(S)>>
EvalBlock(B, b, s) ==
  IF b.id \in DOMAIN s.m THEN s
  ELSE LET In(j, t) == EvalAt(B, b.x - 1, b.y + j - 1, t)
           Out(t, f) == [t EXCEPT !.m = (b.id :> f) @@ @]
           Two(j, k) == LET p == In(j, s) q == In(k, p.s) IN [a |-> p.v, b |-> q.v, s |-> q.s]
       IN CASE b.typ = "zero"  -> Out(s, "" :> 0)
            [] b.typ = "value" -> Out(s, "" :> Num[b.lbl])
            [] b.typ \in {"PI", "TAU"} -> Out(s, "" :> Unknown)
            [] b.typ = "get"   -> Out(s, "" :> Look(s.v, b.lbl))
            [] b.typ \in {"->", "->2", "->3"} -> LET p == In(Rows(b)[1], s) IN Out(p.s, "" :> p.v)
            [] b.typ \in {"+", "*"} -> LET p == Two(Rows(b)[1], Rows(b)[2]) IN Out(p.s, "" :> IF b.typ = "+" THEN Add(p.a, p.b) ELSE Mul(p.a, p.b))
            [] b.typ \in {"-", "/"} -> LET p == Two(Row(b, "a"), Row(b, "b")) IN Out(p.s, "" :> IF b.typ = "-" THEN Sub(p.a, p.b) ELSE Div(p.a, p.b))
            [] b.typ = "/%" -> LET p == Two(Row(b, "a"), Row(b, "b")) IN Out(p.s, ("di" :> Div(p.a, p.b)) @@ ("re" :> Rem(p.a, p.b)))
            [] b.typ = "accum" -> LET p == Two(Row(b, "in"), Row(b, "re"))
                                      n == IF ~Known(p.b) THEN Unknown ELSE IF p.b > 0 THEN 0 ELSE Add(Look(p.s.st, b.id), p.a)
                                  IN Out([p.s EXCEPT !.st = Store(@, b.id, n)], "su" :> n)
            [] b.typ = "s&h~" -> LET p == Two(Row(b, "in"), Row(b, "se"))
                                     n == IF ~Known(p.b) THEN Unknown ELSE IF p.b > 0 THEN p.a ELSE Look(p.s.st, b.id)
                                 IN Out([p.s EXCEPT !.st = Store(@, b.id, n)], "va" :> n)
RECURSIVE RunSinks(_, _, _, _)
RunSinks(B, q, j, s) ==
  IF j > Len(q) THEN s
  ELSE LET p == q[j] IN
       IF p[3] THEN LET r == EvalAt(B, p[1], p[2], s) IN RunSinks(B, q, j + 1, [r.s EXCEPT !.v = Store(@, "_res_", r.v)])
       ELSE LET b == The(At(B, p[1], p[2])) r == EvalAt(B, b.x - 1, b.y, s) IN
            RunSinks(B, q, j + 1, [r.s EXCEPT !.v = Store(@, b.lbl, r.v)])
Persistent == {"*p", "*q"}
\* one run: pv are the persistent variables, st the block states, inp the six inputs
RunOnce(B, pv, st, inp) ==
  LET v0 == pv @@ ("in1" :> inp[1]) @@ ("in2" :> inp[2]) @@ ("alpha" :> inp[3]) @@ ("beta" :> inp[4]) @@ ("delta" :> inp[5]) @@ ("gamma" :> inp[6])
      s == RunSinks(B, Sinks(B), 1, [v |-> v0, st |-> st, m |-> <<>>])
  IN [out |-> <<Look(s.v, "&sig1"), Look(s.v, "&sig2"), Look(s.v, "_res_")>>,
      pv |-> [k \in Persistent |-> Look(s.v, k)], st |-> s.st]
=============================================================================
