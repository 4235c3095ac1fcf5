------------------------------- MODULE Matrix -------------------------------
(***************************************************************************)
(* The HexoDSP engine: a hexagonal matrix of cells edited by the frontend, *)
(* the graph compiled from it, the message queue to the audio side, and    *)
(* the audio side executing the compiled graph block by block.             *)
(*                                                                         *)
(* State is one record `s`; every operation of the public API is a pure    *)
(* operator  Op(s, args) -> s'.  Values are integers: signals in units of  *)
(* 1/4096, modulation amounts in units of 1/256.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, NodeTypes

U == 4096                      \* fixed point one
NoAmt == -999                  \* "no modulation amount set"
NoNode == <<"nop", 0>>
NoPorts == <<-1, -1, -1>>
EmptyCell == [n |-> NoNode, o |-> NoPorts, i |-> NoPorts]

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
Ovr(f, k, v) == (k :> v) @@ f           \* functional override
Rng(q) == {q[j] : j \in DOMAIN q}

(*--------------------------- hexagonal geometry -------------------------*)
Dirs == <<"TR", "BR", "B", "BL", "TL", "T">>       \* edge numbers 0..5
Flip(d) == CASE d = "TR" -> "BL" [] d = "BR" -> "TL" [] d = "B" -> "T"
             [] d = "BL" -> "TR" [] d = "TL" -> "BR" [] OTHER -> "B"
Offs(d, x) ==
  LET even == x % 2 = 0 IN
  CASE d = "TR" -> <<1, IF even THEN -1 ELSE 0>>
    [] d = "BR" -> <<1, IF even THEN 0 ELSE 1>>
    [] d = "B"  -> <<0, 1>>
    [] d = "BL" -> <<-1, IF even THEN 0 ELSE 1>>
    [] d = "TL" -> <<-1, IF even THEN -1 ELSE 0>>
    [] OTHER    -> <<0, -1>>
Nb(p, d) == <<p[1] + Offs(d, p[1])[1], p[2] + Offs(d, p[1])[2]>>
\* port of a cell on one of its edges (-1: none)
Port(c, d) == CASE d = "TR" -> c.o[1] [] d = "BR" -> c.o[2] [] d = "B" -> c.o[3]
                [] d = "BL" -> c.i[3] [] d = "TL" -> c.i[2] [] OTHER -> c.i[1]
InDirs == <<"T", "TL", "BL">>

Pos(s) == (0..(s.w - 1)) \X (0..(s.h - 1))

(*------------------------------ the graph -------------------------------*)
Linked(s, cells, p, d) ==
  LET c == cells[p]  q == Nb(p, InDirs[d]) IN
    /\ c.n # NoNode /\ c.i[d] >= 0
    /\ q \in Pos(s)
    /\ cells[q].n # NoNode
    /\ Port(cells[q], Flip(InDirs[d])) >= 0

EdgesOf(s, cells) ==
  { LET p == a[1]  d == a[2]  q == Nb(p, InDirs[d]) IN
      [to |-> cells[p].n, ti |-> cells[p].i[d],
       from |-> cells[q].n, fo |-> Port(cells[q], Flip(InDirs[d])), at |-> a]
    : a \in {b \in Pos(s) \X (1..3) : Linked(s, cells, b[1], b[2])} }

NodesOf(cells) == {cells[p].n : p \in DOMAIN cells} \ {NoNode}

\* the nodes left over when repeatedly removing nodes without predecessors
RECURSIVE Peel(_, _)
Peel(N, G) ==
  LET R == {n \in N : \A g \in G : ~(g[2] = n /\ g[1] \in N)} IN
  IF R = {} THEN N ELSE Peel(N \ R, G)

Arcs(E) == {<<e.from, e.to>> : e \in E}
HasCycle(N, E) == Peel(N, Arcs(E)) # {}
HasDup(E) == \E a, b \in E : a.at # b.at /\ a.to = b.to /\ a.ti = b.ti

LayoutRes(s, cells) ==
  LET E == EdgesOf(s, cells) IN
  IF HasDup(E) THEN "dup" ELSE IF HasCycle(NodesOf(cells), E) THEN "cycle" ELSE "ok"

ValidEdge(e) == e.fo < Len(NT[e.from[1]].outs) /\ e.ti < Len(NT[e.to[1]].ins)

RECURSIVE ReachFrom(_, _)
ReachFrom(X, G) ==
  LET Y == X \cup {g[2] : g \in {h \in G : h[1] \in X}} IN
  IF Y = X THEN X ELSE ReachFrom(Y, G)

(*------------------------------ parameters ------------------------------*)
Dyn == "rust1x1"
DynKeys(N) == {<<n[1], n[2], k>> : n \in {m \in N : m[1] = Dyn}, k \in 0..4}
KNode(k) == <<k[1], k[2]>>

Settled(v) == [lo |-> v, hi |-> v, from |-> v, to |-> v, left |-> 0, lin |-> TRUE]

Slope(s) == (s.sr + 99) \div 100        \* 10 ms, rounded up to whole frames

StartRamp(s, ps, k, v) ==
  LET r == ps[k]
      act == Cardinality({j \in DOMAIN ps : ps[j].left > 0}) IN
  IF r.left = 0
  THEN [lo |-> Min2(r.to, v), hi |-> Max2(r.to, v), from |-> r.to, to |-> v,
        left |-> Slope(s) + 1, lin |-> act < 30]
  ELSE [lo |-> Min2(r.lo, Min2(r.to, v)), hi |-> Max2(r.hi, Max2(r.to, v)),
        from |-> r.from, to |-> v, left |-> Slope(s) + 1, lin |-> FALSE]

(*--------------------------- frontend operations ------------------------*)
NoProg == [id |-> 0, nodes |-> {}, edges |-> {}, mods |-> <<>>, pv |-> <<>>, av |-> <<>>]

InitEng(w, h, sr) ==
  [w |-> w, h |-> h, sr |-> sr,
   cells |-> [p \in (0..(w-1)) \X (0..(h-1)) |-> EmptyCell],
   saved |-> [ok |-> FALSE, c |-> <<>>],
   chk |-> [ok |-> TRUE, e |-> {}],     \* edges of the last checked layout
   exist |-> {},                        \* node instances created so far
   built |-> {},                        \* ... that had ports assigned by a sync
   used |-> {},                         \* ... that are part of the last uploaded graph
   pv |-> <<>>, av |-> <<>>, ma |-> <<>>, props |-> <<>>,
   up |-> 0,                            \* id of the last uploaded graph
   q |-> <<>>,                          \* messages to the audio side
   run |-> NoProg, ps |-> <<>>, at |-> <<>>, nblk |-> 0, lastn |-> 1,
   ver |-> [i \in 0..23 |-> 0], rver |-> [i \in 0..23 |-> 0], blk |-> 0, led |-> <<>>,
   lver |-> <<>>, lat |-> <<>>,         \* versions / atoms the last block ran with
   modsOk |-> TRUE]                     \* FALSE: the last rebuild for a modulation change failed

PutCells(s, cells, cs) ==               \* cs: sequence of [x, y, n, o, i]
  LET RECURSIVE F(_, _)
      F(c, j) == IF j > Len(cs) THEN c
                 ELSE LET e == cs[j]  p == <<e.x, e.y>> IN
                      F(IF p \in Pos(s) THEN Ovr(c, p, [n |-> e.n, o |-> e.o, i |-> e.i]) ELSE c, j + 1)
  IN F(cells, 1)

SaveMatrix(s) == [s EXCEPT !.saved = [ok |-> TRUE, c |-> s.cells]]
RestoreMatrix(s) == IF s.saved.ok
                    THEN [s EXCEPT !.cells = s.saved.c, !.saved = [ok |-> FALSE, c |-> <<>>],
                                   !.chk = [ok |-> TRUE, e |-> EdgesOf(s, s.saved.c)]]
                    ELSE s

Place(s, cs) == [s EXCEPT !.cells = PutCells(s, s.cells, cs), !.chk = [ok |-> FALSE, e |-> {}]]

Check(s) == [s EXCEPT !.chk = [ok |-> TRUE, e |-> EdgesOf(s, s.cells)]]

\* an edit that is validated as a whole: rejected edits change nothing
ChangeRes(s, cs) == LayoutRes(s, PutCells(s, s.cells, cs))
Change(s, cs) ==
  IF ChangeRes(s, cs) = "ok"
  THEN LET c == PutCells(s, s.cells, cs) IN
       [s EXCEPT !.cells = c, !.saved = [ok |-> TRUE, c |-> s.cells],
                 !.chk = [ok |-> TRUE, e |-> EdgesOf(s, c)]]
  ELSE [s EXCEPT !.saved = [ok |-> FALSE, c |-> <<>>], !.chk = [ok |-> TRUE, e |-> EdgesOf(s, s.cells)]]

\* placing several cells: every target must exist and be free (at that moment)
PlaceRes(s, cs) ==
  LET RECURSIVE F(_, _)
      F(c, j) == IF j > Len(cs) THEN LayoutRes(s, c)
                 ELSE LET e == cs[j]  p == <<e.x, e.y>> IN
                      IF p \notin Pos(s) THEN "range"
                      ELSE IF c[p].n # NoNode THEN "nonempty"
                      ELSE F(Ovr(c, p, [n |-> e.n, o |-> e.o, i |-> e.i]), j + 1)
  IN F(s.cells, 1)
PlaceMulti(s, cs) ==
  IF PlaceRes(s, cs) = "ok" THEN Change(s, cs)
  ELSE [s EXCEPT !.saved = [ok |-> FALSE, c |-> <<>>], !.chk = [ok |-> TRUE, e |-> EdgesOf(s, s.cells)]]

\* syncing uploads a new graph unless the layout is cyclic
SyncRes(s) == IF HasCycle(NodesOf(s.cells), EdgesOf(s, s.cells)) THEN "cycle" ELSE "ok"
Fill(N) == UNION {{<<n[1], j>> : j \in 0..n[2]} : n \in N}
Sync(s) ==
  LET N  == NodesOf(s.cells)
      E  == EdgesOf(s, s.cells)
      ex == s.exist \cup (N \cup UNION {Fill({n}) : n \in N \ s.exist})
      c  == [ok |-> TRUE, e |-> E] IN
  IF HasCycle(N, E) THEN [s EXCEPT !.exist = ex, !.chk = c, !.modsOk = FALSE]
  ELSE LET PK == DynKeys(ex)
           pv2 == [k \in PK |-> IF k \in DOMAIN s.pv THEN s.pv[k] ELSE 0] @@ s.pv
           prog == [id |-> s.up + 1, nodes |-> N, edges |-> {e \in E : ValidEdge(e)},
                    mods |-> s.ma, pv |-> [k \in PK |-> pv2[k]],
                    av |-> [k \in {j \in DOMAIN s.av : KNode(j) \in ex} |-> s.av[k]]] IN
       [s EXCEPT !.exist = ex, !.chk = c, !.modsOk = TRUE, !.built = ex, !.used = N, !.pv = pv2,
                 !.up = s.up + 1, !.q = Append(s.q, [k |-> "prog", p |-> prog])]

SetParam(s, k, v) ==
  LET s1 == [s EXCEPT !.pv = Ovr(s.pv, k, v)] IN
  IF KNode(k) \in s.built /\ k[1] = Dyn
  THEN [s1 EXCEPT !.q = Append(s.q, [k |-> "param", key |-> k, v |-> v])] ELSE s1

SetAtom(s, k, v) ==
  LET s1 == [s EXCEPT !.av = Ovr(s.av, k, v)] IN
  IF KNode(k) \in s.built
  THEN [s1 EXCEPT !.q = Append(s.q, [k |-> "atom", key |-> k, v |-> v])] ELSE s1

\* changing an existing amount is a message; adding or removing one rebuilds the graph
ModRebuilds(s, k, a) == ~(k \in DOMAIN s.ma /\ a # NoAmt)
SetMod(s, k, a) ==
  LET ma2 == IF a = NoAmt THEN [j \in (DOMAIN s.ma) \ {k} |-> s.ma[j]] ELSE Ovr(s.ma, k, a)
      s1 == [s EXCEPT !.ma = ma2] IN
  IF ModRebuilds(s, k, a) THEN Sync(s1)
  ELSE [s1 EXCEPT !.q = Append(s.q, [k |-> "mod", key |-> k, v |-> a])]

SetProp(s, k, v) == [s EXCEPT !.props = Ovr(s.props, k, v)]

Clear(s) ==
  LET s1 == [s EXCEPT !.cells = [p \in Pos(s) |-> EmptyCell],
               !.saved = [ok |-> FALSE, c |-> <<>>], !.exist = {}, !.built = {}, !.used = {},
               !.pv = <<>>, !.av = <<>>, !.ma = <<>>, !.props = <<>>, !.led = <<>>,
               !.q = Append(s.q, [k |-> "clear"])]
  IN Sync(s1)

\* a running graph that is about to be cleared no longer receives new functions
ClearPending(s) == \E m \in Rng(s.q) : m.k = "clear"
SetDyn(s, i, v) == [s EXCEPT !.ver = Ovr(s.ver, i, v),
                             !.rver = IF ClearPending(s) THEN @ ELSE Ovr(@, i, v)]

(*------------------------------ audio side ------------------------------*)
Deliver(s, a, m) ==         \* a: [run, ps, at, nblk]
  CASE m.k = "clear" -> [run |-> NoProg, ps |-> <<>>, at |-> <<>>, nblk |-> 0]
    [] m.k = "prog"  -> [run |-> m.p,
                         ps |-> [k \in DOMAIN m.p.pv |-> IF k \in DOMAIN a.ps THEN a.ps[k]
                                                         ELSE Settled(m.p.pv[k])],
                         at |-> m.p.av, nblk |-> 0]
    [] m.k = "param" -> IF m.key \in DOMAIN a.ps
                        THEN [a EXCEPT !.ps = Ovr(a.ps, m.key, StartRamp(s, a.ps, m.key, m.v))]
                        ELSE a
    [] m.k = "atom"  -> [a EXCEPT !.at = Ovr(a.at, m.key, m.v)]
    [] OTHER         -> IF m.key \in DOMAIN a.run.mods
                        THEN [a EXCEPT !.run.mods = Ovr(a.run.mods, m.key, m.v)] ELSE a

RECURSIVE Drain(_, _, _)
Drain(s, a, j) == IF j > Len(s.q) THEN a ELSE Drain(s, Deliver(s, a, s.q[j]), j + 1)

Update(s) ==
  LET a == Drain(s, [run |-> s.run, ps |-> s.ps, at |-> s.at, nblk |-> s.nblk], 1) IN
  [s EXCEPT !.run = a.run, !.ps = a.ps, !.at = a.at, !.nblk = a.nblk, !.q = <<>>,
            !.rver = s.ver]

DynBase(s, blk, i) == U * (i + 1 + 32 * (s.rver[i] % 2) + 64 * (blk % 8))

Block(s, n) ==
  LET b == s.blk + 1 IN
  [s EXCEPT !.blk = b, !.nblk = @ + 1, !.lastn = n, !.lver = s.rver, !.lat = s.at,
     !.ps = [k \in DOMAIN @ |->
               LET r == @[k] IN
               IF r.left = 0 THEN r
               ELSE IF r.left <= n THEN Settled(r.to) ELSE [r EXCEPT !.left = @ - n]],
     !.led = [d \in {m \in s.run.nodes : m[1] = Dyn} |-> DynBase(s, b, d[2])] @@ @]

(*---------------------- what the audio side must do ---------------------*)
RunDyn(s) == {n \in s.run.nodes : n[1] = Dyn}

OutCon(s, n, o) == \E e \in s.run.edges : e.from = n /\ e.fo = o
InCon(s, n, i) == \E e \in s.run.edges : e.to = n /\ e.ti = i
Pow2 == <<1, 2, 4, 8, 16, 32>>
TestMask(s, n) ==
  LET RECURSIVE F(_)
      F(o) == IF o > 5 THEN 0 ELSE (IF OutCon(s, n, o) THEN Pow2[o + 1] ELSE 0) + F(o + 1)
  IN F(0)

\* value of output o of node n in the current block, at frame f (0-based)
Known(s, n) == \/ n[1] = Dyn \/ n[1] = "test"
               \/ (n[1] \in {"exta", "extb"} /\ ~\E e \in s.run.edges : e.to = n)
OutVal(s, n, o, f) ==
  CASE n[1] = Dyn -> DynBase(s, s.blk, n[2]) + 16 * f
    [] n[1] = "exta" -> <<1024, 2048, 3072>>[o + 1]
    [] n[1] = "extb" -> <<1280, 2304, 3328>>[o + 1]
    [] OTHER -> \* test
         CASE o = 0 -> LET k == <<n[1], n[2], 1>> IN IF k \in DOMAIN s.at THEN s.at[k] ELSE 0
           [] o = 2 -> IF OutCon(s, n, 0) THEN U ELSE 0
           [] o = 3 -> IF InCon(s, n, 0) THEN U ELSE 0
           [] o = 5 -> U * TestMask(s, n)
           [] OTHER -> 0

\* does value v fit parameter state r (before the block) at the block's frame f (1-based)?
Tol == 3
ParamFits(s, r, f, v) ==
  LET j == Slope(s) + 1 - r.left + f IN
  IF r.left = 0 \/ j > Slope(s) THEN v = r.to
  ELSE IF r.lin THEN Abs(v - (r.from + ((r.to - r.from) * j) \div Slope(s))) <= Tol
  ELSE v >= r.lo - Tol /\ v <= r.hi + Tol
ParamRange(r, lo, hi) ==
  IF r.left = 0 THEN lo = r.to /\ hi = r.to ELSE lo >= r.lo - Tol /\ hi <= r.hi + Tol

\* the product of a value and an amount, which need not be a multiple of the unit
Scaled(m, v) == (m * v) \div 256

\* obs = <<first, last, min, max>> of the input k of node d during a block of n frames.
\* `s` is the state before the block, `t` the state after it.
InputFits(s, t, d, k, n, obs) ==
  LET key == <<d[1], d[2], k>>
      r == s.ps[key]
      C == {e \in s.run.edges : e.to = d /\ e.ti = k} IN
  IF C = {} THEN /\ ParamFits(s, r, 1, obs[1]) /\ ParamFits(s, r, n, obs[2])
                 /\ ParamRange(r, obs[3], obs[4])
  ELSE \E e \in C :
    IF ~Known(s, e.from) THEN TRUE
    ELSE LET a == OutVal(t, e.from, e.fo, 0)
             b == OutVal(t, e.from, e.fo, n - 1) IN
      IF key \notin DOMAIN s.run.mods
      THEN obs[1] = a /\ obs[2] = b /\ obs[3] = Min2(a, b) /\ obs[4] = Max2(a, b)
      ELSE LET m == s.run.mods[key]
               slack == IF m % 16 = 0 THEN {0} ELSE -2..2 IN
        /\ \E x \in slack : ParamFits(s, r, 1, obs[1] - Scaled(m, a) + x)
        /\ \E x \in slack : ParamFits(s, r, n, obs[2] - Scaled(m, b) + x)
        /\ r.left = 0 => /\ obs[3] = Min2(obs[1], obs[2])
                         /\ obs[4] = Max2(obs[1], obs[2])
InputKind(s, d, k) ==
  IF ~InCon(s, d, k) THEN "param"
  ELSE IF <<d[1], d[2], k>> \in DOMAIN s.run.mods THEN "mod" ELSE "wire"

(*------------------- what a recorded block gets wrong -------------------*)
\* s, t: state before and after the block; cur: before, with the functions the nodes ran
BlockMis(s, cur, t, e) ==
  LET C == e.calls
      D == [j \in DOMAIN C |-> <<Dyn, C[j].i>>]
      cover == /\ \A j, k \in DOMAIN D : j # k => D[j] # D[k]
               /\ {D[j] : j \in DOMAIN D} = RunDyn(s)
      G == Arcs(s.run.edges)
      outs == {n \in s.run.nodes : n[1] = "out"}
      outOk(n, ch, obs) ==
        LET C1 == {x \in s.run.edges : x.to = n /\ x.ti = ch} IN
        IF InCon(s, n, 2) THEN TRUE
        ELSE IF C1 = {} THEN obs = <<0, 0, 0, 0>>
        ELSE \E x \in C1 : IF ~Known(s, x.from) \/ <<n[1], n[2], ch>> \in DOMAIN s.run.mods THEN TRUE
             ELSE /\ Abs(obs[1] - OutVal(t, x.from, x.fo, 0)) <= 1
                  /\ Abs(obs[2] - OutVal(t, x.from, x.fo, e.n - 1)) <= 1
      mono(n) == <<n[1], n[2], 3>> \in DOMAIN s.at /\ s.at[<<n[1], n[2], 3>>] > 0
  IN (IF cover THEN {} ELSE {"calls"})
     \cup (IF cover /\ \E j, k \in DOMAIN D : j < k /\ D[j] \in ReachFrom({D[k]}, G) THEN {"order"} ELSE {})
     \cup (IF \E j \in DOMAIN C : C[j].len # e.n THEN {"len"} ELSE {})
     \cup (IF cover /\ \E j \in DOMAIN C : C[j].v # cur.rver[C[j].i] THEN {"dyn"} ELSE {})
     \cup (IF cover THEN {InputKind(s, D[jk[1]], jk[2]) :
             jk \in {x \in (DOMAIN D) \X (0..4) :
                       ~InputFits(s, t, D[x[1]], x[2], e.n, C[x[1]].in[x[2] + 1])}} ELSE {})
     \cup (IF outs = {} THEN (IF e.out = <<<<0,0,0,0>>, <<0,0,0,0>>>> THEN {} ELSE {"out"})
           ELSE IF Cardinality(outs) > 1 THEN {}
           ELSE LET n == CHOOSE x \in outs : TRUE IN
                IF outOk(n, 0, e.out[1]) /\ outOk(n, IF mono(n) THEN 0 ELSE 1, e.out[2])
                THEN {} ELSE {"out"})

(*------------------------------ queries ---------------------------------*)
UnusedInst(s, n) ==
  LET inst(j) == (n[2] + j) % 256
      I == {j \in 0..255 : <<n[1], inst(j)>> \notin s.used} IN
  IF I = {} THEN n ELSE <<n[1], inst(CHOOSE j \in I : \A l \in I : j <= l)>>

Conns(s, x, y) ==
  { LET d == Dirs[j]  q == Nb(<<x, y>>, d) IN
      <<j - 1, Port(s.cells[<<x, y>>], d), (j + 2) % 6, Port(s.cells[q], Flip(d)), q[1], q[2]>>
    : j \in {l \in 1..6 : LET d == Dirs[l]  q == Nb(<<x, y>>, d) IN
                /\ Port(s.cells[<<x, y>>], d) >= 0
                /\ q \in Pos(s) /\ Port(s.cells[q], Flip(d)) >= 0} }

FbVal(s, n, o) ==
  IF n \notin s.built \/ o >= Len(NT[n[1]].outs) THEN [known |-> TRUE, v |-> -2000000000]
  ELSE IF s.run.id = s.up /\ s.nblk > 0 /\ n \in s.run.nodes
       THEN IF Known(s, n) THEN [known |-> TRUE, v |-> OutVal([s EXCEPT !.rver = s.lver, !.at = s.lat], n, o, s.lastn - 1)]
            ELSE [known |-> FALSE, v |-> 0]
  ELSE [known |-> TRUE, v |-> 0]

\* nodes whose readouts must be current: they ran in the last block, and no clear is under way
LedLive(s) == IF s.nblk = 0 \/ ClearPending(s) THEN {} ELSE RunDyn(s)

(*------------------------------ invariants ------------------------------*)
\* the running graph is acyclic and only refers to its own nodes
RunSound(s) ==
  /\ Peel(s.run.nodes, Arcs(s.run.edges)) = {}
  /\ \A e \in s.run.edges : e.from \in s.run.nodes /\ e.to \in s.run.nodes /\ ValidEdge(e)
  /\ \A k \in DynKeys(s.run.nodes) : k \in DOMAIN s.ps
\* once all messages are delivered the audio side has the frontend's values as targets
Converged(s) ==
  s.q = <<>> =>
    /\ \A k \in DOMAIN s.ps : s.ps[k].to = s.pv[k]
    /\ s.run.id = s.up
    /\ \A n \in s.used : n \in s.run.nodes
    /\ s.modsOk => \A k \in DOMAIN s.run.mods : k \in DOMAIN s.ma /\ s.run.mods[k] = s.ma[k]
    /\ \A k \in DOMAIN s.at : s.at[k] = s.av[k]
=============================================================================
