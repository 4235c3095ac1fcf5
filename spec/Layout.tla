------------------------------- MODULE Layout -------------------------------
(* What the matrix answers about the layout of its cells, paths on the      *)
(* hexagonal grid, and placing chains of nodes.                             *)
EXTENDS Matrix

InB(s, p) == p \in Pos(s)

\* the choices for "inputs" (1), "outputs" (2) and "any" (3), in the order they are tried
Choices == << <<"T", "TL", "BL">>, <<"TR", "BR", "B">>, <<"T", "TL", "BL", "TR", "BR", "B">> >>
EdgeNo(d) == (CHOOSE j \in 1..6 : Dirs[j] = d) - 1

AdjOut(s, p, d) ==      \* the output an adjacent cell offers on the input edge d
  LET q == Nb(p, d) IN
  IF d \in Rng(InDirs) /\ InB(s, q) /\ s.cells[q].n # NoNode /\ Port(s.cells[q], Flip(d)) >= 0
  THEN <<s.cells[q].n[1], s.cells[q].n[2], Port(s.cells[q], Flip(d))>>
  ELSE <<"", 0, -1>>

AdjIn(s, p, d) ==       \* the cell behind the output edge d has an input there
  LET q == Nb(p, d) IN
  IF d \notin Rng(InDirs) /\ InB(s, q) /\ Port(s.cells[q], Flip(d)) >= 0 THEN 1 ELSE 0

\* port named on an edge and whether something is connected there (outputs only)
EdgeLabel(s, p, d) ==
  LET c == s.cells[p]
      k == Port(c, d)
      cnt == IF c.n = NoNode THEN 0
             ELSE IF d \in Rng(InDirs) THEN Len(NT[c.n[1]].ins) ELSE Len(NT[c.n[1]].outs) IN
  IF c.n = NoNode \/ c.n \notin s.exist \/ k < 0 \/ k >= cnt THEN <<-1, 0>>
  ELSE <<k, AdjIn(s, p, d)>>

PortCon(s, p, d) ==     \* the cell at the other end of a connection
  LET q == Nb(p, d) IN
  IF Port(s.cells[p], d) >= 0 /\ InB(s, q) /\ Port(s.cells[q], Flip(d)) >= 0 THEN q ELSE <<-1, -1>>

IsFree(s, p, d) == InB(s, Nb(p, d)) /\ s.cells[Nb(p, d)].n = NoNode
FreeDirs(s, p, k) == SelectSeq(Choices[k], LAMBDA d : IsFree(s, p, d))
AllFree(s, p, k) == [j \in DOMAIN FreeDirs(s, p, k) |->
                       LET d == FreeDirs(s, p, k)[j] IN <<EdgeNo(d), Nb(p, d)[1], Nb(p, d)[2]>>]
FirstFree(s, p, k) ==
  LET F == FreeDirs(s, p, k)
      W == SelectSeq(F, LAMBDA d : Port(s.cells[p], d) >= 0) IN
  IF W # <<>> THEN <<EdgeNo(W[1]), Port(s.cells[p], W[1])>>
  ELSE IF F # <<>> THEN <<EdgeNo(F[1]), -1>> ELSE <<-1, -1>>
Dangling(s, p, k) ==
  LET D == SelectSeq(Choices[k], LAMBDA d : PortCon(s, p, d) = <<-1, -1>>) IN
  [j \in DOMAIN D |-> EdgeNo(D[j])]

\* everything asked about the surroundings of one cell; the fields that are answered wrongly
AroundBad(s, e) ==
  LET p == <<e.x, e.y>>
      c == s.cells[p] IN
  IF p \notin Pos(s) THEN (IF e.some = 0 THEN {} ELSE {"around"})
  ELSE IF e.some = 0 THEN {"around"}
  ELSE (IF e.n = c.n /\ e.lbl = (IF c.n = NoNode THEN <<"", -1>> ELSE c.n) THEN {} ELSE {"around"})
       \cup (IF \A j \in 1..6 : e.ao[j] = AdjOut(s, p, Dirs[j]) THEN {} ELSE {"adjout"})
       \cup (IF \A j \in 1..6 : e.ei[j] = AdjIn(s, p, Dirs[j]) THEN {} ELSE {"adjin"})
       \cup (IF \A j \in 1..6 : e.el[j] = EdgeLabel(s, p, Dirs[j]) THEN {} ELSE {"label"})
       \cup (IF \A j \in 1..6 : e.pc[j] = PortCon(s, p, Dirs[j]) THEN {} ELSE {"portcon"})
       \cup (IF \A k \in 1..3 : e.fa[k] = AllFree(s, p, k) THEN {} ELSE {"free"})
       \cup (IF \A k \in 1..3 : e.ff[k] = FirstFree(s, p, k) THEN {} ELSE {"free"})
       \cup (IF \A k \in 1..3 : e.du[k] = Dangling(s, p, k) THEN {} ELSE {"dangling"})

\* a path is a sequence of steps from a to b that stays on the grid
RECURSIVE Walk(_, _, _)
Walk(a, path, j) == IF j > Len(path) THEN a
                    ELSE IF a[1] < 0 \/ a[2] < 0 \/ path[j] \notin 0..5 THEN <<-1, -1>>
                    ELSE Walk(Nb(a, Dirs[path[j] + 1]), path, j + 1)
PathBad(e) ==
  LET dx == Abs(e.a[1] - e.b[1])  dy == Abs(e.a[2] - e.b[2]) IN
  (IF Walk(e.a, e.path, 1) = e.b /\ Len(e.path) <= dx + dy THEN {} ELSE {"path"})
  \cup (IF e.adj = (IF \E j \in 1..6 : Nb(e.a, Dirs[j]) = e.b
                    THEN (CHOOSE j \in 1..6 : Nb(e.a, Dirs[j]) = e.b) - 1 ELSE -1)
        THEN {} ELSE {"adj"})

(*------------------------------- chains ---------------------------------*)
\* e: [d |-> edge number, x, y, links |-> << [n, o, i] >>, ps |-> << <<link, parameter, value>> >>]
OutEdge(d) == IF d <= 2 THEN d ELSE (d + 3) % 6
ChainIds(s, e) ==      \* the instances the links get: unused ones, each used once
  LET RECURSIVE F(_)
      F(j) == IF j = 0 THEN <<>>
              ELSE LET A == F(j - 1)
                       n == e.links[j].n
                       B == {k \in 1..(j - 1) : e.links[k].n = n}
                       from == IF B = {} THEN 0 ELSE (A[CHOOSE k \in B : \A l \in B : l <= k][2] + 1) % 256 IN
                   Append(A, UnusedInst(s, <<n, from>>))
  IN F(Len(e.links))
RECURSIVE ChainPos(_, _)
ChainPos(e, j) == IF j = 1 THEN <<e.x, e.y>> ELSE Nb(ChainPos(e, j - 1), Dirs[e.d + 1])
EdgePorts(e, l) ==
  LET od == OutEdge(e.d)              \* 0 TR, 1 BR, 2 B; the input lies opposite: BL, TL, T
      o == [NoPorts EXCEPT ![od + 1] = l.o]
      i == [NoPorts EXCEPT ![CASE od = 0 -> 3 [] od = 1 -> 2 [] OTHER -> 1] = l.i] IN
  [o |-> o, i |-> i]
ChainCells(s, e) ==
  LET ids == ChainIds(s, e) IN
  [j \in DOMAIN e.links |->
     LET p == ChainPos(e, j)  w == EdgePorts(e, e.links[j]) IN
     [x |-> p[1], y |-> p[2], n |-> ids[j], o |-> w.o, i |-> w.i]]
\* parameters are set in the order of the links
ChainKeys(s, e) ==
  LET ids == ChainIds(s, e)
      RECURSIVE G(_)
      G(j) == IF j > Len(e.links) THEN <<>>
              ELSE [k \in DOMAIN SelectSeq(e.ps, LAMBDA q : q[1] = j) |->
                      LET q == SelectSeq(e.ps, LAMBDA r : r[1] = j)[k] IN
                      <<<<ids[j][1], ids[j][2], q[2]>>, q[3]>>] \o G(j + 1)
  IN G(1)
ChainOk(e) == e.bad = 0
Chain(s, e) ==
  IF ~ChainOk(e) THEN s
  ELSE LET K == ChainKeys(s, e)
           RECURSIVE H(_, _)
           H(t, j) == IF j > Len(K) THEN t ELSE H(SetParam(t, K[j][1], K[j][2]), j + 1)
       IN H(Place(s, ChainCells(s, e)), 1)
ChainNtf(s, e) ==
  IF ~ChainOk(e) THEN <<>>
  ELSE [j \in DOMAIN ChainKeys(s, e) |-> LET k == ChainKeys(s, e)[j][1] IN <<"param", k[1], k[2], k[3]>>]

\* no node of a chain is one that is in use, and no two links share one (as long as there are unused ones)
ChainFresh(s, e) ==
  ChainOk(e) => LET ids == ChainIds(s, e) IN
     /\ \A j \in DOMAIN ids : ids[j] \notin s.used
     /\ \A j, k \in DOMAIN ids : j # k => ids[j] # ids[k]
=============================================================================
