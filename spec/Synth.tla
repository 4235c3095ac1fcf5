------------------------------- MODULE Synth --------------------------------
(***************************************************************************)
(* The SynthConstructor: graphs described by linked builder nodes are      *)
(* merged into the known graph and uploaded as a whole.  Everything behind  *)
(* the upload (queue, audio side, parameters) is the engine of Matrix.     *)
(*                                                                         *)
(* A description is a sequence of builder nodes; builder node j has a node  *)
(* n and operations  <<"set", port, v>>, <<"mod", port, v, amount>>,        *)
(* <<"atom", port, v>>, <<"in", port, builder node, output>>.               *)
(***************************************************************************)
EXTENDS Matrix

InitSynth(sr) == [InitEng(1, 1, sr) EXCEPT !.cells = <<>>] @@ [g |-> [nodes |-> {}, wires |-> <<>>, pv |-> <<>>, av |-> <<>>, ma |-> <<>>]]

RECURSIVE Linked1(_, _)
Linked1(D, J) == LET K == J \cup UNION {{D[j].ops[o][3] : o \in {p \in DOMAIN D[j].ops : D[j].ops[p][1] = "in"}} : j \in J} IN
                 IF K = J THEN J ELSE Linked1(D, K)
\* the operations of all builder nodes that belong to the description with the given root
OpsOf(D, root) == UNION {{[n |-> D[j].n, o |-> D[j].ops[k], at |-> <<j, k>>] : k \in DOMAIN D[j].ops} : j \in Linked1(D, {root})}
NodesIn(D, root) == {D[j].n : j \in Linked1(D, {root})}
Key(x) == <<x.n[1], x.n[2], x.o[2]>>
\* of several operations on the same port the last one of a builder node counts
Last1(X, f(_)) == {x \in X : ~\E y \in X : f(y) = f(x) /\ (y.at[1] > x.at[1] \/ (y.at[1] = x.at[1] /\ y.at[2] > x.at[2]))}
AsFun(X, val(_)) == LET Y == Last1(X, Key) IN [k \in {Key(x) : x \in Y} |-> val(CHOOSE x \in Y : Key(x) = k)]

Merge(g, D, root, wires) ==
  LET X == OpsOf(D, root)
      P == {x \in X : x.o[1] \in {"set", "mod"}}
      amt(x) == IF x.o[1] = "mod" THEN x.o[4] ELSE NoAmt
  IN [nodes |-> g.nodes \cup NodesIn(D, root),
      wires |-> IF wires THEN AsFun({x \in X : x.o[1] = "in"}, LAMBDA x : <<D[x.o[3]].n, x.o[4]>>) @@ g.wires ELSE g.wires,
      pv |-> AsFun(P, LAMBDA x : x.o[3]) @@ g.pv,
      ma |-> AsFun(P, amt) @@ g.ma,
      av |-> AsFun({x \in X : x.o[1] = "atom"}, LAMBDA x : x.o[3]) @@ g.av]

WireSet(g) == {[to |-> <<k[1], k[2]>>, ti |-> k[3], from |-> g.wires[k][1], fo |-> g.wires[k][2]] : k \in DOMAIN g.wires}

NPar(n) == Len(NT[n[1]].ins)
BadParam(D, root) == \E x \in OpsOf(D, root) :
   \/ x.o[1] \in {"set", "mod", "in"} /\ x.o[2] >= NPar(x.n)
   \/ x.o[1] = "atom" /\ x.o[2] \notin Rng(NT[x.n[1]].atp)
BadOut(D, root) == \E x \in OpsOf(D, root) : x.o[1] = "in" /\ x.o[4] >= Len(NT[D[x.o[3]].n[1]].outs)

\* the errors that may be reported for a description (empty: it is fine)
Errors(s, D, root) ==
  LET g == Merge(s.g, D, root, TRUE) IN
  (IF BadParam(D, root) THEN {"param"} ELSE {}) \cup (IF BadOut(D, root) THEN {"out"} ELSE {})
  \cup (IF HasCycle(g.nodes, WireSet(g)) THEN {"cycle"} ELSE {})

(*------------------------- parameters and amounts ------------------------*)
\* the changes an upload or update makes, as messages to the audio side
PutPar(s, g, k) ==
  LET old == IF k \in DOMAIN s.ma THEN s.ma[k] ELSE NoAmt
      new == g.ma[k]
      s1 == IF k \in DOMAIN s.pv /\ s.pv[k] = g.pv[k] /\ old = new THEN s ELSE SetParam(s, k, g.pv[k])
      ma2 == IF new = NoAmt THEN [j \in (DOMAIN s.ma) \ {k} |-> s.ma[j]] ELSE Ovr(s.ma, k, new)
  IN IF old = new THEN s1
     ELSE IF old # NoAmt /\ new # NoAmt THEN [s1 EXCEPT !.ma = ma2, !.q = Append(@, [k |-> "mod", key |-> k, v |-> new])]
     ELSE [s1 EXCEPT !.ma = ma2]
PutAt(s, g, k) == IF k \in DOMAIN s.av /\ s.av[k] = g.av[k] THEN s ELSE SetAtom(s, k, g.av[k])
RECURSIVE PutPars(_, _, _)
PutPars(s, g, K) == IF K = {} THEN s ELSE LET k == CHOOSE x \in K : TRUE IN PutPars(PutPar(s, g, k), g, K \ {k})
RECURSIVE PutAts(_, _, _)
PutAts(s, g, K) == IF K = {} THEN s ELSE LET k == CHOOSE x \in K : TRUE IN PutAts(PutAt(s, g, k), g, K \ {k})
Apply(s, g, N) == PutAts(PutPars(s, g, {k \in DOMAIN g.pv : KNode(k) \in N}), g, {k \in DOMAIN g.av : KNode(k) \in N})
\* an amount that appears or disappears needs a new graph
Rewires(s, g, N) == \E k \in DOMAIN g.ma : KNode(k) \in N /\ (g.ma[k] = NoAmt) # (k \notin DOMAIN s.ma)

(*----------------------------- the operations ----------------------------*)
Build(s, g) ==
  LET s1 == [Apply([s EXCEPT !.exist = @ \cup g.nodes], g, g.nodes) EXCEPT !.g = g]
      ex == s1.exist
      PK == DynKeys(ex)
      pv2 == [k \in PK |-> IF k \in DOMAIN s1.pv THEN s1.pv[k] ELSE 0] @@ s1.pv
      prog == [id |-> s.up + 1, nodes |-> g.nodes, edges |-> WireSet(g), mods |-> s1.ma, pv |-> [k \in PK |-> pv2[k]],
               av |-> [k \in {j \in DOMAIN s1.av : KNode(j) \in ex} |-> s1.av[k]]] IN
  [s1 EXCEPT !.built = ex, !.used = g.nodes, !.pv = pv2, !.up = @ + 1, !.q = Append(@, [k |-> "prog", p |-> prog])]

\* a refused description changes nothing
Upload(s, D, root) == IF Errors(s, D, root) # {} THEN s ELSE Build(s, Merge(s.g, D, root, TRUE))

NewWires(s, D, root) == Merge(s.g, D, root, TRUE).wires # s.g.wires
\* whether updating parameters has to upload a new graph
Reuploads(s, D, root) == NewWires(s, D, root) \/ Rewires(s, Merge(s.g, D, root, FALSE), NodesIn(D, root))
Update1(s, D, root) ==
  IF Errors(s, D, root) # {} THEN s
  ELSE IF Reuploads(s, D, root) THEN Build(s, Merge(s.g, D, root, TRUE))
  ELSE LET g == Merge(s.g, D, root, FALSE) IN [Apply(s, g, NodesIn(D, root)) EXCEPT !.g = g]

ClearSynth(s) ==
  [s EXCEPT !.exist = {}, !.built = {}, !.used = {}, !.pv = <<>>, !.av = <<>>, !.ma = <<>>, !.led = <<>>,
            !.up = @ + 1, !.q = Append(Append(@, [k |-> "clear"]), [k |-> "prog", p |-> [NoProg EXCEPT !.id = s.up + 1]]),
            !.g = [nodes |-> {}, wires |-> <<>>, pv |-> <<>>, av |-> <<>>, ma |-> <<>>]]
=============================================================================
