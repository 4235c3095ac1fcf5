---------------------------- MODULE Trace_Nodes ----------------------------
(* Validates recorded runs of small graphs: every node must compute, from   *)
(* the inputs it got, what Nodes says.                                      *)
EXTENDS Nodes, SequencesExt, Json, IOUtils, TLC
VARIABLES tid, l, s, bad

Traces == ndJsonDeserialize(IOEnv.TRACES)
Has(e, f) == f \in DOMAIN e
Cfg == Traces[tid].cfg
Ns == 1..Len(Cfg.nodes)

\* where a port gets its values from: a signal, the output of a node, or a parameter
Ports(k) ==
  LET src == {j \in 1..Len(Cfg.src) : Cfg.src[j][1] + 1 = k}
      wir == {j \in 1..Len(Cfg.wire) : Cfg.wire[j][3] + 1 = k}
      snk(w) == CHOOSE j \in 1..Len(Cfg.snk) : Cfg.snk[j][1] = w[1] /\ Cfg.snk[j][2] = w[2]
      P == {Cfg.src[j][2] : j \in src} \cup {Cfg.wire[j][4] : j \in wir} \cup DOMAIN Cfg.nodes[k].val
  IN [p \in P |->
       IF \E j \in src : Cfg.src[j][2] = p THEN <<1, CHOOSE j \in src : Cfg.src[j][2] = p>>
       ELSE IF \E j \in wir : Cfg.wire[j][4] = p THEN <<2, snk(Cfg.wire[CHOOSE j \in wir : Cfg.wire[j][4] = p])>>
       ELSE <<3, Cfg.nodes[k].val[p]>>]

Feed(e, P, f) ==
  [p \in DOMAIN P |-> CASE P[p][1] = 1 -> e["in"][P[p][2]][f]
                        [] P[p][1] = 2 -> IF Len(e.out[P[p][2]]) = 0 THEN 0 ELSE e.out[P[p][2]][f]
                        [] P[p][1] = 3 -> P[p][2]]
Inputs(e, k, P, f) ==
  LET I == Feed(e, P, f) IN
  IF Cfg.nodes[k].n = "inp" THEN I @@ ("host1" :> e.host[1][f]) @@ ("host2" :> e.host[2][f]) ELSE I
Outputs(e, k, f) ==
  IF Cfg.nodes[k].n = "out" THEN ("host1" :> e.out[Len(Cfg.snk) + 1][f]) @@ ("host2" :> e.out[Len(Cfg.snk) + 2][f])
  ELSE LET J == {j \in 1..Len(Cfg.snk) : Cfg.snk[j][1] + 1 = k} IN
       [p \in {Cfg.snk[j][2] : j \in J} |-> e.out[CHOOSE j \in J : Cfg.snk[j][2] = p][f]]

At(k) == IF Cfg.nodes[k].n = "tseq" THEN Cfg.nodes[k].at @@ ("tab" :> SeqTab(Cfg.pat)) @@ ("stat" :> Cfg.pat.stat) ELSE Cfg.nodes[k].at
Init0 == [st |-> [k \in Ns |-> {InitNode(Cfg.nodes[k].n, Cfg.nodes[k].at)}], at |-> [k \in Ns |-> At(k)],
          on |-> Ns, t |-> 0, h |-> [i \in {Cfg.nodes[k].i : k \in Ns} |-> <<>>]]

Run(e, k) ==
  LET P == Ports(k)
      h == s.h[Cfg.nodes[k].i]
      kind == Cfg.nodes[k].n
      F(S, f) == LET I == Inputs(e, k, P, f)
                     O == Outputs(e, k, f)
                 IN UNION {{See(kind, r.st, I, O) : r \in {r \in Frame(kind, s.at[k], x, I, Cfg.sr, h, s.t + f, O) : Fits(kind, r, O)}} : x \in S}
  IN FoldLeft(F, s.st[k], [f \in 1..e.n |-> f])

LedBad(e, k) ==
  LET n == Cfg.nodes[k].n
      v == CASE n \in LedIsOut -> Outputs(e, k, e.n)[IF n = "inp" THEN "sig1" ELSE "sig"]
             [] n = "fbwr" -> Feed(e, Ports(k), e.n).inp
             [] n = "out" -> Feed(e, Ports(k), e.n).ch1
             [] n = "tseq" -> Outputs(e, k, e.n).trk1
             [] OTHER -> e.led[k][1]
  IN Abs(e.led[k][1] - v) > 1

Written(e, i) ==
  LET W == {k \in s.on : Cfg.nodes[k].n = "fbwr" /\ Cfg.nodes[k].i = i} IN
  IF W = {} THEN [f \in 1..e.n |-> 0]
  ELSE LET k == CHOOSE k \in W : TRUE
           P == Ports(k)
       IN [f \in 1..e.n |-> Feed(e, P, f).inp]

Block(e) ==
  LET R == [k \in Ns |-> IF k \in s.on THEN Run(e, k) ELSE s.st[k]] IN
  /\ s' = [s EXCEPT !.st = R, !.t = @ + e.n, !.h = [i \in DOMAIN @ |-> @[i] \o Written(e, i)]]
  /\ bad' = {Cfg.nodes[k].n : k \in {k \in Ns : R[k] = {}}}
            \cup (IF e.fin = 1 THEN {} ELSE {"finite"})
            \cup (IF \E k \in s.on : LedBad(e, k) THEN {"led"} ELSE {})

Init == tid \in 1..Len(Traces) /\ l = 0 /\ bad = {} /\ s = Init0
Next == /\ bad = {}
        /\ l < Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l + 1] IN
             IF Has(e, "panic") THEN s' = s /\ bad' = {"panic"}
             ELSE CASE e.op = "blk" -> Block(e)
                    [] e.op = "set" -> /\ s' = [s EXCEPT !.at[e.k + 1] = IF e.name = "sample" THEN [@ EXCEPT !.data = e.data, !.k = e.rate] ELSE [@ EXCEPT ![e.name] = e.v]]
                                       /\ bad' = {}
                    [] e.op = "only" -> s' = [s EXCEPT !.on = {e.ks[j] + 1 : j \in 1..Len(e.ks)}] /\ bad' = {}
        /\ l' = l + 1
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l, s, bad>>
Ok == bad = {} \/ PrintT(<<"BAD", tid, l, bad>>)
=============================================================================
