---------------------------- MODULE Trace_Matrix ----------------------------
(* Validates recorded executions of the engine against Matrix.             *)
EXTENDS Layout, Json, IOUtils
VARIABLES tid, l, s, gen, bad

Traces == ndJsonDeserialize(IOEnv.TRACES)

Has(e, f) == f \in DOMAIN e
CellSet(cs) == {[p |-> <<c.x, c.y>>, n |-> c.n, o |-> c.o, i |-> c.i] : c \in Rng(cs)}
LaySet(st) == {[p |-> p, n |-> st.cells[p].n, o |-> st.cells[p].o, i |-> st.cells[p].i]
                 : p \in {q \in DOMAIN st.cells : st.cells[q].n # NoNode}}

\* while a clear is under way a node may run the previous or the latest function
Cur(e) ==
  IF e.op = "blk" /\ ClearPending(s)
  THEN [s EXCEPT !.rver = [i \in DOMAIN @ |->
          IF \E c \in Rng(e.calls) : c.i = i /\ c.v = s.ver[i] THEN s.ver[i] ELSE @[i]]]
  ELSE s

Step(e) ==
  CASE e.op = "change"  -> Change(s, e.cells)
    [] e.op = "placem"  -> PlaceMulti(s, e.cells)
    [] e.op = "place"   -> Place(s, e.cells)
    [] e.op = "check"   -> Check(s)
    [] e.op = "save"    -> SaveMatrix(s)
    [] e.op = "restore" -> RestoreMatrix(s)
    [] e.op = "sync"    -> Sync(s)
    [] e.op = "setp"    -> SetParam(s, e.p, e.v)
    [] e.op = "seta"    -> SetAtom(s, e.p, e.v)
    [] e.op = "mod"     -> SetMod(s, e.p, e.a)
    [] e.op = "prop"    -> SetProp(s, e.k, e.v)
    [] e.op = "clear"   -> Clear(s)
    [] e.op = "dyn"     -> SetDyn(s, e.i, e.v)
    [] e.op \in {"upd", "catch"} -> Update(s)
    [] e.op = "blk"     -> Block(Cur(e), e.n)
    [] e.op = "chain"   -> Chain(s, e)
    [] OTHER            -> s

Res(e) ==
  CASE e.op = "change" -> ChangeRes(s, e.cells)
    [] e.op = "placem" -> PlaceRes(s, e.cells)
    [] e.op = "check"  -> LayoutRes(s, s.cells)
    [] e.op = "sync"   -> SyncRes(s)
    [] e.op = "chain"  -> IF ChainOk(e) THEN "ok" ELSE "bad"
    [] e.op = "mod"    -> IF ModRebuilds(s, e.p, e.a) THEN SyncRes(s) ELSE "ok"
    [] OTHER -> "ok"

\* operations after which the frontend's generation must have moved
Bumps(e) ==
  \/ e.op \in {"setp", "seta", "prop", "clear"}
  \/ e.op = "sync" /\ SyncRes(s) = "ok"
  \/ e.op = "mod" /\ Res(e) = "ok"
  \/ e.op = "chain" /\ ChainNtf(s, e) # <<>>

Ntf(e) == SelectSeq(e.ntf, LAMBDA m : m[1] # "mon")
NtfOk(e) ==
  LET N == Ntf(e) IN
  CASE e.op \in {"setp", "seta", "mod"} -> N = <<<<"param", e.p[1], e.p[2], e.p[3]>>>>
    [] e.op = "prop" -> N = <<<<"prop", e.k, 0, 0>>>>
    [] e.op = "sync" -> N = IF SyncRes(s) = "ok" THEN <<<<"matrix", "", 0, 0>>>> ELSE <<>>
    [] e.op = "clear" -> <<"all", "", 0, 0>> \in Rng(N)
    [] e.op = "chain" -> N = ChainNtf(s, e)
    [] OTHER -> N = <<>>

BlkBad(t, e) == BlockMis(s, Cur(e), t, e)

QueryBad(t, e) ==
  CASE e.op = "blk" -> BlkBad(t, e)
    [] e.op = "getp" ->
         IF \A x \in Rng(e.vals) :
              LET k == x[1]
                  def == KNode(k) \in s.built
                  exp == IF k[1] = Dyn
                         THEN IF k \in DOMAIN s.pv THEN s.pv[k] ELSE -2000000000
                         ELSE IF k \in DOMAIN s.av THEN s.av[k] ELSE IF def THEN 0 ELSE -2000000000
              IN x[2] = exp /\ x[3] = (IF k \in DOMAIN s.ma THEN s.ma[k] ELSE NoAmt)
         THEN {} ELSE {"getp"}
    [] e.op = "getprop" -> IF e.val = (IF e.k \in DOMAIN s.props THEN s.props[e.k] ELSE -999)
                           THEN {} ELSE {"prop"}
    [] e.op = "led" ->
         IF \A x \in Rng(e.leds) :
              x[1] \in LedLive(s) => /\ x[2] = s.led[x[1]]
                                       /\ x[3] = s.led[x[1]] + 2048
         THEN {} ELSE {"led"}
    [] e.op = "fb" ->
         IF \A x \in Rng(e.fbs) : LET f == FbVal(s, <<x[1][1], x[1][2]>>, x[1][3]) IN
              f.known => x[2] = f.v
         THEN {} ELSE {"fb"}
    [] e.op = "unused" -> IF e.got = UnusedInst(s, e.n) THEN {} ELSE {"unused"}
    [] e.op = "used" ->
         IF s.chk.ok => \A x \in Rng(e.useds) :
              (x[2] = 1) = (\E g \in s.chk.e : <<g.to[1], g.to[2], g.ti>> = x[1])
         THEN {} ELSE {"used"}
    [] e.op = "conns" ->
         IF <<e.x, e.y>> \in Pos(s)
         THEN IF e.some = 1 /\ Rng(e.cs) = Conns(s, e.x, e.y) THEN {} ELSE {"conns"}
         ELSE IF e.some = 0 THEN {} ELSE {"conns"}
    [] e.op = "around" -> AroundBad(s, e)
    [] e.op = "path" -> PathBad(e)
    [] e.op = "chain" -> IF ChainFresh(s, e) THEN {} ELSE {"model"}
    [] OTHER -> {}

Bad(t, e) ==
  IF Has(e, "panic") THEN {"panic"}
  ELSE (IF Has(e, "res") /\ e.res # Res(e) THEN {"res"} ELSE {})
       \cup (IF CellSet(e.lay) # LaySet(t) THEN {"lay"} ELSE {})
       \cup (IF (Bumps(e) /\ e.gen <= gen) \/ (~Bumps(e) /\ e.gen # gen) THEN {"gen"} ELSE {})
       \cup (IF NtfOk(e) THEN {} ELSE {"ntf"})
       \cup QueryBad(t, e)
       \cup (IF RunSound(t) /\ Converged(t) THEN {} ELSE {"model"})

Init ==
  /\ tid \in 1..Len(Traces)
  /\ l = 0 /\ bad = {} /\ gen = 0
  /\ s = LET c == Traces[tid].cfg IN InitEng(c.w, c.h, c.sr)

Next ==
  /\ bad = {}
  /\ l < Len(Traces[tid].ev)
  /\ LET e == Traces[tid].ev[l + 1] IN
       /\ s' = IF Has(e, "panic") THEN s ELSE Step(e)
       /\ bad' = Bad(s', e)
       /\ gen' = IF Has(e, "panic") THEN gen ELSE e.gen
  /\ l' = l + 1
  /\ UNCHANGED tid

Spec == Init /\ [][Next]_<<tid, l, s, gen, bad>>
Ok == bad = {} \/ PrintT(<<"BAD", tid, l, bad>>)
=============================================================================
