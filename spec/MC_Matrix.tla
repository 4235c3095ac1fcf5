------------------------------ MODULE MC_Matrix ------------------------------
(* Explores Matrix on a small board.  `hist` is the script of operations in *)
(* the form the harness replays; with a VIEW it is ignored and TLC explores *)
(* the distinct states, without one it enumerates all histories, and with   *)
(* -simulate it samples long ones.                                          *)
EXTENDS Layout, Json
CONSTANTS W, H, Depth, Full, Emit, Sim
VARIABLES s, hist

R(k) == <<"rust1x1", k>>
CellOpts ==
  LET ns == IF Full THEN {R(0), R(1), R(2), <<"exta", 0>>, <<"test", 0>>} ELSE {R(0), R(1)}
      is == IF Full THEN {<<0, 1, 2>>, <<0, 0, 1>>, <<4, -1, 0>>, <<-1, -1, -1>>} ELSE {<<0, 1, 1>>, <<-1, -1, -1>>}
      os == IF Full THEN {<<0, 0, 0>>, <<-1, -1, 0>>, <<-1, -1, -1>>} ELSE {<<0, 0, 0>>}
  IN {[n |-> n, o |-> o, i |-> i] : n \in ns, o \in os, i \in is} \cup {EmptyCell}
Posns == (0..(W - 1)) \X (0..(H - 1))
Cells == {[x |-> p[1], y |-> p[2], n |-> c.n, o |-> c.o, i |-> c.i] : p \in Posns, c \in CellOpts}

Keys == IF Full THEN {<<"rust1x1", a, b>> : a \in 0..2, b \in {0, 1, 4}} ELSE {<<"rust1x1", 0, 1>>, <<"rust1x1", 1, 0>>}
Vals == IF Full THEN {0, 1024, -4096, 4096} ELSE {1024}
Amts == IF Full THEN {NoAmt, 0, 128, -256} ELSE {NoAmt, 128}
Ns == IF Full THEN {1, 64, 128} ELSE {128}

\* chains of two nodes, with a parameter of the second one
Chains == {[op |-> "chain", d |-> d, x |-> p[1], y |-> p[2], bad |-> 0, early |-> 0,
            links |-> <<[n |-> "rust1x1", o |-> 0, i |-> -1], [n |-> m, o |-> 0, i |-> 0]>>,
            ps |-> IF m = "rust1x1" THEN <<<<2, 1, 1024>>>> ELSE <<>>]
             : d \in (IF Full THEN 0..5 ELSE {2, 4}), p \in (IF Full THEN Posns ELSE {<<0, 0>>}),
               m \in (IF Full THEN {"rust1x1", "test"} ELSE {"rust1x1"})}

Ops ==
     {[op |-> "change", cells |-> <<c>>] : c \in Cells}
  \cup (IF Full THEN {[op |-> "placem", cells |-> <<c>>] : c \in Cells} ELSE {})
  \cup {[op |-> "sync"], [op |-> "clear"], [op |-> "upd"]}
  \cup (IF Full THEN {[op |-> "save"], [op |-> "restore"], [op |-> "check"]} ELSE {})
  \cup {[op |-> "setp", p |-> k, v |-> v] : k \in Keys, v \in Vals}
  \cup {[op |-> "mod", p |-> k, a |-> a] : k \in Keys, a \in Amts}
  \cup {[op |-> "blk", n |-> n] : n \in Ns}
  \cup Chains
  \cup (IF Full THEN {[op |-> "dyn", i |-> i, v |-> s.ver[i] + 1] : i \in 0..2} ELSE {})

\* weighted random choice, for simulation
RandomOp ==
  LET c == RandomElement(1..21) IN
  CASE c <= 5  -> [op |-> "change", cells |-> <<RandomElement(Cells)>>]
    [] c = 6   -> [op |-> "placem", cells |-> <<RandomElement(Cells), RandomElement(Cells)>>]
    [] c = 7   -> [op |-> "change", cells |-> <<RandomElement(Cells), RandomElement(Cells)>>]
    [] c <= 10 -> [op |-> "sync"]
    [] c <= 12 -> [op |-> "upd"]
    [] c <= 14 -> [op |-> "blk", n |-> RandomElement(Ns)]
    [] c <= 16 -> [op |-> "setp", p |-> RandomElement(Keys), v |-> RandomElement(Vals)]
    [] c <= 18 -> [op |-> "mod", p |-> RandomElement(Keys), a |-> RandomElement(Amts)]
    [] c = 21 /\ \A n \in s.exist : n[2] < 16 -> RandomElement(Chains)
    [] OTHER   -> RandomElement({[op |-> "clear"], [op |-> "save"], [op |-> "restore"], [op |-> "check"],
                                 [op |-> "sync"], [op |-> "upd"],
                                 [op |-> "dyn", i |-> 1, v |-> s.ver[1] + 1]})

Do(t, e) ==
  CASE e.op = "change"  -> Change(t, e.cells)
    [] e.op = "placem"  -> PlaceMulti(t, e.cells)
    [] e.op = "check"   -> Check(t)
    [] e.op = "save"    -> SaveMatrix(t)
    [] e.op = "restore" -> RestoreMatrix(t)
    [] e.op = "sync"    -> Sync(t)
    [] e.op = "setp"    -> SetParam(t, e.p, e.v)
    [] e.op = "mod"     -> SetMod(t, e.p, e.a)
    [] e.op = "clear"   -> Clear(t)
    [] e.op = "dyn"     -> SetDyn(t, e.i, e.v)
    [] e.op = "upd"     -> Update(t)
    [] e.op = "chain"   -> Chain(t, e)
    [] OTHER            -> Block(t, e.n)

SR == 8000
Init == s = InitEng(W, H, SR) /\ hist = <<>>
Next ==
  /\ Len(hist) < Depth
  /\ \E e \in (IF Sim THEN {RandomOp} ELSE Ops) :
                    /\ hist' = Append(hist, e)
                    /\ s' = Do(s, e)
Spec == Init /\ [][Next]_<<s, hist>>

View == [s EXCEPT !.blk = 0, !.up = 0, !.run.id = 0, !.led = <<>>, !.lver = <<>>]

Inv ==
  /\ RunSound(s)
  /\ Converged(s)
  \* connections look the same from both ends, and those into a node are the edges of the graph
  /\ \A p \in Pos(s), j \in 1..6 :
       LET q == PortCon(s, p, Dirs[j]) IN
       q # <<-1, -1>> => PortCon(s, q, Flip(Dirs[j])) = p /\ ~IsFree(s, p, Dirs[j])
  /\ \A p \in Pos(s), d \in 1..3 :
       Linked(s, s.cells, p, d) <=> (PortCon(s, p, InDirs[d]) # <<-1, -1>>)
  \* settled parameters sit at their target
  /\ \A k \in DOMAIN s.ps : s.ps[k].left = 0 => s.ps[k].lo = s.ps[k].to /\ s.ps[k].hi = s.ps[k].to

\* two-state properties, checked on every transition
Step ==
  LET e == hist'[Len(hist')] IN
  \* a validated layout is only ever replaced by a valid one, unless restored by hand
  /\ (e.op \in {"change", "placem"} /\ LayoutRes(s, s.cells) = "ok") => LayoutRes(s', s'.cells) = "ok"
  \* a rejected edit leaves everything but the checkpoint as it was
  /\ (e.op = "change" /\ ChangeRes(s, e.cells) # "ok")
       => s'.cells = s.cells /\ s'.q = s.q /\ s'.run = s.run /\ s'.exist = s.exist
  \* a chain takes instances that are not in use
  /\ e.op = "chain" => ChainFresh(s, e)
  \* updates never touch what the frontend sees, frontend operations never touch the audio side
  /\ e.op \in {"upd", "blk"} => s'.cells = s.cells /\ s'.pv = s.pv /\ s'.ma = s.ma /\ s'.up = s.up
  /\ e.op \notin {"upd", "blk"} => s'.run = s.run /\ s'.ps = s.ps
Steps == [][Step]_<<s, hist>>
EmitInv == (Emit /\ Len(hist) = Depth) => PrintT("@S " \o ToJson(hist))
=============================================================================
