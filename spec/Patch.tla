------------------------------- MODULE Patch --------------------------------
(***************************************************************************)
(* What a user can save: the layout, parameter values, modulation amounts, *)
(* settings, properties, tracker patterns and block functions; saving into *)
(* and loading from patch slots (memory or files), also damaged ones.      *)
(*                                                                         *)
(* A document is the record Doc; a slot holds a document.  Loading replaces *)
(* the current document completely.  Keys are <<node, instance, name>>.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, NodeTypes

NoAmt == -99999
Ovr(f, k, v) == (k :> v) @@ f
Rng(q) == {q[j] : j \in DOMAIN q}
Abs(a) == IF a < 0 THEN -a ELSE a

NewPat == [rows |-> 256, ty |-> <<"v", "v", "v", "v", "v", "v">>, cells |-> <<>>, cur |-> <<2, 2>>, es |-> 4]

EmptyDoc == [cells |-> {}, pv |-> <<>>, ma |-> <<>>, av |-> <<>>, props |-> <<>>,
             pats |-> <<>>, blks |-> <<>>, any |-> FALSE]

InitPatch(w, h) == [w |-> w, h |-> h, doc |-> EmptyDoc, slots |-> <<>>, wild |-> FALSE]

(*------------------------------- edits ----------------------------------*)
RECURSIVE PutAll(_, _, _)
PutAll(s, cells, cs) ==
  IF cs = <<>> THEN cells
  ELSE LET c == Head(cs)
           keep == {d \in cells : ~(d.x = c.x /\ d.y = c.y)} IN
       PutAll(s, IF c.x < s.w /\ c.y < s.h
                 THEN (IF c.n[1] = "nop" THEN keep
                       ELSE keep \cup {[x |-> c.x, y |-> c.y, n |-> c.n, o |-> c.o, i |-> c.i]})
                 ELSE cells, Tail(cs))

Place(s, cs) == [s EXCEPT !.doc.cells = PutAll(s, @, cs)]
SetParam(s, k, v, d) == [s EXCEPT !.doc.pv = Ovr(@, k, <<v, d>>)]
SetAtom(s, k, a) == [s EXCEPT !.doc.av = Ovr(@, k, a)]
SetMod(s, k, a) == [s EXCEPT !.doc.ma = IF a = NoAmt THEN [j \in (DOMAIN @) \ {k} |-> @[j]] ELSE Ovr(@, k, a)]
SetProp(s, k, a) == [s EXCEPT !.doc.props = Ovr(@, k, a)]
SetBlk(s, b, show) == [s EXCEPT !.doc.blks = Ovr(@, b, show)]
\* clearing empties the layout with everything belonging to it
Clear(s) == [s EXCEPT !.doc = [EmptyDoc EXCEPT !.pats = s.doc.pats, !.blks = s.doc.blks]]

PatEdit(p, k, a, b, c) ==
  CASE k = "set"  -> IF a < 256 /\ b < 6 THEN [p EXCEPT !.cells = Ovr(@, <<a, b>>, c)] ELSE p
    [] k = "clr"  -> [p EXCEPT !.cells = [j \in (DOMAIN @) \ {<<a, b>>} |-> @[j]]]
    [] k = "rows" -> [p EXCEPT !.rows = IF a > 256 THEN 256 ELSE a]
    [] k = "cur"  -> [p EXCEPT !.cur = <<a, b>>]
    [] k = "es"   -> [p EXCEPT !.es = a]
    [] OTHER      -> IF a < 6 THEN [p EXCEPT !.ty = [@ EXCEPT ![a + 1] = k]] ELSE p
PatGet(d, t) == IF t \in DOMAIN d.pats THEN d.pats[t] ELSE NewPat
EditPat(s, t, k, a, b, c) == [s EXCEPT !.doc.pats = Ovr(@, t, PatEdit(PatGet(s.doc, t), k, a, b, c))]

(*--------------------------- saving, loading -----------------------------*)
\* a pattern without any cell and with only value columns counts as unset: it is not saved
Unset(p) == p.cells = <<>> /\ \A c \in 1..6 : p.ty[c] = "v"
Saved(d) == [d EXCEPT !.pats = [t \in {x \in DOMAIN @ : ~Unset(@[x])} |-> @[t]]]
Save(s, sl) == [s EXCEPT !.slots = Ovr(@, sl, Saved(s.doc))]
Load(s, sl) == [s EXCEPT !.doc = s.slots[sl], !.wild = FALSE]
\* a damaged patch is either refused (nothing changes) or replaces the document by something well formed
LoadDamaged(s, r) == IF r \in {"ok", "matrix"} THEN [s EXCEPT !.wild = TRUE] ELSE s

\* A stored patch, rewritten: sections cut short, ports given by number (those that do not exist
\* count as unconnected), unknown additions, older and newer versions of the format.
Port(names, n) == IF n >= 0 /\ n < Len(names) THEN n ELSE -1
Ports(q, names, n) == [k \in 1..3 |-> IF q[k] = -1 THEN -1 ELSE Port(names, n)]
WithPorts(x, side, n) == IF side = "inputs" THEN [x EXCEPT !.i = Ports(x.i, NT[x.n[1]].ins, n)] ELSE [x EXCEPT !.o = Ports(x.o, NT[x.n[1]].outs, n)]
Rewritten(d, c) ==
  CASE c[1] = "cut" ->
         (CASE c[2] = "patterns"   -> [d EXCEPT !.pats = [t \in {x \in DOMAIN @ : x < c[3]} |-> @[t]]]
            [] c[2] = "block_funs" -> [d EXCEPT !.blks = [t \in {x \in DOMAIN @ : x < c[3]} |-> @[t]]]
            [] c[2] = "params"     -> [d EXCEPT !.pv = <<>>, !.ma = <<>>]
            [] c[2] = "atoms"      -> [d EXCEPT !.av = <<>>]
            [] c[2] = "props"      -> [d EXCEPT !.props = <<>>]
            [] c[2] = "cells"      -> [d EXCEPT !.cells = {}])
    [] c[1] = "port" ->
         [d EXCEPT !.cells = {WithPorts(x, c[2], c[3]) : x \in d.cells}]
    [] OTHER -> d
RECURSIVE RewrittenAll(_, _)
RewrittenAll(d, cs) == IF cs = <<>> THEN d ELSE RewrittenAll(Rewritten(d, Head(cs)), Tail(cs))
\* (a later cut may take the wrong line away again)
CutAfter(cs, j, sect) == \E m \in (j + 1)..Len(cs) : cs[m][1] = "cut" /\ cs[m][2] = sect
Wrong(cs) == {j \in DOMAIN cs : \/ cs[j][1] = "v3"
                                \/ cs[j][1] = "nonode" /\ ~CutAfter(cs, j, "cells")
                                \/ cs[j][1] = "noparam" /\ ~CutAfter(cs, j, "params")}
LoadAs(s, sl, cs, fresh) ==
  IF Wrong(cs) # {} THEN (IF fresh = 1 THEN [s EXCEPT !.doc = EmptyDoc] ELSE s)
  ELSE [s EXCEPT !.doc = RewrittenAll(s.slots[sl], cs), !.wild = FALSE]

(*------------------------ comparison with an observed dump ----------------*)
\* parameter values survive a save as physical values (Hz, ms, dB): small rounding is fine
CloseD(a, b) == Abs(a - b) <= 3 + (IF Abs(a) > 2000000000 THEN 1000000000 ELSE Abs(a)) \div 4000
CloseN(a, b) == Abs(a - b) <= 8

PatOf(x) == [rows |-> x.rows, ty |-> x.ty, cur |-> x.cur, es |-> x.es,
             cells |-> IF x.cells = <<>> THEN <<>> ELSE [k \in {<<c[1], c[2]>> : c \in Rng(x.cells)} |->
                          (CHOOSE c \in Rng(x.cells) : c[1] = k[1] /\ c[2] = k[2])[3]]]
CellsOf(lay) == {[x |-> c.x, y |-> c.y, n |-> c.n, o |-> c.o, i |-> c.i] : c \in Rng(lay)}

DumpBad(d, e) ==
     (IF CellsOf(e.lay) = d.cells THEN {} ELSE {"layout"})
  \cup (IF d.any \/ \A x \in Rng(e.ps) :
            LET exp == IF x[1] \in DOMAIN d.pv THEN d.pv[x[1]] ELSE <<x[4], x[5]>> IN
            CloseD(x[3], exp[2]) /\ (x[1] \in DOMAIN d.pv => CloseN(x[2], exp[1]))
        THEN {} ELSE {"params"})
  \cup (IF d.any \/ \A x \in Rng(e.ps) : x[6] = (IF x[1] \in DOMAIN d.ma THEN d.ma[x[1]] ELSE NoAmt)
        THEN {} ELSE {"mods"})
  \cup (IF \A x \in Rng(e.ats) : x[2] = (IF x[1] \in DOMAIN d.av THEN d.av[x[1]] ELSE x[3])
        THEN {} ELSE {"settings"})
  \cup (IF \A x \in Rng(e.props) : x[2] = (IF x[1] \in DOMAIN d.props THEN d.props[x[1]] ELSE "-")
        THEN {} ELSE {"props"})
  \cup (IF \A x \in Rng(e.pats) : PatOf(x) = PatGet(d, x.id) /\ \A c \in Rng(x.cells) : c[4] = c[3] THEN {} ELSE {"patterns"})
  \cup (IF \A x \in Rng(e.blks) : x[1] \in DOMAIN d.blks => x[2] = d.blks[x[1]] THEN {} ELSE {"blocks"})
  \cup (IF \A x \in Rng(e.blks) : x[1] \notin DOMAIN d.blks => x[2] = "A0  16x16;<r>#0:[<=<a>#0:[]]" THEN {} ELSE {"blocks"})

\* after a damaged patch was accepted, the document is whatever was observed, as long as it is well formed
DocOf(e) ==
  [cells |-> CellsOf(e.lay),
   pv |-> [k \in {x[1] : x \in Rng(e.ps)} |-> LET x == CHOOSE y \in Rng(e.ps) : y[1] = k IN <<x[2], x[3]>>],
   ma |-> [k \in {x[1] : x \in {y \in Rng(e.ps) : y[6] # NoAmt}} |-> (CHOOSE y \in Rng(e.ps) : y[1] = k)[6]],
   av |-> [k \in {x[1] : x \in Rng(e.ats)} |-> (CHOOSE y \in Rng(e.ats) : y[1] = k)[2]],
   props |-> [k \in {x[1] : x \in {y \in Rng(e.props) : y[2] # "-"}} |-> (CHOOSE y \in Rng(e.props) : y[1] = k)[2]],
   pats |-> [t \in {x.id : x \in Rng(e.pats)} |-> PatOf(CHOOSE x \in Rng(e.pats) : x.id = t)],
   blks |-> [b \in {x[1] : x \in Rng(e.blks)} |-> (CHOOSE y \in Rng(e.blks) : y[1] = b)[2]],
   any |-> TRUE]
WellFormed(s, d) ==
  /\ \A c \in d.cells : c.x < s.w /\ c.y < s.h
  /\ \A c \in d.cells : \A k \in 1..3 : (c.i[k] = -1 \/ c.i[k] \in 0..(Len(NT[c.n[1]].ins) - 1)) /\ (c.o[k] = -1 \/ c.o[k] \in 0..(Len(NT[c.n[1]].outs) - 1))
  /\ \A a, b \in d.cells : (a.x = b.x /\ a.y = b.y) => a = b
  /\ \A k \in DOMAIN d.pv : Abs(d.pv[k][1]) < 2000000001
  /\ \A k \in DOMAIN d.ma : Abs(d.ma[k]) < 2000000001
  /\ \A t \in DOMAIN d.pats : d.pats[t].rows \in 0..256 /\ \A k \in DOMAIN d.pats[t].cells : k[1] < 256 /\ k[2] < 6
=============================================================================
