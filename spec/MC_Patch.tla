------------------------------ MODULE MC_Patch ------------------------------
(* All short histories of editing, saving and loading over a tiny document. *)
EXTENDS Patch
CONSTANTS Depth
VARIABLES s, last, n
vars == <<s, last, n>>
K1 == <<"sin", 0, "det">>
K2 == <<"tseq", 0, "cmode">>
C1 == [x |-> 0, y |-> 0, n |-> <<"sin", 0>>, o |-> <<0, -1, -1>>, i |-> <<-1, -1, -1>>]
C2 == [C1 EXCEPT !.n = <<"nop", 0>>]
C3 == [C1 EXCEPT !.x = 5]

Edits(t) ==
  {Place(t, <<C1>>), Place(t, <<C2>>), Place(t, <<C3>>), SetParam(t, K1, 64, 64), SetAtom(t, K2, "i:1"), SetMod(t, K1, 5), SetMod(t, K1, NoAmt),
   SetProp(t, "a", "i:1"), SetBlk(t, 0, "x"), Clear(t), EditPat(t, 0, "set", 1, 1, 7), EditPat(t, 0, "clr", 1, 1, 0), EditPat(t, 0, "rows", 16, 0, 0), EditPat(t, 0, "g", 2, 0, 0)}

Init == s = InitPatch(2, 2) /\ last = "-" /\ n = 0
Next ==
  /\ n < Depth /\ n' = n + 1
  /\ \/ \E t \in Edits(s) : s' = t /\ last' = "edit"
     \/ \E sl \in 0..1 : s' = Save(s, sl) /\ last' = "save"
     \/ \E sl \in DOMAIN s.slots : s' = Load(s, sl) /\ last' = "load"
     \/ \E sl \in DOMAIN s.slots, c \in {<<"cut", "patterns", 0>>, <<"port", "outputs", 9>>, <<"num", "", 0>>} : s' = LoadAs(s, sl, <<c>>, 0) /\ last' = "load"
     \/ \E sl \in DOMAIN s.slots : s' = LoadAs(s, sl, <<<<"v3", "", 0>>, <<"cut", "cells", 0>>>>, 0) /\ last' = "dam"
     \/ \E r \in {"ok", "syntax"} : s' = LoadDamaged(s, r) /\ last' = "dam"
Spec == Init /\ [][Next]_vars

View == <<s, n>>
\* loading gives exactly what was saved, and saving that again changes nothing
RoundTrip == \A sl \in DOMAIN s.slots : Saved(Load(s, sl).doc) = s.slots[sl]
\* nothing but saving touches what was saved; a refused patch changes nothing
Frame == [][ /\ last' # "save" => s'.slots = s.slots
             /\ last' \in {"save", "dam"} => s'.doc = s.doc ]_vars
InBounds == WellFormed(s, s.doc)
=============================================================================
