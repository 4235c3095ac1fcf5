----------------------------- MODULE Trace_Patch ----------------------------
(* Validates recorded edit/save/load histories against Patch.              *)
EXTENDS Patch, Json, IOUtils
VARIABLES tid, l, s, bad
Traces == ndJsonDeserialize(IOEnv.TRACES)
Has(e, f) == f \in DOMAIN e

Step(e) ==
  CASE e.op = "place"  -> Place(s, e.cells)
    [] e.op = "clear"  -> Clear(s)
    [] e.op = "setp"   -> SetParam(s, e.k, e.v, e.d)
    [] e.op = "seta"   -> SetAtom(s, e.k, e.s)
    [] e.op = "mod"    -> SetMod(s, e.k, e.a)
    [] e.op = "prop"   -> SetProp(s, e.k, e.s)
    [] e.op = "pat"    -> EditPat(s, e.t, e.k, e.a, e.b, e.c)
    [] e.op = "blkfun" -> SetBlk(s, e.b, e.show)
    [] e.op = "save"   -> Save(s, e.slot)
    [] e.op = "load"   -> Load(s, e.slot)
    [] e.op = "loadas" -> LoadAs(s, e.slot, e.chg, e.fresh)
    [] e.op = "loadmut" -> LoadDamaged(s, e.res)
    [] e.op = "dump" /\ s.wild -> [s EXCEPT !.wild = FALSE, !.doc = DocOf(e)]
    [] OTHER -> s

Bad(t, e) ==
  IF Has(e, "panic") THEN {"panic"}
  ELSE IF e.op = "load" THEN (IF e.res \in {"ok", "matrix"} THEN {} ELSE {"load"})
  ELSE IF e.op = "loadas" THEN (IF Wrong(e.chg) = {} THEN (IF e.res \in {"ok", "matrix"} THEN {} ELSE {"load"})
                                ELSE IF e.res \in {IF x = "v3" THEN "version" ELSE IF x = "nonode" THEN "node" ELSE "param" : x \in {e.chg[j][1] : j \in Wrong(e.chg)}} THEN {} ELSE {"load"})
  ELSE IF e.op = "dump" THEN (IF s.wild THEN (IF WellFormed(s, t.doc) THEN {} ELSE {"form"})
                              ELSE DumpBad(s.doc, e))
  ELSE {}

Init ==
  /\ tid \in 1..Len(Traces)
  /\ l = 0 /\ bad = {}
  /\ s = InitPatch(Traces[tid].cfg.w, Traces[tid].cfg.h)

Next ==
  /\ bad = {}
  /\ l < Len(Traces[tid].ev)
  /\ LET e == Traces[tid].ev[l + 1] IN
       /\ s' = IF Has(e, "panic") THEN s ELSE Step(e)
       /\ bad' = Bad(s', e)
  /\ l' = l + 1
  /\ UNCHANGED tid

Spec == Init /\ [][Next]_<<tid, l, s, bad>>
Ok == bad = {} \/ PrintT(<<"BAD", tid, l, bad>>)
=============================================================================
