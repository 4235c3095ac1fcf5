----------------------------- MODULE MC_Tracker -----------------------------
EXTENDS Tracker, Json
CONSTANTS Depth, Emit, Sim
VARIABLES t, hist
Rows == {0, 1}
RowsR == {0, 1, 2, 3, 5, 7, 15, 255}
V == {0, 4095, 1911}
Init == t = [InitTrk EXCEPT !.p.rows = 2] /\ hist = <<>>
Ty == {"value", "step"}
TyR == {"value", "step", "note", "gate"}
EditOp(e) ==
  CASE e.op = "set"  -> Edit(t, SetCell(t.p, e.r, e.c, e.v), {e.c})
    [] e.op = "clr"  -> Edit(t, ClrCell(t.p, e.r, e.c), {e.c})
    [] e.op = "type" -> Edit(t, SetType(t.p, e.c, e.t), {e.c})
    [] e.op = "rows" -> Edit(t, SetRows(t.p, e.n), Cols)
    [] OTHER         -> NewBackend(t)
Edits ==
     {[op |-> "set", r |-> r, c |-> c, v |-> 4095] : r \in Rows, c \in {0, 1}}
  \cup {[op |-> "clr", r |-> 0, c |-> c] : c \in {0, 1}}
  \cup {[op |-> "type", c |-> 1, t |-> x] : x \in Ty}
  \cup {[op |-> "rows", n |-> n] : n \in {1, 2}}
  \cup {[op |-> "backend"]}
\* exploration of the transmission protocol: any dirty column may be sent next
Next ==
  /\ Len(hist) < Depth
  /\ \/ \E e \in Edits : t' = EditOp(e) /\ hist' = Append(hist, e)
     \/ \E c \in Cols : CanSend(t, c) /\ t' = Send(t, c) /\ hist' = hist
     \/ t.q # <<>> /\ t' = Recv(t) /\ hist' = hist
Spec == Init /\ [][Next]_<<t, hist>>
FairSpec == Spec /\ WF_t(\E c \in Cols : CanSend(t, c) /\ t' = Send(t, c) /\ hist' = hist)
                 /\ WF_t(t.q # <<>> /\ t' = Recv(t) /\ hist' = hist)
View == <<t, Len(hist)>>
Inv == TrkConverged(t) /\ Len(t.q) <= QMax
\* edits stop eventually (Depth), so everything must settle
Settles == <>[]Settled(t)
=============================================================================
