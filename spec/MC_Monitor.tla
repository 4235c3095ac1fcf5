----------------------------- MODULE MC_Monitor -----------------------------
(* The path from the audio thread to the reader: one buffer per signal and  *)
(* block (dropped when none is left), a thread that takes them in and       *)
(* publishes its points, a reader that copies what was published when there *)
(* is news.  The parts interleave in every way.                             *)
EXTENDS Monitor
CONSTANTS Bufs, MaxBlocks, Vals, Lens, Sigs
VARIABLES free, queue, back,      \* buffers: unused, on their way to the thread, on their way back
          lines, fresh,           \* the thread: its lines, and whether there is a new point
          pub, news, copy,        \* published number of points, flag, the reader's copy
          sent, lost, n           \* history: what was sent per signal, whether a buffer was missing
vars == <<free, queue, back, lines, fresh, pub, news, copy, sent, lost, n>>
S == 1..Sigs
Init == /\ free = Bufs /\ queue = <<>> /\ back = 0
        /\ lines = [k \in S |-> NoLine] /\ fresh = FALSE
        /\ pub = [k \in S |-> 0] /\ news = FALSE /\ copy = [k \in S |-> 0]
        /\ sent = [k \in S |-> <<>>] /\ lost = FALSE /\ n = 0

\* a block: used buffers come back first; the monitored signals U each take a buffer if there is one
RECURSIVE Send(_, _, _)
Send(st, U, r) == IF U = {} THEN st
  ELSE LET k == CHOOSE a \in U : \A b \in U : a <= b IN
       Send([free |-> Max(st.free - 1, 0),
             queue |-> IF st.free > 0 THEN Append(st.queue, <<k, r[k]>>) ELSE st.queue,
             sent |-> IF st.free > 0 THEN [st.sent EXCEPT ![k] = Append(@, r[k])] ELSE st.sent,
             lost |-> (st.lost \/ st.free = 0)], U \ {k}, r)
Block == \E U \in SUBSET S : \E len \in Lens : \E v \in [S -> Vals] :
  /\ n < MaxBlocks /\ n' = n + 1
  /\ LET st == Send([free |-> free + back, queue |-> queue, sent |-> sent, lost |-> lost], U, [k \in S |-> <<len, v[k]>>]) IN
       free' = st.free /\ queue' = st.queue /\ sent' = st.sent /\ lost' = st.lost
  /\ back' = 0 /\ UNCHANGED <<lines, fresh, pub, news, copy>>
Take == /\ queue # <<>>
        /\ LET k == queue[1][1] x == FeedRuns(lines[k], <<queue[1][2]>>) IN
             /\ lines' = [lines EXCEPT ![k] = x]
             /\ fresh' = (fresh \/ Len(x.pts) > Len(lines[k].pts))
        /\ queue' = Tail(queue) /\ back' = back + 1
        /\ UNCHANGED <<free, pub, news, copy, sent, lost, n>>
Publish == /\ fresh /\ fresh' = FALSE /\ news' = TRUE /\ pub' = [k \in S |-> Len(lines[k].pts)]
           /\ UNCHANGED <<free, queue, back, lines, copy, sent, lost, n>>
Read == /\ news /\ news' = FALSE /\ copy' = pub
        /\ UNCHANGED <<free, queue, back, lines, fresh, pub, sent, lost, n>>
Next == Block \/ Take \/ Publish \/ Read
Spec == Init /\ [][Next]_vars /\ WF_vars(Take) /\ WF_vars(Publish) /\ WF_vars(Read)

Conserved == free + Len(queue) + back = Bufs
NoneLostWithRoom == lost => Bufs < MaxBlocks * Sigs
\* what is shown is a view of the signal that was sent, never of anything else
Whole(k) == FeedRuns(NoLine, sent[k])
ShownIsPast == \A k \in S : copy[k] <= Len(Whole(k).pts) /\ View(lines[k].pts, copy[k]) = View(Whole(k).pts, copy[k])
Complete == (queue = <<>> /\ ~fresh /\ ~news) => \A k \in S : copy[k] = Len(Whole(k).pts)
Forward == [][\A k \in S : copy'[k] >= copy[k]]_vars
Arrives == <>[](\A k \in S : copy[k] = Len(Whole(k).pts))
=============================================================================
