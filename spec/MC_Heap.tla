------------------------------ MODULE MC_Heap -------------------------------
(* All interleavings of a user interface that sets samples, makes programs  *)
(* and clears, an audio side, and a background thread, one message at a     *)
(* time.  The queue to the audio side is a ring of QCap messages; what does *)
(* not fit is kept and moved on later (`ring`: how many are in the ring).   *)
EXTENDS Heap
CONSTANTS NS, NI, QCap, DCap, Ops
VARIABLES s, n, ends, ring
vars == <<s, n, ends, ring>>
\* ends: <<who destroyed something last, what>>

Insts == {<<Sampl, j>> : j \in 0..(NI - 1)}
By(who, t) == ends' = IF Live(t) # Live(s) /\ Live(s) \ Live(t) # {} THEN <<who, Live(s) \ Live(t)>> ELSE ends
Min2(a, b) == IF a < b THEN a ELSE b
Front(t) == /\ n < Ops /\ n' = n + 1 /\ s' = t /\ ring' = Min2(QCap, Len(t.q)) /\ By("front", t)

Init == s = InitHeap /\ n = 0 /\ ends = <<>> /\ ring = 0
Move == /\ ring < Min2(QCap, Len(s.q)) /\ ring' = Min2(QCap, Len(s.q)) /\ UNCHANGED <<s, n, ends>>
\* the audio side takes one message, as long as it can give up what that replaces
Take == /\ ring > 0 /\ Len(s.dq) < DCap /\ ring' = ring - 1
        /\ LET t == Deliver([s EXCEPT !.q = Tail(@)], Head(s.q)) IN s' = t /\ By("audio", t)
        /\ UNCHANGED n
\* the background thread takes one object
Destroy == /\ s.dq # <<>> /\ LET t == [s EXCEPT !.dq = Tail(@)] IN s' = t /\ By("background", t)
           /\ UNCHANGED <<n, ring>>
Next ==
  \/ \E i \in Insts : Front(Change(s, <<[x |-> i[2], y |-> 0, n |-> i]>>))
  \/ \E i \in Insts, k \in 0..NS : Front(SetSample(s, i, k))
  \/ Front(Clear(s))
  \/ Move \/ Take \/ Destroy
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Move) /\ WF_vars(Take) /\ WF_vars(Destroy)
\* everything sent arrives and everything given up is destroyed
Arrives == <>[](s.q = <<>> /\ s.dq = <<>>)

\* nothing ever ends on the audio side
NeverOnAudio == ends # <<>> => ends[1] # "audio"
\* nothing is lost that someone still refers to, and once all is quiet nothing is left over
Quiet == s.q = <<>> /\ s.dq = <<>>
NoLeak == Quiet => Live(s) = (Rng(s.av) \cup Rng(s.run)) \ {0}
\* ... and, for nodes of the graph, both sides hold the same
Agree == s.q = <<>> => \A k \in DOMAIN s.run : (k \in DOMAIN s.av /\ s.run[k] = s.av[k]) \/ (k \notin DOMAIN s.av /\ s.run[k] = 0)
=============================================================================
