------------------------------ MODULE MC_Midi -------------------------------
(* Explores MIDI histories: host buffers of a few frames with any events,    *)
(* injected events, on nodes of every gate mode; limits made small.         *)
EXTENDS Midi
CONSTANTS Depth, NFrames, NEv
VARIABLES s, n, last

SmallInj == 2
SmallNotes == 2
SmallCCs == 2
SmallReport == 3
SmallBlock == 2

Evs == {<<"on", 0, 1, 64>>, <<"on", 0, 2, 128>>, <<"off", 0, 1, 0>>, <<"off", 0, 2, 0>>, <<"cc", 0, 7, 64>>}
Timed(k) == {<<>>} \cup UNION {{X \in [1..j -> {<<t>> \o e : t \in 0..(NFrames - 1), e \in Evs}] : \A a \in 1..(j - 1) : X[a][1] <= X[a + 1][1]} : j \in 1..k}

Init == /\ s = InitMidi(<<[mode |-> 0, chan |-> 0, glen |-> 2, tlen |-> 2], [mode |-> 1, chan |-> 0, glen |-> 2, tlen |-> 2],
                          [mode |-> 2, chan |-> 0, glen |-> 2, tlen |-> 2]>>, <<[chan |-> 0, ccs |-> <<7, 7, 8>>, step |-> 0]>>)
        /\ n = 0 /\ last = [k |-> "init"]
Next == /\ n < Depth /\ n' = n + 1
        /\ \/ \E e \in Evs : s' = Inject(s, e) /\ Len(s.q) < 3 /\ last' = [k |-> "inject"]
           \/ s' = Upd(s) /\ last' = [k |-> "upd"]
           \/ \E X \in Timed(NEv) : LET r == Host(s, X, NFrames) IN s' = r.s /\ last' = [k |-> "host", X |-> X, r |-> r, D |-> Delivered(s.inj, X, NFrames), J |-> s.inj]
Spec == Init /\ [][Next]_<<s, n, last>>
View == <<s, n>>

Note(e) == e[1] # "cc"
\* order is kept, nothing comes early, injected events come first, and what fits is on time
DeliverOk(X, J, D) ==
  /\ Len(D) <= Len(J) + Len(X)
  /\ \A j \in DOMAIN D : D[j][2] = IF j <= Len(J) THEN J[j] ELSE Tail(X[j - Len(J)])
  /\ \A j \in DOMAIN D : j > Len(J) => D[j][1] >= X[j - Len(J)][1]
  /\ \A j \in 1..(Len(D) - 1) : D[j][1] <= D[j + 1][1]
  /\ (Len(J) + Len(X) <= MaxNotes) => Len(D) = Len(J) + Len(X) /\ \A j \in DOMAIN X : D[Len(J) + j][1] = X[j][1]

\* what the gate of a played note does; o: gate outputs, g0: gate before
On(D, f) == \E j \in DOMAIN D : D[j][1] = f /\ D[j][2][1] = "on"
Some(D, f) == \E j \in DOMAIN D : D[j][1] = f /\ Note(D[j][2])
GateOk(D, o, g0, h) ==
  \A f \in 0..(NFrames - 1) :
    LET before == IF f = 0 THEN g0 ELSE o[f] IN
    /\ On(D, f) /\ before => ~o[f + 1]                          \* every note restarts the gate,
    /\ On(D, f) /\ ~before => o[f + 1]                          \* opens it at once if it is closed,
    /\ f > 0 /\ ~Some(D, f) => o[f + 1] = h[f]                  \* and it reflects what is held
FixedOk(D, o, g0) ==         \* gate length mode: a gate of the given length after the last note
  \A f \in 0..(NFrames - 3) : On(D, f) /\ ~On(D, f + 1) /\ ~On(D, f + 2) =>
     LET before == IF f = 0 THEN g0 ELSE o[f] IN
     IF before THEN ~o[f + 1] /\ o[f + 2] /\ o[f + 3] ELSE o[f + 1] /\ o[f + 2] /\ ~o[f + 3]
CCOk(D, R, c0) == \A k \in 1..3 : \A f \in 1..NFrames :
  LET K == {j \in DOMAIN D : D[j][1] <= f - 1 /\ D[j][2][1] = "cc" /\ D[j][2][3] = s.cc[1].ccs[k]} IN
  R[f].cur[k] = IF K = {} THEN c0[k] ELSE D[CHOOSE j \in K : \A i \in K : i <= j][2][4]

Step == last'.k = "host" =>
  LET D == last'.D  r == last'.r  O(i) == [f \in 1..NFrames |-> r.P[i][f].open] IN
  /\ DeliverOk(last'.X, last'.J, D)
  /\ GateOk(D, O(1), s.p[1].open, [f \in 1..NFrames |-> r.P[1][f].held])
  /\ FixedOk(D, O(3), s.p[3].open)
  /\ CCOk(D, r.C[1], s.c[1].cur)
  /\ \A f \in 0..(NFrames - 1) : On(D, f) => O(2)[f + 1]
Steps == [][Step]_<<s, n, last>>
Inv == Len(s.inj) <= MaxInj /\ Len(s.rep) <= MaxReport
=============================================================================
