------------------------------ MODULE MC_Part -------------------------------
(* The machine of Part made concrete, the way nodes are written: state kept *)
(* between blocks, inputs read once per frame, delays through a buffer that *)
(* is written and read blockwise in the order of the graph.  TLC divides    *)
(* every short signal in every way and shows that the division is not       *)
(* observable - for the delay exactly as long as it is not shorter than the *)
(* longest block (the reason for the minimum of the feedback delay).        *)
EXTENDS Part
CONSTANTS N, MaxBlk, Delay, Runs
VARIABLES s, sig, cut, kind, st, ok
vars == <<s, sig, cut, kind, st, ok>>

Vals == {0, 1}
Kinds == {"edge", "delay", "mod", "meter"}
\* edge: counts rising edges modulo the setting in force; mod: a counter that wraps;
\* meter: no output, shows the maximum of each two frames
St0 == [prev |-> 0, c |-> 0, buf |-> [j \in 0..(3 * Delay - 1) |-> 0], w |-> 0, m |-> 2, max |-> 0, shown |-> <<>>]
One(k, x, v, f) ==
  CASE k = "edge" -> LET c == IF v = 1 /\ x.prev = 0 THEN (x.c + 1) % x.m ELSE x.c IN
                     [st |-> [x EXCEPT !.prev = v, !.c = c], o |-> c]
    [] k = "mod" -> [st |-> [x EXCEPT !.c = (@ + v) % 3], o |-> x.c]
    [] k = "meter" -> LET m == IF v > x.max THEN v ELSE x.max IN
                      [st |-> IF f % 2 = 1 THEN [x EXCEPT !.shown = Append(@, m), !.max = 0] ELSE [x EXCEPT !.max = m], o |-> 0]
\* the delay node: the reader of the buffer runs before its writer, or after it
Idx(j) == j % (3 * Delay)
RECURSIVE Fill(_, _, _)
Fill(x, in, j) == IF j > Len(in) THEN x ELSE Fill([x EXCEPT !.buf[Idx(x.w)] = in[j], !.w = Idx(@ + 1)], in, j + 1)
Blk(k, x, in, at) ==
  IF k = "delay" THEN
     LET o == [j \in 1..Len(in) |-> x.buf[Idx(x.w + j - 1 + 2 * Delay)]] IN [st |-> Fill(x, in, 1), o |-> o]
  ELSE LET F[j \in 0..Len(in)] == IF j = 0 THEN [st |-> x, o |-> <<>>]
                                  ELSE LET r == One(k, F[j - 1].st, in[j], at + j - 1) IN [st |-> r.st, o |-> Append(F[j - 1].o, r.o)]
       IN F[Len(in)]

Init == /\ s = InitPart /\ sig \in [1..N -> Vals] /\ kind \in Kinds /\ cut \in 1..N
        /\ st = St0 /\ ok = TRUE
Process == \E n \in 1..MaxBlk :
  /\ s.at + n <= N /\ (s.at < cut => s.at + n <= cut) /\ ~s.ended
  /\ LET x == IF s.at = cut THEN [st EXCEPT !.m = 3] ELSE st
         r == Blk(kind, x, SubSeq(sig, s.at + 1, s.at + n), s.at) IN
     /\ st' = r.st
     /\ ok' = (Agrees(s, n, <<r.o>>) /\ (kind = "delay" => \A j \in 1..n : r.o[j] = IF s.at + j - Delay < 1 THEN 0 ELSE sig[s.at + j - Delay]))
     /\ s' = Block(s, n, <<r.o>>)
  /\ UNCHANGED <<sig, cut, kind>>
End == /\ s.at = N /\ ~s.ended
       /\ ok' = ShowsSame(s, st.shown) /\ s' = Shows(s, st.shown) /\ UNCHANGED <<sig, cut, kind, st>>
Again == /\ s.ended /\ s.run < Runs /\ s' = Fresh(s) /\ st' = St0 /\ UNCHANGED <<sig, cut, kind, ok>>
Next == Process \/ End \/ Again
Spec == Init /\ [][Next]_vars
Inv == ok
=============================================================================
