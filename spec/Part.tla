-------------------------------- MODULE Part --------------------------------
(* Signals and blocks.  A node is a machine that reads one frame of its     *)
(* inputs and writes one frame of its outputs at a time: what it writes at  *)
(* frame f depends on the frames up to f and on the settings in force then, *)
(* and on nothing else.  The engine hands it the frames in blocks of any    *)
(* size; a setting takes effect between two blocks.                         *)
(*                                                                          *)
(* For the comparison of recorded runs the machine stays abstract: the      *)
(* first run of a graph, from a fresh engine, defines what it writes; every *)
(* other run of the same graph on the same frames, with the same settings   *)
(* at the same frames, must write the same, however it is divided.          *)
EXTENDS Integers, Sequences

\* ref: what the first run wrote (one sequence per output); shown: what the
\* scopes showed at its end; at: frames done in this run; run: number of the run
InitPart == [run |-> 1, at |-> 0, ref |-> <<>>, shown |-> <<>>, ended |-> FALSE]

Fresh(s) == [s EXCEPT !.run = @ + 1, !.at = 0, !.ended = FALSE]

\* a block in which n frames were processed and out was written
Block(s, n, out) ==
  [s EXCEPT !.at = @ + n,
            !.ref = IF s.run > 1 THEN @ ELSE IF s.at = 0 THEN out ELSE [k \in DOMAIN out |-> @[k] \o out[k]]]
Agrees(s, n, out) ==
  \/ s.run = 1
  \/ /\ Len(out) = Len(s.ref)
     /\ \A k \in DOMAIN out : s.at + n <= Len(s.ref[k]) /\ out[k] = SubSeq(s.ref[k], s.at + 1, s.at + n)

Shows(s, shown) == [s EXCEPT !.shown = IF s.run = 1 THEN shown ELSE @, !.ended = TRUE]
ShowsSame(s, shown) == s.run = 1 \/ shown = s.shown
=============================================================================
