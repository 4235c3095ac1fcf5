-------------------------------- MODULE Midi --------------------------------
(***************************************************************************)
(* MIDI input: events of the host and injected ones, their distribution to  *)
(* the blocks of the audio side, the MidiP and MidiCC nodes, and the events *)
(* reported back.                                                          *)
(*                                                                         *)
(* An event is <<kind, channel, number, value>>, kind in on, off, cc; a     *)
(* timed event is <<frame>> followed by that.  Values are in 1/4096.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

MaxInj == 64          \* injected events per block
MaxNotes == 512       \* note events per block
MaxCCs == 1024        \* CC events per block
MaxReport == 512      \* reported events waiting to be read
MaxBlock == 128

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

(*------------------------------- the nodes -------------------------------*)
\* pc: [mode, chan, glen, tlen] configuration; frames a gate or trigger lasts
InitP == [held |-> FALSE, open |-> FALSE, note |-> 0, vel |-> 0, trig |-> 0, gate |-> 0]

RECURSIVE Notes(_, _, _, _)
\* the events E[i..] of a frame; result [p, on]
Notes(r, pc, E, i) ==
  IF i > Len(E) THEN r
  ELSE LET e == E[i] IN
    Notes(IF e[2] # pc.chan THEN r
          ELSE IF e[1] = "on"
          THEN [p |-> [r.p EXCEPT !.held = TRUE, !.note = e[3], !.vel = e[4], !.trig = pc.tlen, !.gate = pc.glen], on |-> TRUE]
          ELSE IF e[1] = "off" /\ e[3] = r.p.note THEN [r EXCEPT !.p.held = FALSE] ELSE r,
          pc, E, i + 1)

\* one frame: a note that starts while the gate is open closes it for this frame
FrameP(p, pc, E) ==
  LET r == Notes([p |-> p, on |-> FALSE], pc, E, 1)
      pause == r.on /\ p.open
      g == CASE pc.mode = 1 -> r.p.trig > 0
             [] pc.mode = 2 -> ~pause /\ r.p.gate > 0
             [] OTHER -> ~pause /\ (r.on \/ p.held)
  IN [r.p EXCEPT !.open = g,
                 !.trig = IF pc.mode = 1 /\ @ > 0 THEN @ - 1 ELSE @,
                 !.gate = IF pc.mode = 2 /\ g THEN @ - 1 ELSE @]

\* cc: [chan, ccs, step]; step 0: values jump, otherwise they move by at most step per frame
InitC == [to |-> <<0, 0, 0>>, cur |-> <<0, 0, 0>>]
RECURSIVE CCs(_, _, _, _)
CCs(to, cc, E, i) ==
  IF i > Len(E) THEN to
  ELSE LET e == E[i] IN
    CCs(IF e[1] = "cc" /\ e[2] = cc.chan THEN [k \in 1..3 |-> IF cc.ccs[k] = e[3] THEN e[4] ELSE to[k]] ELSE to, cc, E, i + 1)
Hits(cc, e) == e[1] = "cc" /\ e[2] = cc.chan /\ \E k \in 1..3 : cc.ccs[k] = e[3]
Move(a, b, d) == IF d = 0 THEN b ELSE Max2(Min2(b, a + d), a - d)
FrameC(c, cc, E) ==
  LET to == CCs(c.to, cc, E, 1) IN [to |-> to, cur |-> [k \in 1..3 |-> Move(c.cur[k], to[k], cc.step)]]

(*------------------------------ the events -------------------------------*)
\* what the blocks of one host buffer of n frames take of the injected events J and the events X
\* of the host: a sequence of <<frame, event>>.  Beyond the limits events come a block later.
RECURSIVE Take(_, _, _, _, _, _)
Take(X, i, off, len, cnt, acc) ==      \* cnt: <<notes, ccs>>
  IF i > Len(X) \/ cnt[1] >= MaxNotes \/ cnt[2] >= MaxCCs THEN [i |-> i, acc |-> acc]
  ELSE IF X[i][1] >= off + len THEN [i |-> i, acc |-> acc]
  ELSE Take(X, i + 1, off, len,
            IF X[i][2] = "cc" THEN <<cnt[1], cnt[2] + 1>> ELSE <<cnt[1] + 1, cnt[2]>>,
            Append(acc, <<Max2(off, X[i][1]), Tail(X[i])>>))
RECURSIVE Spread(_, _, _, _, _)
Spread(X, i, off, n, acc) ==
  IF off >= n THEN acc
  ELSE LET len == Min2(MaxBlock, n - off)
           mine == {j \in DOMAIN acc : acc[j][1] >= off}   \* injected ones, in the first block
           cnt == <<Cardinality({j \in mine : acc[j][2][1] # "cc"}), Cardinality({j \in mine : acc[j][2][1] = "cc"})>>
           r == Take(X, i, off, len, IF off = 0 THEN cnt ELSE <<0, 0>>, acc)
       IN Spread(X, r.i, off + len, n, r.acc)
Delivered(J, X, n) == Spread(X, 1, 0, n, [j \in DOMAIN J |-> <<0, J[j]>>])

At(D, f) == LET K == {j \in DOMAIN D : D[j][1] = f} IN
            IF K = {} THEN <<>>
            ELSE LET a == CHOOSE j \in K : \A k \in K : j <= k IN
                 [j \in 1..Cardinality(K) |-> D[a + j - 1][2]]

(*------------------------------- the system ------------------------------*)
\* P, C: node configurations as the audio side knows them;  q: messages to it
InitMidi(P, C) == [pc |-> P, cc |-> C, p |-> [k \in DOMAIN P |-> InitP], c |-> [k \in DOMAIN C |-> InitC],
                   q |-> <<>>, inj |-> <<>>, rep |-> <<>>, led |-> [p |-> [k \in DOMAIN P |-> FALSE], c |-> [k \in DOMAIN C |-> FALSE]]]

Inject(s, e) == [s EXCEPT !.q = Append(@, [k |-> "inj", e |-> e])]
SetCfg(s, kind, i, f, v) == [s EXCEPT !.q = Append(@, [k |-> kind, i |-> i, f |-> f, v |-> v])]
Msg(s, m) ==
  CASE m.k = "inj" -> IF Len(s.inj) < MaxInj THEN [s EXCEPT !.inj = Append(@, m.e)] ELSE s
    [] m.k = "p" -> [s EXCEPT !.pc[m.i].chan = m.v]
    [] OTHER -> IF m.f = 0 THEN [s EXCEPT !.cc[m.i].chan = m.v] ELSE [s EXCEPT !.cc[m.i].ccs[m.f] = m.v]
RECURSIVE Upd(_)
Upd(s) == IF s.q = <<>> THEN s ELSE Upd([Msg(s, Head(s.q)) EXCEPT !.q = Tail(s.q)])

\* the states of a node after each of the frames f..n-1 (f = 0: <<>> to start with)
RECURSIVE RunP(_, _, _, _, _)
RunP(acc, p, pc, D, fn) == IF fn[1] >= fn[2] THEN acc
                           ELSE LET q == FrameP(p, pc, At(D, fn[1])) IN RunP(Append(acc, q), q, pc, D, <<fn[1] + 1, fn[2]>>)
RECURSIVE RunC(_, _, _, _, _)
RunC(acc, c, cc, D, fn) == IF fn[1] >= fn[2] THEN acc
                           ELSE LET q == FrameC(c, cc, At(D, fn[1])) IN RunC(Append(acc, q), q, cc, D, <<fn[1] + 1, fn[2]>>)

RECURSIVE Report(_, _, _)
Report(r, D, j) == IF j > Len(D) \/ Len(r) >= MaxReport THEN r ELSE Report(Append(r, D[j][2]), D, j + 1)

\* a host buffer: [s, P, C] with the states after every frame
Host(s, X, n) ==
  LET D == Delivered(s.inj, X, n)
      RP == [k \in DOMAIN s.p |-> RunP(<<>>, s.p[k], s.pc[k], D, <<0, n>>)]
      RC == [k \in DOMAIN s.c |-> RunC(<<>>, s.c[k], s.cc[k], D, <<0, n>>)]
      lastoff == ((n - 1) \div MaxBlock) * MaxBlock
  IN [P |-> RP, C |-> RC,
      s |-> [s EXCEPT !.inj = <<>>, !.p = [k \in DOMAIN RP |-> RP[k][n]], !.c = [k \in DOMAIN RC |-> RC[k][n]],
                      !.rep = Report(@, D, 1),
                      !.led = [p |-> [k \in DOMAIN RP |-> RP[k][n].open],
                               c |-> [k \in DOMAIN RC |-> \E j \in DOMAIN D : D[j][1] >= lastoff /\ Hits(s.cc[k], D[j][2])]]]]
=============================================================================
