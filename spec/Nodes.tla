-------------------------------- MODULE Nodes -------------------------------
(***************************************************************************)
(* What single nodes compute, frame by frame.                              *)
(*                                                                         *)
(* Signals, parameters and settings are integers, signals in 1/4096.  A    *)
(* node is a machine: Frame(kind, at, st, I, sr) is the set of what it may  *)
(* do in the next frame, each member [st: next state, o: the interval each  *)
(* output has to lie in].  Intervals stand for the rounding of the float    *)
(* arithmetic, several members for documented or unspecified choices        *)
(* (random numbers, halfway cases).  at are the settings, I the values of   *)
(* the inputs (denormalized; times in half frames).                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

U == 4096                     \* 1.0 of a signal
V == 32768                    \* 1.0 of the state of an envelope
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
Clamp(x, lo, hi) == Max2(lo, Min2(hi, x))
Mul(a, b) == (a * b) \div U
Pm(x, t) == <<x - t, x + t>>
In(iv, x) == iv[1] <= x /\ x <= iv[2]

\* triggers: fire above a half, armed again at a quarter
Armed(was, x) == IF was THEN x > U \div 4 ELSE x > U \div 2
Fires(was, x) == ~was /\ x > U \div 2
TrigLen(sr) == (sr * 2 + 999) \div 1000        \* frames a trigger lasts (2 ms)

One(st, o) == {[st |-> st, o |-> o]}

(*--------------------------- routing and mapping -------------------------*)
Amp(at, st, I) ==
  LET a == IF at.neg_att > 0 THEN Max2(I.att, 0) ELSE Abs(I.att) IN
  One(st, [sig |-> Pm(Mul((I.inp * I.gain) \div U, a), 4)])

Mix3(st, I) ==
  LET s == Mul(I.ch1, I.vol1) + Mul(I.ch2, I.vol2) + Mul(I.ch3, I.vol3) IN
  One(st, [sig |-> Pm(Mul(s, I.ovol), 4 + (3 * I.ovol) \div U)])

SMap(at, st, I) ==
  LET x == IF at.mode \in {0, 2} THEN I.inp ELSE (I.inp + U) \div 2
      c == IF at.clip = 1 THEN Clamp(x, 0, U) ELSE x
      y == IF at.mode >= 2 THEN U - c ELSE c
  IN One(st, [sig |-> Pm(I.min + Mul(I.max - I.min, y), 3)])

Map(at, st, I) ==
  LET s == Mul(I.inp, I.atv) + I.offs
      d == I.imax - I.imin
      x == IF d = 0 THEN U ELSE ((s - I.imin) * U) \div d
      y == I.min + Mul(I.max - I.min, x)
      z == IF at.clip = 1 THEN Clamp(y, Min2(I.min, I.max), Max2(I.min, I.max)) ELSE y
      t == 4 + IF d = 0 THEN 0 ELSE (4 * U) \div Abs(d)
  IN One(st, [sig |-> IF at.clip = 1 THEN <<Max2(z - t, Min2(I.min, I.max)), Min2(z + t, Max2(I.min, I.max))>> ELSE Pm(z, t)])

\* at.sel: whether slct is connected
InitMux == [idx |-> 0, r |-> FALSE, u |-> FALSE, d |-> FALSE]
MuxIn(I, k) ==
  CASE k = 0 -> I.in_1 [] k = 1 -> I.in_2 [] k = 2 -> I.in_3 [] k = 3 -> I.in_4 [] k = 4 -> I.in_5
    [] k = 5 -> I.in_6 [] k = 6 -> I.in_7 [] k = 7 -> I.in_8 [] k = 8 -> I.in_9
Mux9(at, st, I) ==
  LET max == at.in_cnt + 1
      i0 == st.idx % max
      i1 == IF Fires(st.r, I.t_rst) THEN 0 ELSE i0
      i2 == IF Fires(st.u, I.t_up) THEN (i1 + 1) % max ELSE i1
      i3 == IF Fires(st.d, I.t_down) THEN (i2 + max - 1) % max ELSE i2
      sel == IF I.slct <= 0 THEN 0 ELSE ((max * I.slct - 1) \div U) % max
      n == IF at.sel THEN [st EXCEPT !.idx = sel]
           ELSE [idx |-> i3, r |-> Armed(st.r, I.t_rst), u |-> Armed(st.u, I.t_up), d |-> Armed(st.d, I.t_down)]
  IN One(n, [sig |-> Pm(MuxIn(I, n.idx), 0)])

\* audio inputs and outputs of the host: host1, host2
Inp(st, I) == One(st, [sig1 |-> Pm(Mul(I.host1, I.vol), 3), sig2 |-> Pm(Mul(I.host2, I.vol), 3)])
Out(at, st, I) ==
  One(st, [host1 |-> Pm(Mul(I.ch1, I.vol), 3), host2 |-> Pm(Mul(IF at.mono > 0 THEN I.ch1 ELSE I.ch2, I.vol), 3)])

Noise(at, st, I) ==
  LET a == Abs(I.atv) IN
  One(st, [sig |-> IF at.mode = 0 THEN <<I.offs - a - 1, I.offs + a + 1>>
                   ELSE <<I.offs + Min2(I.atv, 0) - 1, I.offs + Max2(I.atv, 0) + 1>>])

(*---------------------- feedback and delay lines --------------------------*)
\* Writers and readers of one number share the history h of what was written, one entry per frame
\* (0 while there is no writer).
FbDelay(sr) == Max2((sr * 314) \div 100000, 128)
FbRd(st, I, h, t, sr) ==
  LET j == t - FbDelay(sr)
      v == IF j >= 1 /\ j <= Len(h) THEN h[j] ELSE 0
  IN One(st, [sig |-> Pm(Mul(v, I.vol), 2 + I.vol \div U)])

\* delay lines keep what was fed, in 1/65536; Tap(w, d): what was fed d + 1 frames ago
Tap(w, d) == IF d < Len(w) THEN w[Len(w) - d] ELSE 0
InitDelay == [w |-> <<>>, prev |-> TRUE, cs |-> 0, n |-> 0]
Delay(at, st, I) ==
  LET hi == ~st.prev /\ I.trig > U \div 2
      cs == IF hi THEN st.n ELSE st.cs
      sync == at.mode = 1
      n == [st EXCEPT !.prev = IF sync THEN (IF @ THEN I.trig > U \div 4 ELSE hi) ELSE @,
                      !.cs = IF sync THEN cs ELSE @,
                      !.n = IF sync THEN (IF hi THEN 0 ELSE @) + 1 ELSE @]
      x == Tap(st.w, IF sync THEN cs ELSE I.time \div 2)
      m == Clamp(I.mix, 0, U)
      y == I.inp + Mul(x \div 16 - I.inp, m)
  IN One([n EXCEPT !.w = Append(@, I.inp * 16 + Mul(x, I.fb))], [sig |-> Pm(y, 8)])
Comb(at, st, I) ==
  LET x == Tap(st.w, I.time \div 2)
      y == I.inp * 16 + Mul(x, I.g)
  IN One([w |-> Append(st.w, IF at.mode = 0 THEN y ELSE I.inp * 16)], [sig |-> Pm(y \div 16, 8)])
AllP(st, I) ==
  LET x == Tap(st.w, I.time \div 2)
      f == I.inp * 16 - Mul(x, I.g)
  IN One([w |-> Append(st.w, f)], [sig |-> Pm((Mul(f, I.g) + x) \div 16, 8)])

(*------------------------------ quantizers -------------------------------*)
\* keys: 12 bits from C; a note is the number of semitones from A4
Bit(k, b) == (k \div (2 ^ b)) % 2 = 1
Selected(k, note) == k = 0 \/ Bit(k, (note + 9) % 12)
Nearest(k, n) ==
  LET D == {d \in 0..11 : Selected(k, n - d) \/ Selected(k, n + d)}
      d == CHOOSE d \in D : \A e \in D : d <= e
  IN {x \in {n - d, n + d} : Selected(k, x)}
Pitch(note) == (note * U) \div 120
InitQuant == [note |-> -9999, oct |-> 0, keys |-> -1, t |-> 0]
Changed(st, n, fire, sr) ==
  LET t == IF fire THEN TrigLen(sr) ELSE st.t IN [n EXCEPT !.t = Max2(t - 1, 0)]
TOut(st, fire, sr) == IF fire \/ st.t > 0 THEN <<U, U>> ELSE <<0, 0>>
\* the semitone an input belongs to starts between a half and three quarters of a semitone below it
Quant(at, st, I, sr) ==
  LET x == I.freq * 120
      C == UNION {Nearest(at.keys, n) : n \in {(x + 2048) \div U, (x + 3072) \div U}}
      oct == x \div (12 * U)
      F(note) == IF note # st.note THEN {TRUE}
                 ELSE IF oct = st.oct /\ at.keys = st.keys THEN {FALSE} ELSE {TRUE, FALSE}
  IN UNION {{[st |-> Changed(st, [note |-> note, oct |-> oct, keys |-> at.keys, t |-> 0], f, sr),
              o |-> [sig |-> Pm(Pitch(note) + I.oct, 2), t |-> TOut(st, f, sr)]] : f \in F(note)} : note \in C}
\* equal parts of 0..1 stand for the selected notes of the octaves
CKeys(at) == LET K == {b \in 0..11 : at.keys = 0 \/ Bit(at.keys, b)} IN
             {o * 12 + b - 9 : o \in (-at.omin)..at.omax, b \in K}
CNote(at, x) ==
  LET K == CKeys(at)
      n == Cardinality(K)
      j == Min2((Max2(x, 0) * n) \div U, n - 1)
  IN CHOOSE k \in K : Cardinality({l \in K : l < k}) = j
CQnt(at, st, I, sr) ==
  LET note == CNote(at, I.inp)
      f == note # st.note
  IN One(Changed(st, [st EXCEPT !.note = note], f, sr), [sig |-> Pm(Pitch(note) + I.oct, 2), t |-> TOut(st, f, sr)])

(*-------------------- envelopes, LFO and random walk ----------------------*)
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m)
Sqrt(x) == Root(x * V, 0, V + 1)
Sq(x) == (x * x) \div V
Blend(a, b, v) == (a * (1024 - v) + b * v) \div 1024      \* v in 0..1024
\* shape p (of U): x^4, x^2, x, square root, fourth root at 0, 1/4, 1/2, 3/4, 1, blended in between
Shape(x, p) ==
  IF p >= 3072 THEN LET r == Sqrt(x) IN Blend(r, Sqrt(r), p - 3072)
  ELSE IF p > 2048 THEN Blend(x, Sqrt(x), p - 2048)
  ELSE IF p = 2048 THEN x
  ELSE IF p >= 1024 THEN Blend(Sq(x), x, p - 1024)
  ELSE LET q == Sq(x) IN Blend(Sq(q), q, p)

\* stages as written: 0 attack starts, 1 attack, 2/3 decay, 4 sustain, 5/6 release, 7 over, 9 idle.
\* times T in half frames; a stage that starts at `start` ends in its n-th frame when n >= time.
InitEnv == [stage |-> 9, n |-> 0, start |-> 0, cur |-> 0, tr |-> FALSE, eo |-> 0, un |-> 0]      \* un: frames for which cur was not seen
\* the attack gets shorter (adj of V) when it starts above 0
Ends(n, T, adj) ==
  LET a == 2 * n * (V \div 8)
      b == ((adj \div 8) * T)
      m == IF adj = V THEN (IF T % 2 = 0 THEN 8 ELSE 0) ELSE 3 * T + 8     \* whole times are on the edge
  IN (IF a >= b - m \/ b <= V \div 4 THEN {TRUE} ELSE {}) \cup (IF a < b + m /\ b + m > V \div 4 THEN {FALSE} ELSE {})
\* how far the n-th frame is (of V) in a stage of T half frames times adj
Part(n, T, adj) ==
  IF adj = V THEN (2 * n * V) \div T
  ELSE IF n <= 12 THEN (2 * n * V * 2048) \div Max2(1, (adj * T) \div 16)
  ELSE IF n <= 100 THEN (2 * n * V * 256) \div Max2(1, (adj * T) \div 128)
  ELSE (2 * n * V * 32) \div Max2(1, (adj * T) \div 1024)
Ramp(st, first, T, adj, to, shp) ==
  LET z == IF st.stage = first THEN [st EXCEPT !.n = 1, !.start = st.cur, !.stage = first + 1] ELSE [st EXCEPT !.n = @ + 1]
      A == IF adj THEN V - z.start ELSE V
  IN {IF e THEN [z EXCEPT !.stage = first + 2, !.cur = to]
      ELSE LET p == Min2(V, Part(z.n, T, A))
               q == Shape(p, shp)
           IN [z EXCEPT !.cur = z.start + (((to - z.start) \div 2) * (q \div 2)) \div (V \div 4)]
      : e \in Ends(z.n, T, A)}
EnvTick(st, I, sus) ==
  CASE st.stage \in {0, 1} -> Ramp(st, 0, I.atk, TRUE, V, Clamp(I.ashp, 0, U))
    [] st.stage \in {2, 3} -> Ramp(st, 2, I.dcy, FALSE, IF sus THEN Clamp(I.sus, 0, U) * 8 ELSE 0, U - Clamp(I.dshp, 0, U))
    [] st.stage = 4 /\ sus -> {[st EXCEPT !.cur = Clamp(I.sus, 0, U) * 8, !.stage = IF I.gate < U \div 4 THEN 5 ELSE 4]}
    [] st.stage \in {5, 6} -> Ramp(st, 5, I.rel, FALSE, 0, U - Clamp(I.rshp, 0, U))
    [] st.stage = 9 -> {st}
    [] OTHER -> {[st EXCEPT !.stage = 9, !.eo = -1]}
\* what the output tells about the value (float rounding must not add up over many triggers)
Seen(cur, inp, ob) ==
  IF Abs(inp) < 1024 THEN cur
  ELSE LET est == (ob * V) \div inp
           err == V \div Abs(inp) + 2
       IN Clamp(cur, est - err, est + err)
Env(at, st, I, sr, sus) ==
  LET g == IF sus THEN I.gate ELSE I.trig
      s0 == IF Fires(st.tr, g) THEN [st EXCEPT !.stage = 0] ELSE st
      f == CASE at.mult = 0 -> 1 [] at.mult = 1 -> 10 [] at.mult = 2 -> 100
      J == [I EXCEPT !.atk = @ * f, !.dcy = @ * f]
      K == IF sus THEN [J EXCEPT !.rel = @ * f] ELSE J
  IN {LET eo == IF n.eo = -1 THEN TrigLen(sr) ELSE n.eo IN
      [st |-> [n EXCEPT !.tr = Armed(st.tr, g), !.eo = Max2(eo - 1, 0)],
       o |-> [sig |-> Pm(Mul(I.inp, n.cur \div 8), 16 + (4 * Abs(I.inp)) \div U + st.un \div 4), eoet |-> IF eo > 0 THEN <<U, U>> ELSE <<0, 0>>]]
      : n \in EnvTick(s0, K, sus)}

\* phase in 1/2^26
FullTurn == 67108864
InitLfo == [ph |-> 0, tr |-> FALSE]
TsLfo(st, I) ==
  LET p0 == IF Fires(st.tr, I.trig) THEN 0 ELSE st.ph
      p == IF p0 >= FullTurn THEN p0 - FullTurn ELSE p0
      r == Clamp(I.rev, 1, 4092)
      x == p \div 1024
      y == IF p \div 16384 < r THEN (x * 256) \div r ELSE ((V * 2 - x) * 256) \div (U - r)
      t == 8 + (2 * U) \div Min2(r, U - r)
  IN One([ph |-> p + (2 * FullTurn) \div I.time, tr |-> Armed(st.tr, I.trig)], [sig |-> <<Max2(0, y - t), Min2(U, y + t)>>])

\* target and value in 1/2^20 (Z of a signal unit)
Z == 256
InitWalk == [v |-> 0, to |-> 0, tr |-> FALSE]
Fold(x, lo, hi) ==
  LET d == Max2(hi - lo, 105)
      c == Clamp(x, lo - (d * 99) \div 100, hi + (d * 99) \div 100)
      u == IF c > hi THEN 2 * hi - c ELSE c
  IN IF u < lo THEN 2 * lo - u ELSE u
Slew(v, to, time) == IF time = 0 THEN to ELSE LET d == (2 * U * Z) \div time IN Max2(Min2(to, v + d), v - d)
\* without random steps the walk is determined; otherwise ob is the value seen
RndWk(st, I, ob) ==
  LET f == Fires(st.tr, I.trig)
      a == Clamp(I.min, 0, U)
      b == Clamp(I.max, 0, U)
      lo == Min2(a, b) * Z
      hi == Max2(a, b) * Z
      tr == Armed(st.tr, I.trig)
      to == IF f THEN Fold(st.v + Clamp(I.offs, -U, U) * Z, lo, hi) ELSE st.to
      v == Slew(st.v, to, I.slew)
  IN IF I.step = 0 THEN One([v |-> v, to |-> to, tr |-> tr], [sig |-> Pm(v \div Z, 4)])
     ELSE IF ~f THEN
       IF I.slew = 0 THEN One([st EXCEPT !.tr = tr], [sig |-> Pm(st.v \div Z, 2)])
       ELSE LET d == (2 * U) \div I.slew + 2 IN One([v |-> ob * Z, to |-> 0, tr |-> tr], [sig |-> Pm(st.v \div Z, d)])
     ELSE IF I.slew = 0 THEN
       LET reach == I.step + Abs(I.offs) + 2
           near == st.v >= lo /\ st.v <= hi
       IN One([v |-> ob * Z, to |-> 0, tr |-> tr],
              [sig |-> <<Max2(lo \div Z - 3, IF near THEN st.v \div Z - reach ELSE -U), Min2(hi \div Z + 3, IF near THEN st.v \div Z + reach ELSE U)>>])
     ELSE LET d == (2 * U) \div I.slew + 2 IN One([v |-> ob * Z, to |-> 0, tr |-> tr], [sig |-> Pm(st.v \div Z, d)])

(*------------------------------- the sampler ------------------------------*)
\* at.data: the sample; at.k: its rate in multiples of the sample rate; plays `len` of it from `offs` on,
\* over and over or once per trigger.  Backwards the first value stays the first.
InitSampl == [ph |-> 0, on |-> FALSE, tr |-> FALSE, last |-> 0, dec |-> 0]
Sampl(at, st, I) ==
  IF Len(at.data) < 2 THEN One([st EXCEPT !.last = 0], [sig |-> <<0, 0>>])
  ELSE
  LET f == Fires(st.tr, I.trig)
      L == Len(at.data)
      s0 == Min2((L * Min2(Abs(I.offs), U)) \div U, L - 1)
      n == Min2(L - s0, (2 * L * Min2(Abs(I.len), U) + U) \div (2 * U))
      on == f \/ st.on \/ at.pmode = 0
      ph == IF f THEN 0 ELSE st.ph
      i == IF n = 0 THEN 0 ELSE ph % n
      v == IF n = 0 THEN 0 ELSE at.data[1 + s0 + IF at.dir = 1 THEN (n - i) % n ELSE i]
      R == I.dcms                               \* ramp in half frames, odd
      c == (R + 1) \div 2
      a == IF at.dclick = 0 THEN v
           ELSE IF i < c THEN (v * 2 * i) \div R
           ELSE IF n - i < c THEN (v * 2 * (n - i)) \div R ELSE v
      over == on /\ at.pmode = 1 /\ ph >= n
      x == IF ~on \/ over THEN 0 ELSE a
      d0 == IF f THEN st.last * 16 ELSE st.dec
      d == IF at.dclick = 0 THEN 0 ELSE (d0 * 98) \div 100
      y == IF d = 0 THEN x ELSE Clamp(x + d \div 16, -U, U)
  IN One([ph |-> IF on /\ n > 0 THEN i + at.k ELSE ph, on |-> on /\ ~over, tr |-> Armed(st.tr, I.trig), last |-> y, dec |-> d],
         [sig |-> Pm(y, IF at.dclick = 0 THEN 1 ELSE 6)])

(*-------------------------------- sequencer -------------------------------*)
\* The tracker sequencer: a position in the pattern (in 1/Row of a row) that a clock moves on -
\* one row (RowT) or one pattern (PatT) per time between the last two triggers - or that the
\* clock signal gives itself (Phase).  A trigger on trig goes back to the start.
\* Gates with a probability are decided when their row is entered and then kept.
Trk == INSTANCE Tracker WITH QMax <- 64
Row == 16777216
To12(v) == (v * U) \div Trk!One
\* what each row of each column plays, computed once
SeqTab(p) ==
  LET ty == <<"note", "step", "gate", "value">>
      q == [rows |-> p.rows, types |-> [c \in 0..5 |-> ty[p.types[c + 1] + 1]],
            cells |-> [k \in {<<x[1], x[2]>> : x \in {p.cells[j] : j \in 1..Len(p.cells)}} |->
                         LET j == CHOOSE j \in 1..Len(p.cells) : p.cells[j][1] = k[1] /\ p.cells[j][2] = k[2]
                                                                  /\ \A m \in (j + 1)..Len(p.cells) : p.cells[m][1] # k[1] \/ p.cells[m][2] # k[2]
                         IN p.cells[j][3]]]
  IN [rows |-> p.rows,
      col |-> [c \in 0..5 |->
        [t |-> q.types[c],
         row |-> [r \in 0..(p.rows - 1) |->
           LET set == <<r, c>> \in DOMAIN q.cells IN
           [set |-> set, x |-> IF set THEN q.cells[<<r, c>>] ELSE 0,
            v |-> CASE q.types[c] = "value" -> Trk!ValueAt(q, c, r)
                    [] q.types[c] = "note" -> Trk!NoteAt(q, c, r)
                    [] OTHER -> Trk!StepAt(q, c, r)]]]]]
\* how often a gate was decided, and how often it plays
Tries == 256
\* the starting point: 20 frames were processed while the pattern was transmitted
InitSeq(at) == [prev |-> at.cmode = 2, n |-> IF at.cmode = 2 THEN 0 ELSE 20, per |-> 0, ph |-> 0, k |-> 0, tr |-> FALSE, last |-> 0,
                dec |-> [c \in 0..5 |-> <<-1, FALSE>>], cnt |-> [c \in 0..5 |-> <<0, 0>>]]
Maybe(x) == (x \div 256) % 16 < 15
\* the gates that could come about at position x: decided ones, and both for entered rows
Decisions(at, st, r, x, near) ==
  LET tab == at.tab
      P == {c \in 0..5 : tab.col[c].t = "gate" /\ tab.col[c].row[r].set /\ Maybe(tab.col[c].row[r].x)}
      half == tab.rows * (Row \div 2)
      jump == Abs(x - st.last) > half
      any == tab.rows = 1 /\ (near \/ Abs(Abs(x - st.last) - half) < 2000)
      In2(c) == IF st.dec[c][1] # r THEN {1, 2} ELSE IF any THEN {0, 1, 2} ELSE IF jump THEN {1, 2} ELSE {0}
      D == {f \in [P -> 0..2] : \A c \in P : f[c] \in In2(c)}
  IN IF P = {} THEN {[dec |-> [c \in 0..5 |-> <<r, FALSE>>], cnt |-> st.cnt]} ELSE
     {[dec |-> [c \in 0..5 |-> IF c \in P THEN IF f[c] = 0 THEN st.dec[c] ELSE <<r, f[c] = 2>>
                                ELSE IF tab.col[c].t = "gate" THEN <<r, FALSE>> ELSE st.dec[c]],
       cnt |-> [c \in 0..5 |-> IF c \in P /\ f[c] # 0 /\ at.stat[c + 1] >= 0 THEN <<st.cnt[c][1] + 1, st.cnt[c][2] + IF f[c] = 2 THEN 1 ELSE 0>> ELSE st.cnt[c]]] : f \in D}
\* probable within 3.3 standard deviations and more (Hoeffding: less than 1e-9 are not)
Probable(at, d) ==
  \A c \in 0..5 : d.cnt[c][1] = Tries /\ at.stat[c + 1] >= 0 => Abs(d.cnt[c][2] * 16 - Tries * (at.stat[c + 1] + 1)) <= 16 * 53
SeqCol(tab, c, r, f, on) ==
  LET R == tab.col[c]
      o == R.row[r]
      last == tab.rows - 1
      pv == R.row[IF r = 0 THEN last ELSE r - 1].v
      w == f \div 4096 IN
  CASE R.t = "value" -> <<Pm(To12((pv * (4096 - w) + o.v * w) \div 4096), 4), IF r = last THEN U ELSE 0>>
    [] R.t \in {"note", "step"} -> <<Pm(To12(o.v), 2), IF o.set THEN U ELSE 0>>
    [] OTHER ->
       IF ~o.set THEN <<<<0, 0>>, 0>>
       ELSE IF Maybe(o.x) /\ ~on THEN <<<<0, 0>>, U>>
       ELSE LET div == 16 - ((o.x \div 16) % 16)
                len == ((o.x % 16) + 1) * (Row \div 16)
                m == (f * div) % Row
                tol == 48000
                edge == len < Row /\ (Abs(m - len) < tol \/ m < tol \/ m > Row - tol)
            IN <<IF edge THEN <<0, U>> ELSE IF m <= len THEN <<U, U>> ELSE <<0, 0>>, U>>
TSeq(at, st, I) ==
  LET tab == at.tab
      R == tab.rows
      sync == Fires(st.tr, I.trig)
      run == at.cmode # 2
      hi == ~st.prev /\ I.clock > U \div 2
      per == IF run /\ hi /\ st.n > 0 THEN st.n ELSE st.per
      inc == IF per = 0 THEN 0 ELSE ((IF at.cmode = 0 THEN 1 ELSE R) * Row + per \div 2) \div per
      p0 == IF sync THEN 0 ELSE st.ph
      k == IF sync THEN 0 ELSE st.k + 1
      p == IF run THEN (p0 + inc) % (R * Row) ELSE (R * (Abs(I.clock) % U)) * (Row \div U)
      eps == IF run THEN (IF p0 = 0 /\ inc = 0 THEN 0 ELSE 600 + k) ELSE IF I.clock = 0 THEN 0 ELSE 600
      n == [st EXCEPT !.prev = IF run THEN (IF @ THEN I.clock > U \div 4 ELSE hi) ELSE @,
                      !.n = IF ~run THEN @ ELSE IF hi THEN 1 ELSE @ + 1,
                      !.per = per, !.ph = IF run THEN p ELSE IF sync THEN 0 ELSE @, !.k = k, !.tr = Armed(st.tr, I.trig), !.last = p]
      lo == (p - eps + R * Row) % (R * Row)
      hiX == (p + eps) % (R * Row)
      \* near a border of rows both are possible
      X == IF lo \div Row = hiX \div Row THEN {p} ELSE {lo, hiX}
      near == p < eps \/ p > R * Row - eps \/ st.last < eps \/ st.last > R * Row - eps
  IN UNION {LET r == x \div Row
                f == x % Row
            IN {[st |-> [n EXCEPT !.dec = d.dec, !.cnt = d.cnt],
                 o |-> LET C(c) == SeqCol(tab, c, r, f, d.dec[c][2]) IN [c \in 0..5 |-> C(c)]]
                : d \in {d \in Decisions(at, st, r, p, near) : Probable(at, d)}}
            : x \in X}
SeqFits(o, ob) ==
  /\ In(o[0][1], ob.trk1) /\ o[0][2] = ob.gat1 /\ In(o[1][1], ob.trk2) /\ o[1][2] = ob.gat2
  /\ In(o[2][1], ob.trk3) /\ o[2][2] = ob.gat3 /\ In(o[3][1], ob.trk4) /\ o[3][2] = ob.gat4
  /\ In(o[4][1], ob.trk5) /\ o[4][2] = ob.gat5 /\ In(o[5][1], ob.trk6) /\ o[5][2] = ob.gat6

(*-------------------------------- all kinds -------------------------------*)
InitNode(kind, at) ==
  CASE kind = "mux9" -> InitMux
    [] kind = "delay" -> InitDelay
    [] kind \in {"comb", "allp"} -> [w |-> <<>>]
    [] kind \in {"quant", "cqnt"} -> InitQuant
    [] kind \in {"ad", "adsr"} -> InitEnv
    [] kind = "tslfo" -> InitLfo
    [] kind = "rndwk" -> InitWalk
    [] kind = "sampl" -> InitSampl
    [] kind = "tseq" -> InitSeq(at)
    [] OTHER -> [x |-> 0]

\* h, t: history of the feedback line, current frame; ob: the outputs seen
Frame(kind, at, st, I, sr, h, t, ob) ==
  CASE kind = "amp" -> Amp(at, st, I)
    [] kind = "mix3" -> Mix3(st, I)
    [] kind = "smap" -> SMap(at, st, I)
    [] kind = "map" -> Map(at, st, I)
    [] kind = "mux9" -> Mux9(at, st, I)
    [] kind = "inp" -> Inp(st, I)
    [] kind = "out" -> Out(at, st, I)
    [] kind = "noise" -> Noise(at, st, I)
    [] kind = "fbwr" -> One(st, <<>>)
    [] kind = "fbrd" -> FbRd(st, I, h, t, sr)
    [] kind = "delay" -> Delay(at, st, I)
    [] kind = "comb" -> Comb(at, st, I)
    [] kind = "allp" -> AllP(st, I)
    [] kind = "quant" -> Quant(at, st, I, sr)
    [] kind = "cqnt" -> CQnt(at, st, I, sr)
    [] kind = "ad" -> Env(at, st, I, sr, FALSE)
    [] kind = "adsr" -> Env(at, st, I, sr, TRUE)
    [] kind = "tslfo" -> TsLfo(st, I)
    [] kind = "rndwk" -> RndWk(st, I, ob.sig)
    [] kind = "sampl" -> Sampl(at, st, I)
    [] kind = "tseq" -> TSeq(at, st, I)

See(kind, st, I, ob) == IF kind \in {"ad", "adsr"} THEN [st EXCEPT !.cur = Seen(@, I.inp, ob.sig), !.un = IF Abs(I.inp) < 1024 THEN @ + 1 ELSE 0]
                         ELSE IF kind = "sampl" THEN [st EXCEPT !.last = ob.sig] ELSE st
Fits(kind, r, ob) == IF kind = "tseq" THEN SeqFits(r.o, ob) ELSE \A p \in DOMAIN r.o : In(r.o[p], ob[p])

\* the light of a node shows its last value
LedIsOut == {"amp", "inp", "mix3", "mux9", "fbrd", "delay", "comb", "allp", "noise", "ad", "adsr", "tslfo", "rndwk"}
LedIsIn == {"fbwr", "out"}
=============================================================================
