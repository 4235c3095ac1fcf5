------------------------------ MODULE MC_Nodes ------------------------------
(* Small instances of the machines of Nodes, over all short signals of a few *)
(* levels: what the documentation promises about each node as a whole.      *)
EXTENDS Nodes, TLC
CONSTANTS N
VARIABLES c, st, H
vars == <<c, st, H>>

Sr == 500                                \* a trigger lasts one frame
Tr == {0, 1500, U}
Bi == {-U, 1000, U}
\* three rows: the first column tells which one is played, the second is a gate that may stay closed
SeqPat == SeqTab([rows |-> 3, types |-> <<1, 2, 3, 3, 3, 3>>, cells |-> <<<<0, 0, 256>>, <<1, 0, 512>>, <<2, 0, 768>>, <<0, 1, 2047>>, <<1, 1, 2047>>, <<2, 1, 4095>>>>])
\* cases: kind, settings, and the constant inputs
Cases ==
       {[kind |-> "amp", at |-> [neg_att |-> m], I |-> [gain |-> g]] : m \in {0, 1}, g \in {2048, U}}
  \cup {[kind |-> "smap", at |-> [mode |-> m, clip |-> k], I |-> [min |-> a[1], max |-> a[2]]] : m \in 0..3, k \in {0, 1}, a \in {<<-U, U>>, <<3000, 1000>>}}
  \cup {[kind |-> "map", at |-> [clip |-> k], I |-> [atv |-> v, offs |-> 100, imin |-> a[1], imax |-> a[2], min |-> b[1], max |-> b[2]]] :
           k \in {0, 1}, v \in {-U, 2048}, a \in {<<-U, U>>, <<2048, 0>>, <<500, 500>>}, b \in {<<0, U>>, <<U, -100>>}}
  \cup {[kind |-> "mux9", at |-> [in_cnt |-> m, sel |-> x], I |-> [j \in {"in_1", "in_2", "in_3", "in_4", "in_5", "in_6", "in_7", "in_8", "in_9"} |->
           CASE j = "in_1" -> 1 [] j = "in_2" -> 2 [] j = "in_3" -> 3 [] OTHER -> 9]] : m \in 0..2, x \in {TRUE, FALSE}}
  \cup {[kind |-> "delay", at |-> [mode |-> m], I |-> [time |-> 2 * t, fb |-> f, mix |-> U]] : m \in {0, 1}, t \in {0, 2}, f \in {0, 2048}}
  \cup {[kind |-> "comb", at |-> [mode |-> m], I |-> [time |-> 2 * t, g |-> 2048]] : m \in {0, 1}, t \in {0, 1}}
  \cup {[kind |-> "allp", at |-> [x |-> 0], I |-> [time |-> 2, g |-> g]] : g \in {0, 2048}}
  \cup {[kind |-> "quant", at |-> [keys |-> k], I |-> [oct |-> 0]] : k \in {0, 1, 1057, 4095}}
  \cup {[kind |-> "cqnt", at |-> [keys |-> k, omin |-> a, omax |-> b], I |-> [oct |-> 0]] : k \in {0, 1, 1057}, a \in {0, 1}, b \in {0, 2}}
  \cup {[kind |-> "ad", at |-> [mult |-> m], I |-> [inp |-> U, atk |-> a, dcy |-> d, ashp |-> p, dshp |-> p]] : m \in {0, 1}, a \in {1, 5}, d \in {1, 3}, p \in {1024, 2048}}
  \cup {[kind |-> "adsr", at |-> [mult |-> 0], I |-> [inp |-> U, atk |-> a, dcy |-> d, sus |-> x, rel |-> r, ashp |-> 2048, dshp |-> 3072, rshp |-> 2048]] :
           a \in {1, 5}, d \in {1, 3}, x \in {0, 3000}, r \in {1, 3}}
  \cup {[kind |-> "tslfo", at |-> [x |-> 0], I |-> [time |-> t, rev |-> r]] : t \in {4, 8}, r \in {1024, 2048, 3500}}
  \cup {[kind |-> "rndwk", at |-> [x |-> 0], I |-> [step |-> 0, min |-> a[1], max |-> a[2], slew |-> w]] : a \in {<<0, U>>, <<3000, 1000>>, <<500, 500>>}, w \in {0, 6}}
  \cup {[kind |-> "sampl", at |-> [data |-> <<11, 22, 33>>, k |-> k, pmode |-> m, dir |-> d, dclick |-> 0], I |-> [offs |-> o, len |-> l, dcms |-> 3]] :
           k \in {1, 2}, m \in {0, 1}, d \in {0, 1}, o \in {0, 2000}, l \in {U, 3000, 0}}
  \cup {[kind |-> "tseq", at |-> [cmode |-> m, tab |-> SeqPat, stat |-> <<-1, -1, -1, -1, -1, -1>>], I |-> [x |-> 0]] : m \in 0..2}
  \cup {[kind |-> "fbrd", at |-> [x |-> 0], I |-> [vol |-> U]]}
\* the signals of a case
Vary(k) ==
  CASE k = "amp" -> [{"inp", "att"} -> Bi]
    [] k \in {"smap", "map"} -> [{"inp"} -> {-U, -1000, 0, 700, U}]
    [] k = "mux9" -> {f \in [{"slct", "t_rst", "t_up", "t_down"} -> {0, 2048, U}] : f["t_rst"] # 2048 /\ f["t_up"] # 2048 /\ f["t_down"] # 2048}
    [] k = "delay" -> [{"inp", "trig"} -> {0, U}]
    [] k \in {"comb", "allp"} -> [{"inp"} -> {0, U}]
    [] k = "quant" -> [{"freq"} -> {-1000, -20, 0, 9, 300}]
    [] k = "cqnt" -> [{"inp"} -> {0, 300, 1500, 4000, U}]
    [] k \in {"ad", "tslfo", "sampl"} -> [{"trig"} -> Tr]
    [] k = "adsr" -> [{"gate"} -> Tr]
    [] k = "rndwk" -> [{"trig", "offs"} -> {-2500, U}]
    [] k = "tseq" -> [{"clock", "trig"} -> {0, U - 1}] \cup (IF c.at.cmode = 2 THEN [{"clock", "trig"} -> {2000}] ELSE {})
    [] k = "fbrd" -> [{"w"} -> {0, 5}]

Mid(iv) == iv[1] + (iv[2] - iv[1]) \div 2
Init == c \in Cases /\ st = InitNode(c.kind, c.at) /\ H = <<>>
\* signals with many levels are kept shorter
MaxLen == N - CASE c.kind = "mux9" -> 3 [] c.kind \in {"amp", "smap", "map", "quant", "cqnt"} -> 2 [] OTHER -> 0
Next == /\ Len(H) < MaxLen
        /\ \E v \in Vary(c.kind) :
             LET I == v @@ c.I IN
             \E r \in Frame(c.kind, c.at, st, I, Sr, IF c.kind = "fbrd" THEN [j \in 1..(Len(H) + 126) |-> IF j <= 126 THEN j ELSE H[j - 126].I["w"]] ELSE <<>>,
                            Len(H) + 127, [sig |-> 0]) :
               st' = r.st /\ H' = Append(H, [I |-> I, o |-> IF c.kind = "tseq" THEN [sig |-> Mid(r.o[0][1]), maybe |-> Mid(r.o[1][1])] ELSE [p \in DOMAIN r.o |-> Mid(r.o[p])]])
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

L == Len(H)
K == c.kind
O(j) == H[j].o.sig
\* a trigger fires again only after the level was low
RECURSIVE On(_, _)
On(p, j) == IF j = 0 THEN FALSE ELSE IF On(p, j - 1) THEN H[j].I[p] > 1024 ELSE H[j].I[p] > 2048
Fire(p, j) == On(p, j) /\ ~On(p, j - 1)
LastFire(p, j) == IF \E i \in 1..j : Fire(p, i) THEN CHOOSE i \in 1..j : Fire(p, i) /\ \A m \in (i + 1)..j : ~Fire(p, m) ELSE 0

AmpOk == \A j \in 1..L : LET i == H[j].I IN Abs(O(j)) <= Abs(Mul(i.inp, i.gain)) + 5 /\ (c.at.neg_att = 1 /\ i.att < 0 => Abs(O(j)) <= 4)
MapOk == c.at.clip = 1 => \A j \in 1..L : O(j) >= Min2(c.I.min, c.I.max) - 3 /\ O(j) <= Max2(c.I.min, c.I.max) + 3
\* an inverted map is the map of the inverted signal
SMapOk == \A j \in 1..L : c.at.mode \in {2, 3} =>
            \E r \in SMap([c.at EXCEPT !.mode = @ - 2], st, [H[j].I EXCEPT !.min = c.I.max, !.max = c.I.min]) : Abs(Mid(r.o.sig) - O(j)) <= 6
MuxOk == \A j \in 1..L : /\ O(j) \in 1..(c.at.in_cnt + 1)
                         /\ (~c.at.sel /\ Fire("t_rst", j) /\ ~Fire("t_up", j) /\ ~Fire("t_down", j) => O(j) = 1)
                         /\ (~c.at.sel /\ j > 1 /\ (\A p \in {"t_rst", "t_up", "t_down"} : ~Fire(p, j)) => O(j) = O(j - 1))
                         /\ (~c.at.sel /\ j > 1 /\ Fire("t_up", j) /\ Fire("t_down", j) /\ ~Fire("t_rst", j) => O(j) = O(j - 1))
                         /\ (c.at.sel /\ H[j].I.slct = U => O(j) = c.at.in_cnt + 1)
DelayOk ==
  c.at.mode = 0 =>
    LET T == c.I.time \div 2 IN
    \A j \in 1..L : c.I.fb = 0 => Abs(O(j) - IF j - T - 1 >= 1 THEN H[j - T - 1].I.inp ELSE 0) <= 1
\* with echoes the output never exceeds the geometric series
Bounded == \A j \in 1..L : Abs(O(j)) <= 2 * U + 8
CombOk == c.at.mode = 1 => LET T == c.I.time \div 2 IN
          \A j \in 1..L : Abs(O(j) - (H[j].I.inp + IF j - T - 1 >= 1 THEN H[j - T - 1].I.inp \div 2 ELSE 0)) <= 2
AllPOk == c.I.g = 0 => \A j \in 1..L : O(j) = IF j >= 3 THEN H[j - 2].I.inp ELSE 0
QuantOk == \A j \in 1..L : /\ \E n \in -60..60 : Selected(c.at.keys, n) /\ Abs(O(j) - Pitch(n)) <= 1
                                                /\ \A m \in -60..60 : Selected(c.at.keys, m) => Abs(H[j].I.freq - Pitch(n)) <= Abs(H[j].I.freq - Pitch(m)) + 36
                           /\ (H[j].o.t = U <=> j = 1 \/ O(j) # O(j - 1) \/ (H[j].o.t = U /\ H[j].I.freq \div 410 # H[j - 1].I.freq \div 410))
CQntOk == \A i, j \in 1..L : /\ (H[i].I.inp <= H[j].I.inp => O(i) <= O(j))
                             /\ (H[j].I.inp = U => O(j) = Pitch(CHOOSE k \in CKeys(c.at) : \A m \in CKeys(c.at) : m <= k))
                             /\ (H[j].o.t = U <=> j = 1 \/ O(j) # O(j - 1))
\* untouched after a trigger, an envelope takes attack and decay, ends at 0 and tells so once
AdOk ==
  LET f == IF c.at.mult = 1 THEN 10 ELSE 1
      A == (c.I.atk * f + 1) \div 2
      D == (c.I.dcy * f + 1) \div 2
  IN \A j \in 1..L :
       /\ O(j) \in 0..U
       /\ LET i == LastFire("trig", j) IN
          IF i = 0 THEN O(j) = 0 /\ H[j].o.eoet = 0
          ELSE /\ (LastFire("trig", i - 1) = 0 /\ j = i + A - 1 => O(j) = U)
               /\ (j >= i + A + D - 1 => O(j) = 0)
               /\ (LastFire("trig", i - 1) = 0 => ((H[j].o.eoet = U) <=> j = i + A + D))
AdsrOk ==
  LET A == (c.I.atk + 1) \div 2
      D == (c.I.dcy + 1) \div 2
      R == (c.I.rel + 1) \div 2
  IN \A j \in 1..L :
       /\ O(j) \in 0..U
       /\ LET i == LastFire("gate", j) IN
          IF i = 0 THEN O(j) = 0
          ELSE /\ ((\A m \in i..j : H[m].I.gate > 1024) /\ j >= i + A + D - 1 => O(j) = c.I.sus)      \* held
               /\ ((\A m \in (i + 1)..j : H[m].I.gate < 1024) /\ j >= i + A + D + R => O(j) = 0)      \* released at once
LfoOk == \A j \in 1..L : /\ O(j) \in 0..U
                         /\ LET P == c.I.time \div 2 IN
                            (j > P /\ (\A m \in (j - P + 1)..j : ~Fire("trig", m)) => Abs(O(j) - O(j - P)) <= 20)
                         /\ (Fire("trig", j) => O(j) <= 16)
\* rows follow each other, a trigger goes back to the first; a gate never changes its mind within a row
SeqRow(j) == CHOOSE r \in 0..2 : Abs(O(j) - ((r + 1) * 256 * U) \div 4095) <= 4
SeqClockAt(j) == CHOOSE r \in 0..2 : 3 * H[j].I.clock >= r * U /\ 3 * H[j].I.clock < (r + 1) * U
SeqOk == \A j \in 1..L :
           /\ \E r \in 0..2 : Abs(O(j) - ((r + 1) * 256 * U) \div 4095) <= 4
           /\ (c.at.cmode = 2 => SeqRow(j) = SeqClockAt(j))
           /\ (c.at.cmode # 2 /\ Fire("trig", j) /\ (\A m \in 1..j : ~Fire("clock", m)) => SeqRow(j) = 0)
           /\ (j > 1 /\ SeqRow(j) = SeqRow(j - 1) => H[j].o.maybe = H[j - 1].o.maybe)
           /\ (SeqRow(j) = 2 => H[j].o.maybe = U)
           /\ (c.at.cmode = 0 /\ j > 1 /\ ~Fire("trig", j) => SeqRow(j) \in {SeqRow(j - 1), (SeqRow(j - 1) + 1) % 3})
           /\ (c.at.cmode = 0 /\ Fire("trig", j) => SeqRow(j) = 0)
\* once the clock is known, a row takes as long as there was between the last two triggers
SeqPace == c.at.cmode = 0 => \A i, k \in 1..L :
             (Fire("clock", i) /\ Fire("clock", k) /\ i < k /\ (\A m \in (i + 1)..(k - 1) : ~Fire("clock", m))) =>
               \A j \in (k + k - i + 2)..L : ((\A m \in (k + 1)..j : ~Fire("clock", m)) /\ (\A m \in 1..j : ~Fire("trig", m))) =>
                 Cardinality({m \in (j - (k - i))..j : SeqRow(m) # SeqRow(m - 1)}) \in {1, 2}
WalkOk == \A j \in 1..L : /\ (c.I.slew = 0 /\ LastFire("trig", j) > 0 => O(j) >= Min2(c.I.min, c.I.max) - 1 /\ O(j) <= Max2(c.I.min, c.I.max) + 1)
                          /\ (c.I.slew = 0 /\ ~Fire("trig", j) => O(j) = IF j = 1 THEN 0 ELSE O(j - 1))
                          /\ (c.I.slew > 0 => Abs(O(j) - IF j = 1 THEN 0 ELSE O(j - 1)) <= (2 * U) \div c.I.slew + 1)
SamplOk ==
  LET s0 == (3 * c.I.offs) \div U
      n == Min2(3 - s0, (6 * c.I.len + U) \div (2 * U))
      Play(q) == IF c.at.dir = 0 THEN 11 * (1 + s0 + q) ELSE 11 * (1 + s0 + ((n - q) % n))
  IN \A j \in 1..L :
       LET i == LastFire("trig", j)
           q == (j - Max2(i, 1)) * c.at.k IN
       IF n = 0 \/ (c.at.pmode = 1 /\ (i = 0 \/ q >= n)) THEN O(j) = 0
       ELSE O(j) = Play(q % n)
\* frame 126 + j reads what was written 128 frames before
FbOk == \A j \in 1..L : O(j) = Max2(0, j - 2)

Inv ==
  CASE K = "amp" -> AmpOk [] K = "map" -> MapOk [] K = "smap" -> MapOk /\ SMapOk [] K = "mux9" -> MuxOk
    [] K = "delay" -> DelayOk /\ Bounded [] K = "comb" -> CombOk /\ Bounded [] K = "allp" -> AllPOk
    [] K = "quant" -> QuantOk [] K = "cqnt" -> CQntOk [] K = "ad" -> AdOk [] K = "adsr" -> AdsrOk
    [] K = "tslfo" -> LfoOk [] K = "rndwk" -> WalkOk [] K = "sampl" -> SamplOk [] K = "fbrd" -> FbOk
    [] K = "tseq" -> SeqOk /\ SeqPace
=============================================================================
