-------------------------------- MODULE Heap --------------------------------
(* Who holds what.  The user interface makes objects (samples, programs,    *)
(* node functions), hands them to the audio side through a queue and never  *)
(* gets them back: what the audio side gives up goes into a second queue,   *)
(* from which a background thread takes it and destroys it.  An object is   *)
(* destroyed with its last reference, so the audio side must never drop     *)
(* one itself: it only moves references.  Samples stand for all objects, as *)
(* their references can be counted from outside.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Sampl == "sampl"
Fun == "rust1x1"
Rng(f) == {f[x] : x \in DOMAIN f}
Ovr(f, k, v) == (k :> v) @@ f
Fill(N) == UNION {{<<n[1], j>> : j \in 0..n[2]} : n \in N}

\* exist: node instances; av: samples set by the user interface (0: none); ma: inputs with an
\* amount; q: messages; run: samples of the running program; dq: given up by the audio side;
\* fi: instance for which each function was made; taken:
\* instances that were made at least once; old: functions for former instances of the same name
InitHeap == [taken |-> {}, exist |-> {}, cells |-> <<>>, av |-> <<>>, ma |-> {}, q |-> <<>>, run |-> <<>>, dq |-> <<>>,
             fi |-> <<>>, old |-> {}]

Prog(s) == [k |-> "prog", av |-> [n \in {m \in s.exist : m[1] = Sampl} |-> IF n \in DOMAIN s.av THEN s.av[n] ELSE 0]]
\* a node made for an instance again no longer gets what was sent to the former one
Upload(s) ==
  LET x == s.exist \cup Fill(Rng(s.cells))
      new == {n[2] : n \in {m \in x \ s.exist : m[1] = Fun}}
      t == [s EXCEPT !.exist = x, !.taken = @ \cup new,
                     !.old = @ \cup {k \in DOMAIN s.fi : s.fi[k] \in new \cap s.taken}] IN
  [t EXCEPT !.q = Append(@, Prog(t))]

PutCells(s, cs) ==
  LET RECURSIVE F(_, _)
      F(c, j) == IF j > Len(cs) THEN c ELSE F(Ovr(c, <<cs[j].x, cs[j].y>>, cs[j].n), j + 1)
  IN F(s.cells, 1)
Change(s, cs) == Upload([s EXCEPT !.cells = PutCells(s, cs)])

Clear(s) == Upload([s EXCEPT !.exist = {}, !.cells = <<>>, !.av = <<>>, !.ma = {},
                             !.q = Append(@, [k |-> "prog", av |-> <<>>])])

\* k = 0: no sample
SetSample(s, n, k) ==
  LET t == [s EXCEPT !.av = Ovr(@, n, k)] IN
  IF n \in s.exist THEN [t EXCEPT !.q = Append(@, [k |-> "atom", n |-> n, v |-> k])] ELSE t

\* an amount that is added or removed makes a new program
SetMod(s, key, on) ==
  IF on /\ key \in s.ma THEN s
  ELSE Upload([s EXCEPT !.ma = IF on THEN @ \cup {key} ELSE @ \ {key}])

SetFun(s, i, k) == [s EXCEPT !.fi = Ovr(@, k, i), !.old = @ \ {k}]

(*------------------------------ audio side ------------------------------*)
Deliver(s, m) ==
  IF m.k = "prog"
  THEN [s EXCEPT !.run = m.av, !.dq = Append(@, s.run)]
  ELSE [s EXCEPT !.run = Ovr(@, m.n, m.v),
                 !.dq = Append(@, IF m.n \in DOMAIN s.run THEN m.n :> s.run[m.n] ELSE <<>>)]
RECURSIVE Drain(_, _)
Drain(s, j) == IF j > Len(s.q) THEN [s EXCEPT !.q = <<>>] ELSE Drain(Deliver(s, s.q[j]), j + 1)
Update(s) == Drain(s, 1)

\* the background thread
Collect(s) == [s EXCEPT !.dq = <<>>]

(*------------------------------- holders --------------------------------*)
Msg(m) == IF m.k = "prog" THEN Rng(m.av) ELSE {m.v}
QRefs(s) == UNION {Msg(s.q[j]) : j \in DOMAIN s.q}
DRefs(s) == UNION {Rng(s.dq[j]) : j \in DOMAIN s.dq}
Live(s) == (Rng(s.av) \cup QRefs(s) \cup Rng(s.run) \cup DRefs(s)) \ {0}

\* once the background thread is done with everything
Settled(s) == Collect(s)
\* functions: a few of one node may be kept, those of former instances are gone once the audio
\* side has let go of them
FunsOk(s, F) ==
  s.q = <<>> =>
    /\ F \cap s.old = {}
    /\ \A i \in Rng(s.fi) : Cardinality({k \in F : s.fi[k] = i}) <= 4
=============================================================================
