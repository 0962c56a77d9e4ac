------------------------------ MODULE SpadeCdc ------------------------------
(* Clock domain crossings of the standard library as their users see them.  *)
(* A run is a recorded history: in every step the inputs are set, the       *)
(* outputs are sampled, and then the clocks in `tick` rise together.        *)
(* Rising together means in no particular order: what a register samples    *)
(* from the other domain at that moment is, bit by bit, what was there      *)
(* before or after.                                                         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

CONSTANT Settle        \* rounds after which a transfer must have happened
Runs == JsonDeserialize(IOEnv.TRACE_FILE)
Has(r, f) == f \in DOMAIN r
Ticks(o, c) == \E i \in DOMAIN o.tick : o.tick[i] = c
(* Rounds: how often both clocks have risen, in whatever order, since.     *)
Zero == [c |-> 0, seen |-> {}]
Round(o, n) ==
  LET s == n.seen \cup {o.tick[i] : i \in DOMAIN o.tick} IN
  IF s = {"w", "r"} THEN [c |-> IF n.c < 4 * Settle THEN n.c + 1 ELSE n.c, seen |-> {}] ELSE [n EXCEPT !.seen = s]
Past(n, k) == n.c >= k

(***************************** asynchronous FIFO *****************************)
(* q: the elements written and not yet read;  n: rounds since the last write, *)
(* read or reset.                                                            *)
FifoInit(p) == [q |-> <<>>, n |-> Zero]
FifoOk(p, s, o) ==
  o.rst \/
  /\ o.full \in {0, 1} /\ o.num >= 0 /\ o.read # <<-1>>
  /\ o.read # <<>> => s.q # <<>> /\ o.read[1] = s.q[1]     \* in order, nothing invented, nothing lost
  /\ o.num <= Len(s.q)                                      \* a lower bound
  /\ Past(s.n, Settle) => /\ o.num = Len(s.q)               \* what is stored shows up
                          /\ (o.read = <<>>) <=> (s.q = <<>>)
                          /\ (o.full = 1) <=> (Len(s.q) >= p.cap - 1)
FifoNext(p, s, o) ==
  IF o.rst THEN FifoInit(p)
  ELSE LET push == Ticks(o, "w") /\ o.w # <<>> /\ o.full = 0
           pop == Ticks(o, "r") /\ o.ack = 1 /\ o.read # <<>>
           q1 == IF pop THEN Tail(s.q) ELSE s.q
       IN [q |-> IF push THEN q1 \o o.w ELSE q1, n |-> IF push \/ pop THEN Zero ELSE Round(o, s.n)]

(******************************** handshake **********************************)
(* pend: the value under way.                                                *)
HandInit(p) == [pend |-> <<>>, n |-> Zero]
HandOk(p, s, o) ==
  o.rst \/
  /\ Ticks(o, "r") => o.out # <<-1>> /\ (o.out # <<>> => s.pend # <<>> /\ o.out[1] = s.pend[1])
  /\ Past(s.n, Settle) => s.pend = <<>>
HandNext(p, s, o) ==
  IF o.rst THEN HandInit(p)
  ELSE LET a == IF Ticks(o, "r") /\ o.out # <<>> THEN <<>> ELSE s.pend IN
       IF Ticks(o, "w") /\ o.w # <<>> THEN [pend |-> o.w, n |-> Zero]
       ELSE [pend |-> a, n |-> Round(o, s.n)]

(******************************** sync_wide **********************************)
(* h: the values seen at source edges;  at: the earliest of them the output  *)
(* can be;  n: rounds since the input changed.                                *)
WideInit(p) == [h |-> <<>>, at |-> 0, out |-> p.init, n |-> Zero, in |-> -1]
Later(h, at, v) == {i \in at + 1..Len(h) : h[i] = v}
WideOk(p, s, o) ==
  o.rst \/
  /\ o.out >= 0
  /\ o.out # s.out => Later(s.h, s.at, o.out) # {}
  /\ s.in = o.w /\ Past(s.n, 4 * Settle) => o.out = o.w
WideNext(p, s, o) ==
  IF o.rst THEN WideInit(p)
  ELSE LET at == IF o.out = s.out THEN s.at ELSE CHOOSE i \in Later(s.h, s.at, o.out) : \A j \in Later(s.h, s.at, o.out) : i <= j
       IN [h |-> IF Ticks(o, "w") THEN Append(s.h, o.w) ELSE s.h, at |-> at, out |-> o.out,
           n |-> IF s.in = o.w THEN Round(o, s.n) ELSE Round(o, Zero), in |-> o.w]

(****************** two-flop and Gray-coded counter synchronisers ************)
(* All states <<source register, first flop, second flop>> consistent with   *)
(* what was seen; -1 is undefined.                                           *)
SyncInit(p) == [st |-> {<<-1, -1, -1>>}]
SyncSee(s, o) == {t \in s.st : t[3] = -1 \/ t[3] = o.out}
SyncOk(p, s, o) == SyncSee(s, o) # {}
SyncNext(p, s, o) ==
  [st |-> UNION {LET g == IF Ticks(o, "w") THEN o.w ELSE t[1]
                     from == IF p.kind = "flop" THEN {o.w} ELSE {t[1], g}
                 IN IF Ticks(o, "r") THEN {<<g, x, t[2]>> : x \in from} ELSE {<<g, t[2], t[3]>>} : t \in SyncSee(s, o)}]

(************************************ all ************************************)
S0(p) == CASE p.kind = "fifo" -> FifoInit(p) [] p.kind = "hand" -> HandInit(p) [] p.kind = "wide" -> WideInit(p) [] OTHER -> SyncInit(p)
Ok(p, s, o) == CASE p.kind = "fifo" -> FifoOk(p, s, o) [] p.kind = "hand" -> HandOk(p, s, o)
                 [] p.kind = "wide" -> WideOk(p, s, o) [] OTHER -> SyncOk(p, s, o)
Step(p, s, o) == CASE p.kind = "fifo" -> FifoNext(p, s, o) [] p.kind = "hand" -> HandNext(p, s, o)
                   [] p.kind = "wide" -> WideNext(p, s, o) [] OTHER -> SyncNext(p, s, o)

VARIABLES pid, k, st
vars == <<pid, k, st>>
Init == pid \in 1..Len(Runs) /\ k = 1 /\ st = S0(Runs[pid])
Next ==
  /\ k <= Len(Runs[pid].steps)
  /\ LET p == Runs[pid] o == p.steps[k] IN
     IF Ok(p, st, o) THEN st' = Step(p, st, o)
     ELSE PrintT("REJECT " \o ToJson(<<p.id, k, st, o>>)) /\ FALSE
  /\ k' = k + 1 /\ UNCHANGED pid
Spec == Init /\ [][Next]_vars
=============================================================================
