----------------------------- MODULE FifoDesign -----------------------------
(* The asynchronous FIFO as designed: two pointers, each crossing over as a *)
(* Gray code through a source register and two flops, around a dual-port    *)
(* memory.  Registers that sample the other domain while it changes get an  *)
(* arbitrary mix of the old and the new bits.  TLC explores every           *)
(* interleaving of the clocks, writes and acknowledgements and checks that  *)
(* the design is a FIFO; histories of it are replayed in the hardware.      *)
EXTENDS Naturals, Sequences, FiniteSets, Bitwise, TLC, Json

CONSTANTS W, Data, Gray, Hist
C == 2^W
VARIABLES wp, wg, w1, w2, rp, rg, r1, r2, mem, out, q, h
vars == <<wp, wg, w1, w2, rp, rg, r1, r2, mem, out, q, h>>
Enc(n) == IF Gray THEN n ^^ (n \div 2) ELSE n
RECURSIVE Dec_(_)
Dec_(g) == IF g = 0 THEN 0 ELSE g ^^ Dec_(g \div 2)
Dec(g) == IF Gray THEN Dec_(g) ELSE g
Bit(n, i) == (n \div 2^i) % 2
(* Every word whose bits are taken from a or b.                             *)
Mix(a, b) == {x \in 0..C-1 : \A i \in 0..W-1 : Bit(x, i) \in {Bit(a, i), Bit(b, i)}}
Full == (wp + 1) % C = Dec(r2)
Empty == Dec(w2) = rp
Read == IF Empty THEN <<>> ELSE <<out>>
Num == (Dec(w2) + C - rp) % C
None == 99

Init == wp = 0 /\ wg = 0 /\ w1 = 0 /\ w2 = 0 /\ rp = 0 /\ rg = 0 /\ r1 = 0 /\ r2 = 0
        /\ mem = [a \in 0..C-1 |-> None] /\ out = None /\ q = <<>> /\ h = <<>>
Step(tick, w, ack) ==
  LET push == "w" \in tick /\ w # <<>> /\ ~Full
      rpn == IF ack /\ ~Empty THEN (rp + 1) % C ELSE rp
      pop == "r" \in tick /\ ack /\ ~Empty
      q1 == IF pop THEN Tail(q) ELSE q
  IN /\ wp' = IF push THEN (wp + 1) % C ELSE wp
     /\ mem' = IF push THEN [mem EXCEPT ![wp] = w[1]] ELSE mem
     /\ wg' = IF "w" \in tick THEN Enc(wp) ELSE wg
     /\ r1' \in IF "w" \in tick THEN (IF "r" \in tick THEN Mix(rg, Enc(rp)) ELSE {rg}) ELSE {r1}
     /\ r2' = IF "w" \in tick THEN r1 ELSE r2
     /\ rp' = IF "r" \in tick THEN rpn ELSE rp
     /\ rg' = IF "r" \in tick THEN Enc(rp) ELSE rg
     /\ w1' \in IF "r" \in tick THEN (IF "w" \in tick THEN Mix(wg, Enc(wp)) ELSE {wg}) ELSE {w1}
     /\ w2' = IF "r" \in tick THEN w1 ELSE w2
     /\ out' \in IF "r" \in tick THEN (IF push /\ wp = rpn THEN {mem[rpn], w[1], None} ELSE {mem[rpn]}) ELSE {out}
     /\ q' = IF push THEN q1 \o w ELSE q1
     /\ h' = IF Hist = 0 THEN h
             ELSE Append(h, [tick |-> (IF "w" \in tick THEN <<"w">> ELSE <<>>) \o (IF "r" \in tick THEN <<"r">> ELSE <<>>),
                             w |-> w, ack |-> IF ack THEN 1 ELSE 0])
Next == /\ (Hist = 0 \/ Len(h) < Hist)
        /\ \E tick \in {{"w"}, {"r"}, {"w", "r"}}, w \in {<<>>} \cup {<<d>> : d \in Data}, ack \in BOOLEAN : Step(tick, w, ack)
Spec == Init /\ [][Next]_vars
Emit == Len(h) = Hist /\ Hist > 0 => PrintT("TRACE " \o ToJson(h))

IsFifo == Read # <<>> => q # <<>> /\ Read[1] = q[1]
Lower == Num <= Len(q)
Fits == Len(q) < C
Live == /\ (w2 = wg /\ wg = Enc(wp) /\ w1 = w2) => ((Read = <<>>) <=> (q = <<>>)) /\ Num = Len(q)
        /\ (r2 = rg /\ rg = Enc(rp) /\ r1 = r2) => (Full <=> Len(q) = C - 1)
=============================================================================
