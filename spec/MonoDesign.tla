---------------------------- MODULE MonoDesign -----------------------------
(* Worker threads which compile the instances of generic units.  An        *)
(* instance is an item; compiling it requests the items it uses, in order. *)
(* A requested item gets a fresh number (part of its name) the first time  *)
(* and is put into the queue.  The dispatcher stops when the queue is      *)
(* empty and no item is being compiled.                                    *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Items, Graphs, Workers
VARIABLES uses, roots, queue, num, next, busy, left, result, stopped
vars == <<uses, roots, queue, num, next, busy, left, result, stopped>>
Idle == <<>>

RECURSIVE Closure(_, _)
Closure(u, S) == LET T == S \cup UNION {{u[x][n] : n \in DOMAIN u[x]} : x \in S} IN IF T = S THEN S ELSE Closure(u, T)
RECURSIVE Seqs(_)
Seqs(S) == IF S = {} THEN {<<>>} ELSE UNION {{<<x>> \o s : s \in Seqs(S \ {x})} : x \in S}

Init ==
  /\ \E g \in Graphs : uses = g.uses /\ roots = g.roots
  /\ queue = roots
  /\ num = [x \in Items |-> IF \E n \in DOMAIN roots : roots[n] = x THEN CHOOSE n \in DOMAIN roots : roots[n] = x ELSE 0]
  /\ next = Len(roots) + 1
  /\ left = Len(roots)
  /\ busy = [w \in Workers |-> Idle]
  /\ result = <<>> /\ stopped = FALSE

Take(w) ==
  /\ ~stopped /\ busy[w] = Idle /\ queue # <<>>
  /\ busy' = [busy EXCEPT ![w] = <<Head(queue), 1>>]
  /\ queue' = Tail(queue)
  /\ UNCHANGED <<uses, roots, num, next, left, result, stopped>>
Request(w) ==
  /\ busy[w] # Idle
  /\ LET x == busy[w][1] k == busy[w][2] IN
     /\ k <= Len(uses[x])
     /\ busy' = [busy EXCEPT ![w] = <<x, k + 1>>]
     /\ LET y == uses[x][k] IN
        IF num[y] # 0 THEN UNCHANGED <<num, next, queue, left>>
        ELSE /\ num' = [num EXCEPT ![y] = next]
             /\ next' = next + 1
             /\ queue' = Append(queue, y)
             /\ left' = left + 1
  /\ UNCHANGED <<uses, roots, result, stopped>>
Finish(w) ==
  /\ busy[w] # Idle
  /\ busy[w][2] > Len(uses[busy[w][1]])
  /\ busy' = [busy EXCEPT ![w] = Idle]
  /\ left' = left - 1
  /\ result' = Append(result, busy[w][1])
  /\ UNCHANGED <<uses, roots, queue, num, next, stopped>>
Stop ==
  /\ ~stopped /\ queue = <<>> /\ left = 0
  /\ stopped' = TRUE
  /\ UNCHANGED <<uses, roots, queue, num, next, busy, left, result>>
Next == Stop \/ \E w \in Workers : Take(w) \/ Request(w) \/ Finish(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Range(s) == {s[n] : n \in DOMAIN s}
Once == \A a, b \in DOMAIN result : result[a] = result[b] => a = b
Complete == stopped => Range(result) = Closure(uses, Range(roots))
NoOrphans == stopped => queue = <<>> /\ \A w \in Workers : busy[w] = Idle
Distinct == \A x, y \in Items : num[x] # 0 /\ num[x] = num[y] => x = y
Terminates == <>stopped

(* what one worker does: the order of requests in a FIFO traversal *)
RECURSIVE Fifo(_, _, _)
Fifo(u, q, seen) ==
  IF q = <<>> THEN seen
  ELSE LET RECURSIVE Add(_, _, _)
           Add(s, l, k) == IF k > Len(l) THEN s
                           ELSE Add(IF l[k] \in Range(s) THEN s ELSE Append(s, l[k]), l, k + 1)
           s2 == Add(seen, u[Head(q)], 1)
       IN Fifo(u, Tail(q) \o SubSeq(s2, Len(seen) + 1, Len(s2)), s2)
(* the numbers do not depend on the schedule: true of one worker only *)
Deterministic ==
  stopped => LET s == Fifo(uses, roots, roots) IN \A n \in DOMAIN s : num[s[n]] = n
=============================================================================
