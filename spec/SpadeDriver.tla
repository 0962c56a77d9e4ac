---------------------------- MODULE SpadeDriver ----------------------------
(* The compiler as a process: it reads options and files, runs its phases  *)
(* over units of which each may carry one fault, and writes the requested  *)
(* outputs.                                                                *)
(*                                                                         *)
(* A job:  units  function from unit names to [ph, file]; ph is the phase  *)
(*                in which the unit's fault is found, or "none"            *)
(*         fail   subset of {"options", "read"}                            *)
(*         outs   function from outputs to [req, before, hw]; `before' is  *)
(*                what is at the path: "absent", "old", or one of Broken   *)
(*                (the path cannot be written)                             *)
EXTENDS Naturals, FiniteSets, Sequences
VARIABLES job, pc, failed, said, out
dvars == <<job, pc, failed, said, out>>

Phases == <<"options", "read", "parse", "global", "lower", "late", "write">>
Last == Len(Phases)
Units(j) == DOMAIN j.units
Outs(j) == DOMAIN j.outs
Broken == {"dir", "nodir", "full"}
Faulty(j) == {u \in Units(j) : j.units[u].ph # "none"}
FaultsAt(j, p) == {u \in Units(j) : j.units[u].ph = p}
Pos(p) == CHOOSE n \in 1..Last : Phases[n] = p
EarlierThan(j, n) == {u \in Faulty(j) : Pos(j.units[u].ph) < n}

(* phases after which the rest is not attempted when they find a fault *)
Fatal == {"options", "read", "global", "lower"}
(* after the phase n the job is given up *)
Stopped(j, n) ==
  \E m \in 1..n : Phases[m] \in Fatal /\ (Phases[m] \in j.fail \/ FaultsAt(j, Phases[m]) # {})

(* The sets of units about which phase n may complain.  A fault in one     *)
(* unit does not hide the faults of other units in the same phase; only    *)
(* declarations are given up at the first fault, because what follows      *)
(* depends on all of them.  What is found after an earlier fault is left   *)
(* open, except that the parser always reads everything.                   *)
Complaints(j, n) ==
  LET F == FaultsAt(j, Phases[n])
      may == IF FaultsAt(j, "parse") # {} /\ n >= Pos("parse") THEN Units(j) ELSE F IN
  IF Phases[n] \in {"options", "read"} THEN {{}}
  ELSE IF Stopped(j, n - 1) THEN SUBSET F
  ELSE IF Phases[n] = "write" THEN {{}}
  ELSE IF Phases[n] = "parse" THEN {D \in SUBSET may : F \subseteq D}
  ELSE IF F = {} \/ EarlierThan(j, n) # {} THEN SUBSET may
  ELSE IF Phases[n] = "global" THEN SUBSET F \ {{}}
  ELSE {F}

Before(j) == [o \in Outs(j) |-> j.outs[o].before]
Start(j) == job = j /\ pc = 0 /\ failed = FALSE /\ said = {} /\ out = Before(j)

(* what is at the path of an output after a successful compilation *)
Writable(j) == {o \in Outs(j) : j.outs[o].req /\ j.outs[o].before \notin Broken}
WriteFails(j) == \E o \in Outs(j) : j.outs[o].req /\ j.outs[o].before \in Broken
Written(j) == [o \in Outs(j) |-> IF o \in Writable(j) THEN "new" ELSE j.outs[o].before]

Phase(D) ==
  LET n == pc + 1
      p == Phases[n] IN
  /\ pc < Last
  /\ pc' = n
  /\ UNCHANGED job
  /\ said' = said \cup D
  /\ IF p = "write"
     THEN IF failed
          THEN UNCHANGED <<failed, out>>
          ELSE out' = Written(job) /\ failed' = WriteFails(job)
     ELSE /\ UNCHANGED out
          /\ failed' = (failed \/ D # {} \/ p \in job.fail \/ FaultsAt(job, p) # {})
Step == pc < Last /\ \E D \in Complaints(job, pc + 1) : Phase(D)

Exit == IF failed THEN 1 ELSE 0
Ended == pc = Last
(* an output may be observed in the states: with a failing write, the others may or may not have been written *)
MayBe(o) ==
  IF Ended /\ failed /\ Faulty(job) = {} /\ job.fail = {} /\ o \in Writable(job)
  THEN {job.outs[o].before, "new"} ELSE {out[o]}

---------------------------------------------------------------------------
(* the property *)
Bad == Faulty(job) # {} \/ job.fail # {}
NoFalseSuccess == Ended /\ (Bad \/ WriteFails(job)) => Exit = 1
NoFalseFailure == Ended /\ ~Bad /\ ~WriteFails(job) => Exit = 0 /\ \A o \in Writable(job) : out[o] = "new"
Untouched == Bad => \A o \in Outs(job) : out[o] = job.outs[o].before
Explained == Ended /\ Faulty(job) # {} /\ job.fail = {} => said # {}
Blame == FaultsAt(job, "parse") = {} => said \subseteq Faulty(job)
SamePhase ==
  Ended /\ job.fail = {} =>
    \A p \in {"parse", "lower", "late"} :
      EarlierThan(job, Pos(p)) = {} => FaultsAt(job, p) \subseteq said
=============================================================================
