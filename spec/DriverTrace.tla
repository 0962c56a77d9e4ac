--------------------------- MODULE DriverTrace ----------------------------
(* Recorded runs of the compiler's command line against SpadeDriver: every *)
(* run must be a behaviour of the driver with what was observed.           *)
EXTENDS SpadeDriver, TLC, Json, IOUtils
Runs == JsonDeserialize(IOEnv.TRACE_FILE)
N == Len(Runs)
VARIABLES rid
vars == <<dvars, rid>>
Set(s) == {s[n] : n \in DOMAIN s}
JobOf(r) == [units |-> r.units, fail |-> Set(r.fail), outs |-> r.outs]

Init == \E k \in 1..N : rid = k /\ Start(JobOf(Runs[k]))

(* the complaints of this phase that were seen *)
Seen(n) == Set(Runs[rid].said) \cap FaultsAt(job, Phases[n])
(* complaints about units without a fault, attributed to the parser *)
Stray == Set(Runs[rid].said) \ Faulty(job)
Observed(n) == IF Phases[n] = "parse" THEN Seen(n) \cup Stray ELSE Seen(n)

Reject(why) == PrintT("REJECT " \o ToJson(<<Runs[rid].id, why>>))
Names(r, o) == Set(r.outs[o].names)
Fine(r) ==
  /\ IF Exit' = r.exit THEN TRUE ELSE Reject("exit status " \o ToString(r.exit) \o " instead of " \o ToString(Exit'))
  /\ IF Exit' = 1 /\ r.quiet THEN Reject("no message") ELSE TRUE
  /\ \A o \in DOMAIN r.outs :
       IF r.outs[o].after \in MayBe(o)' THEN TRUE
       ELSE Reject("output " \o o \o " is " \o r.outs[o].after \o " instead of " \o out'[o])
  /\ \A o \in DOMAIN r.outs :
       IF r.outs[o].after = "new" /\ ~(Set(r.expect) \subseteq Names(r, o))
       THEN Reject("output " \o o \o " lacks units") ELSE TRUE
Next ==
  /\ pc < Last
  /\ UNCHANGED rid
  /\ Phase(Observed(pc + 1))
  /\ IF Observed(pc + 1) \in Complaints(job, pc + 1) THEN TRUE
     ELSE Reject("diagnostics of phase " \o Phases[pc + 1] \o ": " \o ToString(Observed(pc + 1))
                 \o " instead of one of " \o ToString(Complaints(job, pc + 1)))
  /\ IF pc' = Last THEN Fine(Runs[rid]) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
