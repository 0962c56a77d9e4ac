----------------------------- MODULE DetTrace ------------------------------
(* Compilation as a function of the sources: every observation of a        *)
(* compilation of the same job (in other processes, after other jobs, with *)
(* other numbers of threads) has to be the one remembered.                 *)
(* An observation has the digests of the outputs: `ex' exact, `ca' up to a *)
(* consistent change of the numbers in generated names; "-" is not seen.   *)
(* For jobs made from a graph of generic units the instances in the output *)
(* are counted, too: they have to be those which the roots need.           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Runs == JsonDeserialize(IOEnv.TRACE_FILE)
N == Len(Runs)
VARIABLES rid, n, seq, can
vars == <<rid, n, seq, can>>
K == {"sv", "mir", "items", "diags", "ok"}
None == [k \in K |-> "-"]
Agree(a, b) == \A k \in K : a[k] = "-" \/ b[k] = "-" \/ a[k] = b[k]
Merge(a, b) == [k \in K |-> IF a[k] = "-" THEN b[k] ELSE a[k]]
Differ(a, b) == {k \in K : a[k] # "-" /\ b[k] # "-" /\ a[k] # b[k]}
Reject(what, s) == PrintT("REJECT " \o ToJson(<<Runs[rid].id, n + 1, what, s>>))

(* instances: <<unit, type>>; a use is <<unit, how>> where how makes the   *)
(* argument's type from the user's                                         *)
TypeOf(how, t) == IF how = "same" THEN t ELSE IF how = "pair" THEN "(" \o t \o "," \o t \o ")" ELSE how
RECURSIVE Reach(_, _)
Reach(g, S) ==
  LET T == S \cup UNION {{<<g[i[1]][m][1], TypeOf(g[i[1]][m][2], i[2])>> : m \in DOMAIN g[i[1]]} : i \in S} IN
  IF T = S THEN S ELSE Reach(g, T)
Instances(r) == Reach(r.graph, {<<r.roots[m][1], r.roots[m][2]>> : m \in DOMAIN r.roots})
Counts(r) ==
  LET S == Instances(r) IN [u \in DOMAIN r.graph |-> Cardinality({i \in S : i[1] = u})]

Init == rid \in 1..N /\ n = 0 /\ seq = None /\ can = None
Next ==
  LET r == Runs[rid] IN
  /\ n < Len(r.obs)
  /\ n' = n + 1
  /\ UNCHANGED rid
  /\ LET o == r.obs[n + 1] IN
     /\ IF Agree(can, o.ca) THEN TRUE ELSE Reject("structure", Differ(can, o.ca))
     /\ can' = Merge(can, o.ca)
     /\ IF Agree(seq, o.ex) THEN TRUE
        ELSE IF o.threads = 1 THEN Reject("sequential", Differ(seq, o.ex))
        ELSE IF Agree(can, o.ca) THEN Reject("numbers", Differ(seq, o.ex)) ELSE TRUE
     /\ seq' = IF o.threads = 1 THEN Merge(seq, o.ex) ELSE seq
     /\ IF "graph" \in DOMAIN r /\ "counts" \in DOMAIN o /\ o.counts # Counts(r) THEN Reject("instances", Counts(r)) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
