------------------------------ MODULE NetTrace ------------------------------
(* Emitted netlists, each of which must break no rule of SpadeNet.  One    *)
(* state per module, file or unit.                                         *)
EXTENDS SpadeNet, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
Recs == Data.recs
VARIABLES i, done

Bad(r) ==
  CASE r.k = "module" -> Faults(r.m, r.iface)
    [] r.k = "file" -> LET n == {r.names[k] : k \in DOMAIN r.names} IN
         If1(Cardinality(n) # Len(r.names),
             <<"two modules of one name", ToString({r.names[k] : k \in {j \in DOMAIN r.names : \E h \in DOMAIN r.names : h < j /\ r.names[h] = r.names[j]}})>>)
         \cup {<<"no module for the unit", r.units[k]>> : k \in {j \in DOMAIN r.units : r.units[j] \notin n}}
    [] r.k = "unit" -> PortFaults(r.u, r.p, r.ports)

Init == i \in 1..Len(Recs) /\ done = FALSE
Next == /\ ~done
        /\ LET x == Bad(Recs[i]) IN
           IF x = {} THEN TRUE ELSE PrintT("REJECT " \o ToJson(<<Recs[i].id, x>>))
        /\ done' = TRUE /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
