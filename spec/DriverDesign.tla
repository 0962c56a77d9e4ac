--------------------------- MODULE DriverDesign ---------------------------
(* SpadeDriver over all jobs of a small size *)
EXTENDS SpadeDriver
CONSTANTS U, O, Kinds
Jobs == [units : [U -> [ph : {"none", "parse", "global", "lower", "late"}]],
         fail : SUBSET {"options", "read"},
         outs : [O -> [req : BOOLEAN, before : Kinds]]]
Init == \E j \in Jobs : Start(j)
Spec == Init /\ [][Step]_dvars
=============================================================================
