SPECIFICATION Spec
CONSTANTS
  Items <- I
  Graphs <- G
  Workers <- W2
INVARIANTS Once Complete NoOrphans Distinct
PROPERTY Terminates
CHECK_DEADLOCK FALSE
