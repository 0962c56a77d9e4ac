SPECIFICATION Spec
CONSTANTS
  U = {u1, u2, u3}
  O = {o1, o2}
  Kinds = {"absent", "old", "dir"}
INVARIANTS NoFalseSuccess NoFalseFailure Untouched Explained Blame SamePhase
CHECK_DEADLOCK FALSE
