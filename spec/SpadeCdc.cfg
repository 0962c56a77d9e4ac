SPECIFICATION Spec
CONSTANT Settle = 8
CHECK_DEADLOCK FALSE
