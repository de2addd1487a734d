SPECIFICATION Spec
CONSTANT Obs <- VObs
CHECK_DEADLOCK FALSE
