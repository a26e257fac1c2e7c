SPECIFICATION Spec
CONSTANTS MaxSteps = 4  Emit = TRUE
INVARIANT PlanOut
PROPERTY Inner
PROPERTY Restored
PROPERTY Reproducible
CHECK_DEADLOCK FALSE
