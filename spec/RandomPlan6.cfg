SPECIFICATION Spec
CONSTANTS MaxSteps = 6  Emit = FALSE
INVARIANT PlanOut
PROPERTY Inner
PROPERTY Restored
PROPERTY Reproducible
CHECK_DEADLOCK FALSE
