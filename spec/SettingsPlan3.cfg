SPECIFICATION Spec
CONSTANTS MaxSteps = 3  Emit = TRUE
INVARIANT PlanOut
PROPERTY SavedOnlyBySave
PROPERTY ReadOnly
PROPERTY Restart
PROPERTY Grows
PROPERTY Announced
CHECK_DEADLOCK FALSE
