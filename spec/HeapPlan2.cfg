SPECIFICATION Spec
CONSTANTS MaxSteps = 2
 Emit = TRUE
INVARIANTS TypeOK Agree PlanOut
PROPERTIES Sep ReadOnly
CHECK_DEADLOCK FALSE
