SPECIFICATION Spec
CONSTANTS MaxSteps = 3
 Emit = TRUE
INVARIANTS TypeOK Agree PlanOut
PROPERTIES Sep ReadOnly
CHECK_DEADLOCK FALSE
