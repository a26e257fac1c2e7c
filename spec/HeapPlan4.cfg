SPECIFICATION Spec
CONSTANTS MaxSteps = 4
 Emit = FALSE
INVARIANTS TypeOK Agree PlanOut
PROPERTIES Sep ReadOnly
CHECK_DEADLOCK FALSE
