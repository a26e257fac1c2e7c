SPECIFICATION Spec
CONSTANTS MaxSteps = 5  Emit = FALSE
INVARIANT PlanOut
PROPERTY Once
PROPERTY Fresh
PROPERTY Isolated
PROPERTY Keeps
PROPERTY Refused
PROPERTY Answers
PROPERTY Local
CHECK_DEADLOCK FALSE
