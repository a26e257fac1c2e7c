SPECIFICATION Spec
CONSTANTS MaxSteps = 3  Emit = TRUE
INVARIANT PlanOut
PROPERTY Once
PROPERTY Fresh
PROPERTY Isolated
PROPERTY Keeps
PROPERTY Refused
PROPERTY Answers
PROPERTY Local
CHECK_DEADLOCK FALSE
