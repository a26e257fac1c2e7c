SPECIFICATION Spec
CONSTANTS MaxSteps = 4  Emit = TRUE
INVARIANT PlanOut
INVARIANT Sessions
INVARIANT ShowAll
INVARIANT ShowLast
INVARIANT ShowSessions
PROPERTY AppendOnly
PROPERTY OneSession
PROPERTY Silent
CHECK_DEADLOCK FALSE
