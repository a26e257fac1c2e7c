SPECIFICATION Spec
CONSTANTS MaxSteps = 6  Emit = FALSE
INVARIANT PlanOut
INVARIANT Sessions
INVARIANT ShowAll
INVARIANT ShowLast
INVARIANT ShowSessions
PROPERTY AppendOnly
PROPERTY OneSession
PROPERTY Silent
CHECK_DEADLOCK FALSE
