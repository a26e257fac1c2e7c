SPECIFICATION Spec
CONSTANTS MaxSteps = 4  Emit = TRUE
INVARIANT PlanOut
INVARIANT Fit
INVARIANT Function
INVARIANT PointWise
INVARIANT OneCall
INVARIANT BestLabel
PROPERTY Kept
PROPERTY Refuse
PROPERTY Extends
CHECK_DEADLOCK FALSE
