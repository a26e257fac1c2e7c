SPECIFICATION Spec
CONSTANTS Top = 1
          MaxLoops = 2
          Emit = TRUE
INVARIANTS Within Optimal Longer Climbs Ordered PlanOut
CHECK_DEADLOCK FALSE
