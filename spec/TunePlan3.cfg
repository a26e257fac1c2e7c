SPECIFICATION Spec
CONSTANTS Top = 3
          MaxLoops = 3
          Emit = FALSE
INVARIANTS Within Optimal Longer Climbs Ordered PlanOut
CHECK_DEADLOCK FALSE
