SPECIFICATION Spec
CONSTANTS MaxN = 4
          MaxInt = 3
          Times = {1}
          Kind = "steps"
INVARIANTS TypeOK NoStart Setups Analysis Asked EndStep Finals RecSteps RecTimes NoRecs Consistent
CHECK_DEADLOCK FALSE
