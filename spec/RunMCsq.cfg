SPECIFICATION Spec
CONSTANTS MaxN = 3
          MaxInt = 2
          Times = {1}
          Kind = "steps"
INVARIANTS TypeOK NoStart Setups Analysis Asked EndStep Finals RecSteps RecTimes NoRecs Consistent
CHECK_DEADLOCK FALSE
