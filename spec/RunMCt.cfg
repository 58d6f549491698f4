SPECIFICATION Spec
CONSTANTS MaxN = 4
          MaxInt = 4
          Times = {1, 2, 5}
          Kind = "times"
INVARIANTS TypeOK NoStart Setups Analysis Asked EndStep Finals RecSteps RecTimes NoRecs Consistent
CHECK_DEADLOCK FALSE
