SPECIFICATION Spec
CONSTANTS Procs = {1, 2}
          Sels = {1, 2}
          MaxCrash = 1
          MaxDamage = 1
INVARIANTS Transparent
           NeverTorn
           Kept
CHECK_DEADLOCK FALSE
