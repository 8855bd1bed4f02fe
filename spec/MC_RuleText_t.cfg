SPECIFICATION Spec
CONSTANTS MaxLen = 5
          Prefixes = {"args", "body", "alts"}
INVARIANTS SpaceIsNothing
           Compositional
CHECK_DEADLOCK FALSE
