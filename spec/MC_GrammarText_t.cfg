SPECIFICATION Spec
CONSTANTS MaxLen = 5
          Prefixes = {"args", "rhs"}
INVARIANTS SpaceIsNothing
           WriteExtendsRead
           Compositional
           WellMade
CHECK_DEADLOCK FALSE
