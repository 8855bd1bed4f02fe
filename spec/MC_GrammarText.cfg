SPECIFICATION Spec
CONSTANTS MaxLen = 3
          Prefixes = {"none", "args", "rhs", "word", "atom", "opt"}
INVARIANTS SpaceIsNothing
           WriteExtendsRead
           Compositional
           WellMade
CHECK_DEADLOCK FALSE
