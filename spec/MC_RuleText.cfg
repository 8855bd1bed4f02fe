SPECIFICATION Spec
CONSTANTS MaxLen = 3
          Prefixes = {"none", "args", "body", "group", "next", "alts", "list"}
INVARIANTS SpaceIsNothing
           Compositional
CHECK_DEADLOCK FALSE
