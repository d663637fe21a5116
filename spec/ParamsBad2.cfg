SPECIFICATION Spec
CONSTANTS Slip = "floor"
          Unknown = {"?0", "?9", "?-1", "?100"}
INVARIANTS Faithful ConsistentAll FreshMargin OutMargin EntryMargin GateMargin XorMargin
CHECK_DEADLOCK FALSE
