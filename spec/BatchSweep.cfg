SPECIFICATION Spec
CONSTANTS Classes = 7
          Extra <- ExtraDef
INVARIANT Emit
CHECK_DEADLOCK FALSE
