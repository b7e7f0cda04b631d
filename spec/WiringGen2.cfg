CONSTANTS
  MaxParams = 2
  Annotations = {"-", "p", "m", "x", "y", "h", "v"}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
