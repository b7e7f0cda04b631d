CONSTANTS
  MaxParams = 3
  Annotations = {"-", "p", "m", "y"}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
