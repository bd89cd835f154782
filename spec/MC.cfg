CONSTANTS
  Batch = 100
  Fuel = 400000
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
