SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 3
  K = 0
  MaxSteps = 7
