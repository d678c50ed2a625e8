SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 3
  K = 1
  MaxSteps = 7
