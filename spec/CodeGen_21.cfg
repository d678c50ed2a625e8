SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 2
  K = 1
  MaxSteps = 7
