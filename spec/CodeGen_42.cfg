SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 4
  K = 2
  MaxSteps = 7
