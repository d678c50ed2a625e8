CONSTANTS N = 2
 K = 1
 KB = 1
 WMax = 3
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS NoTableBetter GreedyBest InRange Weights
