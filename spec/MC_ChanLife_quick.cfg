SPECIFICATION Spec
CONSTANTS MaxConcat = 1
          MaxUpdates = 2
          MaxN = 3
          MaxDim = 4
          MaxKraus = 6
INVARIANTS HistoryFree TracePreserving Quantum
CHECK_DEADLOCK FALSE
