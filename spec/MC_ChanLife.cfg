SPECIFICATION Spec
CONSTANTS MaxConcat = 2
          MaxUpdates = 3
          MaxN = 3
          MaxDim = 4
          MaxKraus = 6
INVARIANTS HistoryFree TracePreserving Quantum
CHECK_DEADLOCK FALSE
