SPECIFICATION Spec
CONSTANTS Points = {0, 1, 3, 4}
          Values = {0, 1, 3}
          Numb = 3
          Tries = 4
INVARIANTS Bounded NoLoss AllEqual
PROPERTY Terminates
CHECK_DEADLOCK FALSE
