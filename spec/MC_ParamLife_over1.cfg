SPECIFICATION Spec
CONSTANTS Param = "overparam"
          N = 3
          Rank = 1
          Mag = 1
          Hi = 1
INVARIANTS Valid RankOK Recover Standard
CHECK_DEADLOCK FALSE
