SPECIFICATION Spec
CONSTANTS Param = "cholesky"
          N = 3
          Rank = 3
          Mag = 1
          Hi = 1
INVARIANTS Valid RankOK Recover Standard
CHECK_DEADLOCK FALSE
