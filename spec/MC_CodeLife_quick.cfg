SPECIFICATION Spec
CONSTANTS N = 2
          K = 1
          MaxSteps = 1
INVARIANTS TypeOK TableauOK EncodeCorrect SyndromeCorrect UndetectableIffNormalizer StabilizerTrivial LogicalBits DecodeCorrect
PROPERTIES MeasureRepeatable MeasureGentle
CHECK_DEADLOCK FALSE
