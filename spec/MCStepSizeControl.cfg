SPECIFICATION Spec
CONSTANT Ratios <- FullRatios
INVARIANTS WithinToleranceAccepted AcceptedOnlyNearTolerance UnchangedKeeps RejectedShrinks Ceiling GrowthLimited NoSmallGrowth DecreaseLimited PredictedErrorOk
CHECK_DEADLOCK FALSE
