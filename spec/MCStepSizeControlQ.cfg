SPECIFICATION Spec
CONSTANT Ratios <- QuickRatios
INVARIANTS WithinToleranceAccepted AcceptedOnlyNearTolerance UnchangedKeeps RejectedShrinks Ceiling GrowthLimited NoSmallGrowth DecreaseLimited PredictedErrorOk
CHECK_DEADLOCK FALSE
