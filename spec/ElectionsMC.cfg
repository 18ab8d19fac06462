SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Implied LargerQuota ByGroups EverybodyHappy Nonempty Refines Proportional ParetoOptimal Duality MonroeBothWays ScoresAdd Completed Dictators WeightsAreCopies MergingIsHarmless ScaleFree Neutral Anonymous CommitteeMonotone Unan JudgeIsExact DivisorMachine ThieleDivisor PhragmenDivisor LargestRemainders LowerQuotas MonroeParties CountedRight Joining EmptyBallots FullBallots NewCandidates SingleSeats AllSeatsTaken Supporting Losers
