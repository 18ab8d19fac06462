SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Typed NeverStuck BestIsOpen ResoluteIsPossible PhragmenLoads EqualSharesBudgets EqualSharesPayments EnestroemBudgets MonroeDistricts CommitteeSize ProportionalPJR ProportionalEJR GreedyCCisJR GreedyMonroeIsJR SeqAVisAV Unanimity OutcomesAgree
PROPERTIES OneAtATime ThieleTelescopes RevThieleTelescopes LoadsGrow BuyersCarryMost PricesGrow EnestroemPrice ConsensusPays SupportShrinks Terminates
