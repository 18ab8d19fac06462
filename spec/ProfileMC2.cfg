SPECIFICATION Spec
CONSTANTS MaxVoters = 2
          MaxTotal = 4
          M = 2
INVARIANTS Sane ConversionsAgree Steps Monitored QueriesMatter
CHECK_DEADLOCK FALSE
