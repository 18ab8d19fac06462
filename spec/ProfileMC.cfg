SPECIFICATION Spec
CONSTANTS MaxVoters = 2
          MaxTotal = 3
          M = 1
INVARIANTS Sane ConversionsAgree Steps Monitored QueriesMatter
CHECK_DEADLOCK FALSE
