INIT Init
NEXT Next
INVARIANT Claim
CHECK_DEADLOCK FALSE
