INIT Init
NEXT Next
INVARIANT Claim
PROPERTY Kept
CHECK_DEADLOCK FALSE
