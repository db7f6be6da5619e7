INIT Init
NEXT Next
INVARIANT Claim
