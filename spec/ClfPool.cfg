INIT Init
NEXT Next
INVARIANT InPlace
INVARIANT Result
INVARIANT Never
