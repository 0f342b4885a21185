INIT Init
NEXT Next
INVARIANT Correct Flat
