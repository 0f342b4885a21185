CONSTANTS MaxLen = 4 MaxTags = 2
INIT Init
NEXT Next
INVARIANTS Correct
