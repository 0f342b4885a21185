CONSTANTS N = 6 MaxRanges = 4 EmitRanges = 3
INIT Init
NEXT Next
INVARIANTS Correct
