CONSTANTS W = 3 MaxNets = 4 EmitNets = 3 Offs4 = {0, 13, 29} Offs6 = {0, 62, 125}
INIT Init
NEXT Next
INVARIANTS Correct Sound
