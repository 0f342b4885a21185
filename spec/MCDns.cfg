CONSTANTS MaxLabels = 3 MaxEntries = 2 QueryLabels = 3
INIT Init
NEXT Next
INVARIANTS Correct Sound
PROPERTY Progress
