CONSTANTS MaxLabels = 3 MaxEntries = 3 QueryLabels = 3
INIT Init
NEXT Next
INVARIANTS Correct Sound
