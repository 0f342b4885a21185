CONSTANTS Procs = {1, 2} MaxAsked = 4 OrderLen = 3
INIT Init
NEXT Next
INVARIANTS Determined Unchanged
