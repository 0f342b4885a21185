CONSTANTS Procs = {1, 2, 3} MaxAsked = 5 OrderLen = 4
INIT Init
NEXT Next
INVARIANTS Determined Unchanged
