CONSTANTS ObjDepth = 2 OptSet = "all"
INIT Init
NEXT Next
INVARIANT Final
