CONSTANTS ObjDepth = 1 OptSet = "few"
INIT Init
NEXT Next
INVARIANT Final
