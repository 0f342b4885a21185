CONSTANT MaxEntities = 3
INIT Init
NEXT Next
INVARIANT Correct Sound
