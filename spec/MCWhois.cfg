CONSTANT MaxEntities = 2
INIT Init
NEXT Next
INVARIANT Correct Sound
