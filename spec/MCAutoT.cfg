CONSTANT MaxLen = 6
INIT Init
NEXT Next
INVARIANTS Correct Disjoint
