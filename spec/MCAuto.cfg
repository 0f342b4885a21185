CONSTANT MaxLen = 5
INIT Init
NEXT Next
INVARIANTS Correct Disjoint
