CONSTANTS MaxServices = 2 BadURLs <- Bad
INIT Init
NEXT Next
INVARIANTS Correct
