INIT TInit
NEXT TNext
POSTCONDITION Consumed
