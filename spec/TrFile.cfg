INIT TInit
NEXT TNext
POSTCONDITION Consumed
CONSTANT BadURLs = {"http://[::1", "%zz", "http://a b/", ":x", " https://x/"}
