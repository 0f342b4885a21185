CONSTANT MCTypes = {"Link", "Event", "KeyData", "SecureDNS", "Error"}
INIT Init
NEXT Next
INVARIANT Decoded
PROPERTY Stable
