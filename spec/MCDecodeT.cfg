CONSTANT MCTypes = {"Link", "Event", "KeyData", "SecureDNS", "Error", "DSData", "Domain", "Entity", "Autnum", "IPNetwork", "Nameserver", "Help", "Notice"}
INIT Init
NEXT Next
INVARIANT Decoded
PROPERTY Stable
