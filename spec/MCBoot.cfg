CONSTANTS Family = "fresh-disk" Depth = 6 MaxVer = 3 MaxTick = 3
INIT Init
NEXT Next
VIEW View
INVARIANT Refines
PROPERTY NeverStale
