CONSTANT Subs = {32, 34, 44, 48, 58, 91, 92, 93, 123, 125, 101, 46, 45, 0, 255}
INIT Init
NEXT Next
INVARIANT RoundTrip NoPrefix
