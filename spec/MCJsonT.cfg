CONSTANT Subs = {0, 8, 9, 10, 13, 31, 32, 33, 34, 39, 43, 44, 45, 46, 47, 48, 49, 58, 69, 91, 92, 93, 97, 101, 110, 117, 123, 125, 127, 128, 195, 255}
INIT Init
NEXT Next
INVARIANT RoundTrip NoPrefix
