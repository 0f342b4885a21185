------------------------------ MODULE UrlText -------------------------------
(* URLs as a server (or any RFC 3986 consumer) takes them apart.              *)
EXTENDS Text
PCT == 37
\* percent decoding; plus: in query strings '+' stands for a space
RECURSIVE Unescape(_, _)
Unescape(s, plus) ==
    IF s = <<>> THEN <<>>
    ELSE IF s[1] = PCT /\ Len(s) >= 3 /\ IsHex(s[2]) /\ IsHex(s[3])
    THEN <<HexVal(s[2]) * 16 + HexVal(s[3])>> \o Unescape(From(s, 4), plus)
    ELSE <<IF plus /\ s[1] = 43 THEN 32 ELSE s[1]>> \o Unescape(Tail(s), plus)

RECURSIVE FirstOf(_, _, _)
FirstOf(s, B, i) == IF i > Len(s) THEN 0 ELSE IF s[i] \in B THEN i ELSE FirstOf(s, B, i + 1)
Before(s, i) == IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1)
After(s, i) == IF i = 0 THEN <<>> ELSE From(s, i + 1)

\* name=value pairs in order
Pairs(q) == IF q = <<>> THEN <<>> ELSE
    LET p == SelectSeq(Split(q, 38), LAMBDA x : x # <<>>) IN
    [i \in DOMAIN p |-> LET e == IndexOf(p[i], 61) IN <<Unescape(Before(p[i], e), TRUE), Unescape(After(p[i], e), TRUE)>>]
Names(ps) == {ps[i][1] : i \in DOMAIN ps}
Values(ps, n) == LET m == SelectSeq(ps, LAMBDA x : x[1] = n) IN [i \in DOMAIN m |-> m[i][2]]
Params(ps) == [n \in Names(ps) |-> Values(ps, n)]

\* scheme://authority, path segments (decoded), parameters, fragment
ParseUrl(u) ==
    LET h == FirstOf(u, {35}, 1)
        frag == After(u, h)
        r == Before(u, h)
        k == FirstOf(r, {63}, 1)
        q == After(r, k)
        b == Before(r, k)
        sl == CHOOSE i \in DOMAIN b : b[i] = 58 /\ \A j \in 1..(i - 1) : b[j] # 58     \* end of the scheme
        p == FirstOf(b, {47}, sl + 3)                                                  \* behind "://"
        path == IF p = 0 THEN <<>> ELSE From(b, p)
        segs == Split(path, 47)
    IN [base |-> Before(b, p), path |-> path, segs |-> [i \in DOMAIN segs |-> Unescape(segs[i], FALSE)],
        params |-> Params(Pairs(q)), frag |-> Unescape(frag, FALSE)]
HasScheme(u) == \E i \in 1..(Len(u) - 2) : u[i] = 58 /\ u[i + 1] = 47 /\ u[i + 2] = 47
=============================================================================
