----------------------------- MODULE RdapDecode -----------------------------
(* Decoding an RDAP response: its object type, what every member becomes,     *)
(* what is noted, and what stays retrievable.                                 *)
EXTENDS RdapSchema, JCard
\* ---- object type of a document
ClassType == [autnum |-> "Autnum", domain |-> "Domain", entity |-> "Entity", nameserver |-> "Nameserver"]
TypeOf(ms) ==
    LET N == MemberNames(ms) IN
    IF "errorCode" \in N THEN "Error"
    ELSE IF "objectClassName" \in N THEN
        LET v == LastOf(ms, "objectClassName") IN
        IF v = <<"s", "ip network">> THEN "IPNetwork" ELSE IF v[1] = "s" /\ v[2] \in DOMAIN ClassType THEN ClassType[v[2]] ELSE "error"
    ELSE IF "domainSearchResults" \in N THEN "DomainSearchResults"
    ELSE IF "entitySearchResults" \in N THEN "EntitySearchResults"
    ELSE IF "nameserverSearchResults" \in N THEN "NameserverSearchResults"
    ELSE "Help"
DocType(doc) == IF doc[1] = "o" THEN TypeOf(doc[2]) ELSE IF doc[1] = "z" THEN "Help" ELSE "error"

\* ---- scalars: [set, val, note]; note: "no", "yes" or "any"
True1 == {"1", "t", "T", "TRUE", "true", "True"}
False1 == {"0", "f", "F", "FALSE", "false", "False"}
Res(set, val, note) == [set |-> set, val |-> val, note |-> note]
DecStr(v) == CASE v[1] = "s" -> Res(TRUE, v[2], "no") [] v[1] \in {"z", "b", "n"} -> Res(TRUE, ScalarText(v), "yes") [] OTHER -> Res(FALSE, "", "yes")
DecBool(v) == CASE v[1] = "b" -> Res(TRUE, v[2], "no")
    [] v[1] = "n" -> Res(TRUE, ~IsZero(Num(v[2])), "yes")
    [] v[1] = "z" -> Res(TRUE, FALSE, "yes")
    [] v[1] = "s" /\ v[2] \in True1 \cup False1 -> Res(TRUE, v[2] \in True1, "yes")
    [] OTHER -> Res(FALSE, FALSE, "yes")
UintIn(d, max, note) == IF NumStrLE(NoLead(d), max) THEN Res(TRUE, NoLead(d), note) ELSE Res(FALSE, "0", "yes")
DecUint(v, max) == CASE v[1] = "n" -> LET n == Num(v[2]) IN IF n.neg /\ n.int # "0" THEN Res(FALSE, "0", "yes") ELSE UintIn(n.int, max, "any")
    [] v[1] = "b" -> Res(TRUE, IF v[2] THEN "1" ELSE "0", "yes")
    [] v[1] = "z" -> Res(TRUE, "0", "yes")
    [] v[1] = "s" /\ AllDigits(v[2]) -> UintIn(v[2], max, "yes")
    [] OTHER -> Res(FALSE, "0", "yes")

\* ---- one member: what its Go field holds ("none" if unset or empty) and its notes
SelIs(vs, k) == SelectSeq(vs, LAMBDA x : x[1] = k)
StrsOf(v) == LET q == SelectSeq(v[2], LAMBDA x : DecStr(x).set) IN [i \in DOMAIN q |-> DecStr(q[i]).val]
Field(kind, v) ==
    CASE kind[1] = "str" -> LET d == DecStr(v) IN IF d.set /\ d.val # "" THEN <<"s", d.val>> ELSE <<"none">>
      [] kind[1] = "bool" -> LET d == DecBool(v) IN IF d.set THEN <<"b", d.val>> ELSE <<"none">>
      [] kind[1] = "uint" -> LET d == DecUint(v, kind[2]) IN IF d.set THEN <<"u", d.val>> ELSE <<"none">>
      [] kind[1] = "strs" -> IF v[1] = "a" /\ StrsOf(v) # <<>> THEN <<"ss", StrsOf(v)>> ELSE <<"none">>
      [] kind[1] = "obj" -> IF v[1] = "o" THEN <<"o", kind[2]>> ELSE <<"none">>
      [] kind[1] = "objs" -> IF v[1] = "a" /\ SelIs(v[2], "o") # <<>> THEN <<"os", kind[2], Len(SelIs(v[2], "o"))>> ELSE <<"none">>
      [] kind[1] = "vcard" -> IF ValidCard(v, FALSE) THEN <<"vc">> ELSE <<"none">>
\* fewest notes, and whether more may be
B01(b) == IF b THEN 1 ELSE 0
CountNotes(vs, P(_)) == Len(SelectSeq(vs, P))
Notes(kind, v) ==
    CASE kind[1] = "str" -> [min |-> B01(DecStr(v).note = "yes"), any |-> FALSE]
      [] kind[1] = "bool" -> [min |-> B01(DecBool(v).note = "yes"), any |-> FALSE]
      [] kind[1] = "uint" -> LET d == DecUint(v, kind[2]) IN [min |-> B01(d.note = "yes"), any |-> d.note = "any"]
      [] kind[1] = "strs" -> [min |-> IF v[1] # "a" THEN 1 ELSE CountNotes(v[2], LAMBDA x : DecStr(x).note = "yes"), any |-> FALSE]
      [] kind[1] = "obj" -> [min |-> B01(v[1] # "o"), any |-> FALSE]
      [] kind[1] = "objs" -> [min |-> IF v[1] # "a" THEN 1 ELSE CountNotes(v[2], LAMBDA x : x[1] # "o"), any |-> FALSE]
      [] kind[1] = "vcard" -> [min |-> B01(~ValidCard(v, FALSE)), any |-> FALSE]
NotesOk(n, count) == count >= n.min /\ (n.min = 0 /\ ~n.any => count = 0)

\* ---- one object, as observed: [t, f, d]; d: [fields, unknown, values, notes]
Shape(val) == CASE val[1] = "o" -> <<"o", val[2].t>> [] val[1] = "os" -> <<"os", val[2][1].t, Len(val[2])>> [] val[1] = "vc" -> <<"vc">> [] OTHER -> val
NoteCount(d, n) == IF n \in MemberNames(d.notes) THEN LastOf(d.notes, n) ELSE 0
FieldsOk(t, ms, o) ==
    LET N == MemberNames(ms) \cap DOMAIN Schema[t]
        E == {n \in N : Field(Schema[t][n][2], LastOf(ms, n))[1] # "none"} IN
    /\ o.t = t
    /\ DOMAIN o.f = {Schema[t][n][1] : n \in E}
    /\ \A n \in E : Shape(o.f[Schema[t][n][1]]) = Field(Schema[t][n][2], LastOf(ms, n))
    /\ \A n \in N : NotesOk(Notes(Schema[t][n][2], LastOf(ms, n)), NoteCount(o.d, n))
    /\ MemberNames(o.d.notes) \subseteq N
ListIs(s, S) == Len(s) = Cardinality(S) /\ {s[i] : i \in DOMAIN s} = S
DataOk(t, ms, o) ==
    LET N == MemberNames(ms) IN
    /\ ListIs(o.d.fields, N) /\ ListIs(o.d.unknown, N \ DOMAIN Schema[t])
    /\ MemberNames(o.d.values) = N /\ \A n \in N : Same(LastOf(ms, n), LastOf(o.d.values, n))
CardFieldOk(t, ms, o) == "vcardArray" \in MemberNames(ms) /\ t = "Entity" =>
    LET v == LastOf(ms, "vcardArray") IN
    IF ValidCard(v, FALSE) THEN "VCard" \in DOMAIN o.f /\ CardOk(v, o.f["VCard"][2])
    ELSE "VCard" \notin DOMAIN o.f /\ NoteCount(o.d, "vcardArray") > 0

\* ---- the nested objects of an object: <<type, members, observed>>
Nested(t, ms, o) ==
    UNION {LET k == Schema[t][n][2]
               g == Schema[t][n][1]
               v == LastOf(ms, n) IN
           IF k[1] = "obj" /\ v[1] = "o" /\ g \in DOMAIN o.f THEN {<<k[2], v[2], o.f[g][2]>>}
           ELSE IF k[1] = "objs" /\ v[1] = "a" /\ g \in DOMAIN o.f THEN
                LET q == SelIs(v[2], "o") IN {<<k[2], q[i][2], o.f[g][2][i]>> : i \in DOMAIN q \cap DOMAIN o.f[g][2]}
           ELSE {} : n \in MemberNames(ms) \cap DOMAIN Schema[t]}
RECURSIVE Everywhere(_, _, _, _)
Everywhere(view, t, ms, o) ==
    /\ CASE view = "fields" -> FieldsOk(t, ms, o) [] view = "data" -> DataOk(t, ms, o) [] view = "cards" -> CardFieldOk(t, ms, o)
    /\ \A x \in Nested(t, ms, o) : Everywhere(view, x[1], x[2], x[3])
Members(doc) == IF doc[1] = "o" THEN doc[2] ELSE <<>>
=============================================================================
