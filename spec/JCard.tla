------------------------------- MODULE JCard --------------------------------
(* jCards (RFC 7095) as JSON trees, what they decode to, and the accessors.   *)
(* JSON tree: <<"z">> null, <<"b", bool>>, <<"n", literal>>, <<"s", text>>,   *)
(* <<"a", elements>>, <<"o", <<name, tree>> members>>.                        *)
EXTENDS Str
Scalar(v) == v[1] \in {"z", "b", "n", "s"}
LastOf(ms, n) == ms[CHOOSE i \in DOMAIN ms : ms[i][1] = n /\ \A j \in DOMAIN ms : ms[j][1] = n => j <= i][2]
MemberNames(ms) == {ms[i][1] : i \in DOMAIN ms}

\* same JSON value (numbers by value, members in any order, the last one of a name counts)
RECURSIVE Same(_, _)
Same(a, b) ==
    /\ a[1] = b[1]
    /\ CASE a[1] = "z" -> TRUE
         [] a[1] \in {"b", "s"} -> a[2] = b[2]
         [] a[1] = "n" -> NumText(a[2]) = NumText(b[2])
         [] a[1] = "a" -> Len(a[2]) = Len(b[2]) /\ \A i \in DOMAIN a[2] : Same(a[2][i], b[2][i])
         [] a[1] = "o" -> MemberNames(a[2]) = MemberNames(b[2]) /\ \A n \in MemberNames(a[2]) : Same(LastOf(a[2], n), LastOf(b[2], n))

\* levels of array nesting, 99 if there is an object anywhere
RECURSIVE Depth(_)
Depth(v) == IF Scalar(v) THEN 0 ELSE IF v[1] = "o" THEN 99
    ELSE 1 + (IF v[2] = <<>> THEN 0 ELSE LET D == {Depth(v[2][i]) : i \in DOMAIN v[2]} IN CHOOSE d \in D : \A e \in D : e <= d)
ValueOf(p) == IF Len(p[2]) = 4 THEN p[2][4] ELSE <<"a", SubSeq(p[2], 4, Len(p[2]))>>
ValidProp(p) == p[1] = "a" /\ Len(p[2]) >= 4 /\ p[2][1][1] = "s" /\ p[2][2][1] = "o" /\ p[2][3][1] = "s" /\ Depth(ValueOf(p)) <= 3
\* the strings of a parameter's value
ParamStrs(v) == IF v[1] = "s" THEN <<v[2]>> ELSE IF v[1] = "a" THEN LET q == SelectSeq(v[2], LAMBDA x : x[1] = "s") IN [i \in DOMAIN q |-> q[i][2]] ELSE <<>>
Params(o) == LET N == {n \in MemberNames(o[2]) : ParamStrs(LastOf(o[2], n)) # <<>>} IN [n \in N |-> ParamStrs(LastOf(o[2], n))]
Prop(p) == [name |-> p[2][1][2], params |-> Params(p[2][2]), type |-> p[2][3][2], value |-> ValueOf(p)]
ValidShell(v) == v[1] = "a" /\ Len(v[2]) = 2 /\ v[2][1] = <<"s", "vcard">> /\ v[2][2][1] = "a"
ValidCard(v, ignore) == ValidShell(v) /\ (ignore \/ \A i \in DOMAIN v[2][2][2] : ValidProp(v[2][2][2][i]))
Card(v) == LET q == SelectSeq(v[2][2][2], ValidProp) IN [i \in DOMAIN q |-> Prop(q[i])]

-----------------------------------------------------------------------------
ScalarText(v) == CASE v[1] = "z" -> "" [] v[1] = "b" -> (IF v[2] THEN "true" ELSE "false") [] v[1] = "n" -> NumText(v[2]) [] v[1] = "s" -> v[2]
\* every leaf, in order
RECURSIVE Leaves(_)
RECURSIVE LeavesAll(_)
Leaves(v) == IF v[1] = "a" THEN LeavesAll(v[2]) ELSE <<ScalarText(v)>>
LeavesAll(vs) == IF vs = <<>> THEN <<>> ELSE Leaves(vs[1]) \o LeavesAll(Tail(vs))

\* A property as observed: name, type, params (sequence of <<name, values>>), value, values (flattened)
PropOk(p, obs) == /\ p.name = obs.name /\ p.type = obs.type /\ Same(p.value, obs.value)
                  /\ DOMAIN p.params = MemberNames(obs.params) /\ \A n \in DOMAIN p.params : p.params[n] = LastOf(obs.params, n)
                  /\ obs.values = Leaves(obs.value)
CardOk(v, obs) == LET c == Card(v) IN Len(c) = Len(obs) /\ \A i \in DOMAIN c : PropOk(c[i], obs[i])

-----------------------------------------------------------------------------
\* The accessors, from a card's properties (name, type, params, value).
WithName(ps, n) == SelectSeq(ps, LAMBDA p : p.name = n)
Text1(ps, n) == LET q == WithName(ps, n) IN IF q = <<>> THEN "" ELSE JoinStr(Leaves(q[1].value), " ")
Types(p) == IF "type" \in MemberNames(p.params) THEN LastOf(p.params, "type") ELSE <<>>
Typed(p, t) == \E i \in DOMAIN Types(p) : Types(p)[i] = t
IsVoice(p) == Types(p) = <<>> \/ Typed(p, "voice")
\* the first value of the first; where the first has no value at all, that or the next one's
FirstValues(q) == IF q = <<>> THEN {""}
    ELSE LET l == Leaves(q[1].value)
             r == SelectSeq(q, LAMBDA p : Leaves(p.value) # <<>>) IN
         IF l # <<>> THEN {l[1]} ELSE {"", IF r = <<>> THEN "" ELSE Leaves(r[1].value)[1]}
Tels(ps) == FirstValues(SelectSeq(WithName(ps, "tel"), IsVoice))
Faxes(ps) == FirstValues(SelectSeq(WithName(ps, "tel"), LAMBDA p : Typed(p, "fax")))
\* Address component k (1..7): by position in a structured value. A list of
\* several whole addresses means the first one; what other lists of only
\* lists mean is left open ("?").
Nth(s, k) == IF k <= Len(s) THEN s[k] ELSE ""
Component(v, k) ==
    IF v[1] # "a" THEN Nth(Leaves(v), k)
    ELSE IF v[2] = <<>> THEN ""
    ELSE IF \E i \in DOMAIN v[2] : v[2][i][1] # "a" THEN (IF k <= Len(v[2]) THEN JoinStr(Leaves(v[2][k]), " ") ELSE "")
    ELSE IF Len(v[2][1][2]) >= 7 /\ \A i \in 1..7 : Scalar(v[2][1][2][i]) THEN Leaves(v[2][1])[k]
    ELSE IF Len(v[2]) = 1 /\ \A i \in DOMAIN v[2][1][2] : Scalar(v[2][1][2][i]) THEN Nth(Leaves(v[2][1]), k)
    ELSE "?"
Adr(ps, k) == LET q == WithName(ps, "adr") IN IF q = <<>> THEN "" ELSE Component(q[1].value, k)
Accessors == <<"POBox", "ExtendedAddress", "StreetAddress", "Locality", "Region", "PostalCode", "Country">>
AccessOk(ps, a) ==
    /\ a.Name = Text1(ps, "fn") /\ a.Email = Text1(ps, "email") /\ a.Org = Text1(ps, "org")
    /\ a.Tel \in Tels(ps) /\ a.Fax \in Faxes(ps)
    /\ \A k \in 1..7 : Adr(ps, k) = "?" \/ a[Accessors[k]] = Adr(ps, k)
=============================================================================
