------------------------------- MODULE MCCard -------------------------------
(* The jCard decoder as a machine going through the properties in order,      *)
(* refined against the declarative meaning, for cards of up to two of the     *)
(* listed valid and invalid properties. Cards and properties are cases.       *)
EXTENDS JCard, IOUtils, SequencesExt, TLC
s_(x) == <<"s", x>>
n_(x) == <<"n", x>>
a_(x) == <<"a", x>>
o_(x) == <<"o", x>>
Z == <<"z">>
E0 == o_(<<>>)
P(name, params, type, vals) == a_(<<s_(name), params, s_(type)>> \o vals)
Values == {s_("v"), s_(""), n_("1.50"), <<"b", TRUE>>, Z, a_(<<>>), a_(<<s_("a"), s_("b")>>), a_(<<s_("a"), a_(<<s_("b"), n_("2")>>), Z>>), a_(<<a_(<<a_(<<s_("d")>>)>>)>>),
           a_(<<a_(<<a_(<<>>)>>)>>), a_(<<a_(<<a_(<<a_(<<>>)>>)>>)>>), a_(<<a_(<<s_("x"), a_(<<s_("y"), s_("z")>>)>>), <<"b", FALSE>>>>), E0, a_(<<E0>>)}
Params3 == {E0, o_(<<<<"type", s_("voice")>>>>), o_(<<<<"type", a_(<<s_("work"), s_("voice")>>)>>>>), o_(<<<<"type", a_(<<n_("1"), s_("fax"), Z>>)>>>>), o_(<<<<"type", a_(<<>>)>>>>),
            o_(<<<<"type", n_("1")>>, <<"pref", s_("1")>>>>), o_(<<<<"type", s_("x")>>, <<"type", s_("fax")>>>>)}
\* properties: valid and invalid in every way
Valid0 == {P("fn", E0, "text", <<v>>) : v \in Values} \cup {P("tel", p, "uri", <<s_("t")>>) : p \in Params3} \cup {P("org", E0, "text", <<v, w>>) : v, w \in Values}
Broken == {s_("fn"), Z, E0, a_(<<>>), a_(<<s_("fn"), E0, s_("text")>>), a_(<<n_("1"), E0, s_("text"), s_("v")>>), a_(<<s_("fn"), Z, s_("text"), s_("v")>>),
           a_(<<s_("fn"), a_(<<>>), s_("text"), s_("v")>>), a_(<<s_("fn"), E0, Z, s_("v")>>), a_(<<s_("fn"), E0, a_(<<s_("text")>>), s_("v")>>)}
Props == Valid0 \cup Broken
Card1(ps) == a_(<<s_("vcard"), a_(ps)>>)
Fn == P("fn", E0, "text", <<s_("Joe")>>)
Shells == {Z, E0, s_("vcard"), n_("1"), a_(<<>>), a_(<<s_("vcard")>>), a_(<<s_("vcard"), a_(<<>>), Z>>), a_(<<s_("vCard"), a_(<<>>)>>), a_(<<Z, a_(<<Fn>>)>>),
           a_(<<s_("vcard"), E0>>), a_(<<s_("vcard"), Z>>), a_(<<a_(<<s_("vcard")>>), a_(<<>>)>>), a_(<<s_("vcard"), a_(<<>>)>>)}
Cards == Shells \cup {Card1(<<p>>) : p \in Props} \cup {Card1(<<p, Fn>>) : p \in Props} \cup {Card1(<<Fn, p>>) : p \in Props} \cup {Card1(<<p, Fn, q>>) : p, q \in Broken}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({[in |-> [card |-> c, ignore |-> i]] : c \in Cards, i \in BOOLEAN}))

\* ---- accessors: one card of up to three properties
APs == {<<"tel", "", t>> : t \in {<<>>, <<<<"type", <<"voice">>>>>>, <<<<"type", <<"fax", "work">>>>>>, <<<<"type", <<"fax", "voice">>>>>>, <<<<"pref", <<"1">>>>>>, <<<<"type", <<"text">>>>>>}}
Adrs == {a_(<<s_("1"), s_("2"), s_("3"), s_("4"), s_("5"), s_("6"), s_("7")>>), a_(<<s_("1"), s_("2"), a_(<<s_("3a"), s_("3b")>>), s_("4"), Z, s_("6"), a_(<<>>)>>),
         a_(<<Z, Z, s_("3")>>), a_(<<>>), s_("one"), a_(<<a_(<<s_("1"), s_("2"), s_("3"), s_("4"), s_("5"), s_("6"), s_("7")>>), a_(<<s_("o")>>)>>),
         a_(<<a_(<<>>), a_(<<s_("x")>>), s_("y"), a_(<<s_("p"), s_("q")>>), n_("5"), <<"b", TRUE>>, s_("7"), s_("8")>>)}
Some == {s_("a"), a_(<<s_("a"), a_(<<s_("b"), n_("2.0")>>)>>), a_(<<>>), Z}
A(n, ps, v) == [name |-> n, type |-> "text", params |-> ps, value |-> v]
AccProps == {A("tel", x[3], v) : x \in APs, v \in {s_("t1"), a_(<<s_("t2"), s_("t3")>>), a_(<<>>)}} \cup {A("adr", <<>>, v) : v \in Adrs}
    \cup {A(n, <<>>, v) : n \in {"fn", "email", "org", "FN", "x"}, v \in Some}
AccCards == {<<>>} \cup {<<p>> : p \in AccProps} \cup {<<p, q>> : p, q \in AccProps}
ASSUME ndJsonSerialize(IOEnv.OUT2, SetToSeq({[in |-> [props |-> c]] : c \in AccCards}))

\* ---- the decoder
VARIABLES card, ignore, pos, out, failed
vars == <<card, ignore, pos, out, failed>>
Init == card \in Cards /\ ignore \in BOOLEAN /\ pos = 1 /\ out = <<>> /\ failed = ~ValidShell(card)
Next == /\ ~failed /\ pos <= Len(card[2][2][2])
        /\ LET p == card[2][2][2][pos] IN
           IF ValidProp(p) THEN out' = Append(out, Prop(p)) /\ UNCHANGED failed
           ELSE UNCHANGED out /\ failed' = ~ignore
        /\ pos' = pos + 1 /\ UNCHANGED <<card, ignore>>
Done == failed \/ pos > Len(card[2][2][2])
Correct == Done => failed = ~ValidCard(card, ignore) /\ (~failed => out = Card(card))
\* flattening keeps the number and order of leaves
RECURSIVE Count(_)
RECURSIVE CountAll(_)
Count(v) == IF v[1] = "a" THEN CountAll(v[2]) ELSE 1
CountAll(vs) == IF vs = <<>> THEN 0 ELSE Count(vs[1]) + CountAll(Tail(vs))
Flat == \A i \in DOMAIN out : Len(Leaves(out[i].value)) = Count(out[i].value)
=============================================================================
