------------------------------- MODULE MCWhois ------------------------------
(* The WHOIS form as a machine that adds one key and value at a time to an    *)
(* ordered multi-map, refined against its declarative meaning.                *)
EXTENDS RdapPrint, RdapSchema, IOUtils, SequencesExt
CONSTANTS MaxEntities
s_(x) == <<"s", x>>
a_(x) == <<"a", x>>
o_(x) == <<"o", x>>
D0 == [fields |-> <<>>, unknown |-> <<>>, notes |-> <<>>, values |-> <<>>]
Obj1(t, f) == [t |-> t, f |-> f, d |-> D0]
P(name, params, v) == [name |-> name, type |-> "text", params |-> params, value |-> v]
AdrV == a_(<<s_("po"), s_("ext"), a_(<<s_("st1"), s_("st2")>>), s_("loc"), s_("reg"), s_("pc"), s_("cc")>>)
Cards2 == {<<>>, <<P("fn", <<>>, s_("Joe"))>>,
           <<P("tel", <<<<"type", <<"fax">>>>>>, s_("f1")), P("adr", <<>>, AdrV), P("email", <<>>, s_("e@x")), P("fn", <<>>, s_("Ann")), P("tel", <<<<"type", <<"work", "voice">>>>>>, s_("v1")), P("fn", <<>>, s_("Second"))>>}
RoleLists == {<<>>, <<"registrar">>, <<"abuse", "registrar">>, <<"registrant">>, <<"technical", "administrative", "registrant">>, <<"Registrar">>}
Id(t, i) == Obj1("PublicID", [Type |-> s_(t), Identifier |-> s_(i)])
IdLists == {<<>>, <<Id("other", "0"), Id("IANA Registrar ID", "292"), Id("IANA Registrar ID", "9")>>}
Ent(r, c, i) == Obj1("Entity", (IF r = <<>> THEN <<>> ELSE [Roles |-> <<"ss", r>>]) @@ (IF c = <<>> THEN <<>> ELSE [VCard |-> <<"vc", c>>]) @@ (IF i = <<>> THEN <<>> ELSE [PublicIDs |-> <<"os", i>>]))
Ents == {Ent(r, c, <<>>) : r \in RoleLists, c \in Cards2} \cup {Ent(<<"registrar">>, c, i) : c \in Cards2, i \in IdLists}
Ev(a, d) == Obj1("Event", [Action |-> s_(a)] @@ (IF d = "" THEN <<>> ELSE [Date |-> s_(d)]))
EvLists == {<<>>, <<Ev("registration", "r1"), Ev("last changed", "c1"), Ev("registration", "r2")>>, <<Ev("last changed", "c1"), Ev("expiration", ""), Ev("transfer", "t"), Ev("expiration", "e1"), Ev("registration", "r1")>>}
Ns(n) == Obj1("Nameserver", IF n = "" THEN <<>> ELSE [LDHName |-> s_(n)])
Dom(es, evs, full) == Obj1("Domain", (IF es = <<>> THEN <<>> ELSE [Entities |-> <<"os", es>>]) @@ (IF evs = <<>> THEN <<>> ELSE [Events |-> <<"os", evs>>])
    @@ (IF ~full THEN <<>> ELSE [LDHName |-> s_("x.example"), Handle |-> s_("H"), Port43 |-> s_("whois.example"), Status |-> <<"ss", <<"ok", "", "locked">>>>,
                                 UnicodeName |-> s_("u"), Nameservers |-> <<"os", <<Ns("ns2"), Ns(""), Ns("ns1")>>>>]))
EntSeqs == {<<>>} \cup UNION {[1..n -> Ents] : n \in 1..MaxEntities}
Domains == {Dom(es, evs, full) : es \in EntSeqs, evs \in {<<>>}, full \in {FALSE}} \cup {Dom(es, evs, full) : es \in {<<>>} \cup {<<e>> : e \in Ents}, evs \in EvLists, full \in BOOLEAN}

\* ---- as documents
RECURSIVE ToDoc(_)
CardDoc(ps) == a_(<<s_("vcard"), a_([i \in DOMAIN ps |-> a_(<<s_(ps[i].name), o_([j \in DOMAIN ps[i].params |-> <<ps[i].params[j][1], a_([k \in DOMAIN ps[i].params[j][2] |-> s_(ps[i].params[j][2][k])])>>]), s_("text"), ps[i].value>>)])>>)
ToDoc(o) == LET ms == SetToSeq({m \in DOMAIN Schema[o.t] : Schema[o.t][m][1] \in DOMAIN o.f}) IN
    o_([i \in DOMAIN ms |-> <<ms[i], LET x == o.f[Schema[o.t][ms[i]][1]] IN
        CASE x[1] = "s" -> x [] x[1] = "ss" -> a_([k \in DOMAIN x[2] |-> s_(x[2][k])]) [] x[1] = "vc" -> CardDoc(x[2]) [] x[1] = "os" -> a_([k \in DOMAIN x[2] |-> ToDoc(x[2][k])])>>])
DomDoc(o) == o_(<<<<"objectClassName", s_("domain")>>>> \o ToDoc(o)[2])
EntDoc(e) == o_(<<<<"objectClassName", s_("entity")>>, <<"ldhName", s_("no.example")>>>> \o ToDoc(e)[2])
ASSUME ndJsonSerialize(IOEnv.OUT, <<[schema |-> Schema]>> \o SetToSeq({[in |-> [doc |-> x, opts |-> <<>>]] : x \in {DomDoc(d) : d \in Domains} \cup {EntDoc(e) : e \in Ents}}))

\* ---- the machine
VARIABLES dom, todo, keys, data
vars == <<dom, todo, keys, data>>
Init == dom \in Domains /\ todo = WhoisPairs(dom) /\ keys = <<>> /\ data = [k \in {} |-> <<>>]
Next == /\ todo # <<>> /\ UNCHANGED dom /\ todo' = Tail(todo)
        /\ LET k == todo[1][1] IN
           IF k \in DOMAIN data THEN keys' = keys /\ data' = [data EXCEPT ![k] = Append(@, todo[1][2])]
           ELSE keys' = Append(keys, k) /\ data' = (k :> <<todo[1][2]>>) @@ data
Correct == todo = <<>> => [i \in DOMAIN keys |-> <<keys[i], data[keys[i]]>>] = Whois(dom)
\* keys are distinct, and values never empty
Sound == Cardinality({keys[i] : i \in DOMAIN keys}) = Len(keys) /\ \A k \in DOMAIN data : data[k] # <<>> /\ \A i \in DOMAIN data[k] : data[k][i] # ""
=============================================================================
