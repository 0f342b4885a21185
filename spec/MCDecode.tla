------------------------------ MODULE MCDecode ------------------------------
(* The decoder takes an object's members one by one in any order (a Go map);  *)
(* whatever the order, it ends with the object the specification gives.       *)
(* Every member of every object type with every kind of value is a case.      *)
EXTENDS RdapDecode, IOUtils, SequencesExt
s_(x) == <<"s", x>>
n_(x) == <<"n", x>>
a_(x) == <<"a", x>>
o_(x) == <<"o", x>>
Cls(t) == CASE t = "IPNetwork" -> "ip network" [] t = "Autnum" -> "autnum" [] t = "Domain" -> "domain" [] t = "Entity" -> "entity" [] t = "Nameserver" -> "nameserver"
Tops == {"Autnum", "Domain", "Entity", "IPNetwork", "Nameserver"}
FnProp == a_(<<s_("fn"), o_(<<>>), s_("text"), s_("Joe")>>)
Vals == {<<"z">>, <<"b", TRUE>>, <<"b", FALSE>>}
    \cup {n_(x) : x \in {"0", "1", "-1", "-0.5", "1.5", "255", "256", "255.9", "65535", "65536", "4294967295", "4294967296", "1e3", "1.5E+2", "12e-1", "-0",
                         "9007199254740993", "18446744073709549568", "18446744073709551615", "1e30", "-1e30", "0.001"}}
    \cup {s_(x) : x \in {"", "x", "0", "1", "007", "255", "256", "65536", "4294967296", "18446744073709551615", "18446744073709551616", "-1", "+1", " 1", "1.0",
                         "010", "0x1F", "1_0", "0b1", "1 ", "1e3", "on", "Y", " true", "true", "True", "TRUE", "t", "T", "false", "f", "F", "tRUE", "yes", "null"}}
    \cup {a_(<<>>), a_(<<s_("x"), s_(""), s_("y")>>), a_(<<n_("1"), s_("y"), <<"z">>, o_(<<>>), a_(<<>>), <<"b", TRUE>>>>), a_(<<a_(<<s_("x")>>)>>),
          a_(<<o_(<<>>)>>), a_(<<o_(<<<<"title", s_("t")>>, <<"zz", n_("1")>>>>), n_("5"), <<"z">>, o_(<<<<"title", n_("2")>>, <<"handle", s_("h")>>>>), s_("x")>>),
          o_(<<>>), o_(<<<<"title", n_("5")>>, <<"lang", <<"z">>>>, <<"zz", a_(<<>>)>>>>), o_(<<<<"0", s_("x")>>>>),
          a_(<<s_("vcard"), a_(<<>>)>>), a_(<<s_("vcard"), a_(<<FnProp>>)>>), a_(<<s_("vcard"), a_(<<FnProp, n_("1")>>)>>), a_(<<s_("VCARD"), a_(<<FnProp>>)>>)}
\* an object of type t with members ms, in a document
RECURSIVE Wrap(_, _)
In1(t, m, x) == <<t, <<<<m, x>>>>>>
Wrap(t, ms) ==
    LET o == o_(ms)
        l == a_(<<o>>) IN
    CASE t \in Tops -> o_(<<<<"objectClassName", s_(Cls(t))>>>> \o ms)
      [] t = "Error" -> o_(<<<<"errorCode", n_("1")>>>> \o ms)
      [] t = "Help" -> o
      [] t = "DomainSearchResults" -> o_(<<<<"domainSearchResults", a_(<<>>)>>>> \o ms)
      [] t = "EntitySearchResults" -> o_(<<<<"entitySearchResults", a_(<<>>)>>>> \o ms)
      [] t = "NameserverSearchResults" -> o_(<<<<"nameserverSearchResults", a_(<<>>)>>>> \o ms)
      [] t = "Link" -> Wrap("Notice", <<<<"links", l>>>>)
      [] t = "Notice" -> Wrap("Help", <<<<"notices", l>>>>)
      [] t = "Remark" -> Wrap("Autnum", <<<<"remarks", l>>>>)
      [] t = "Event" -> Wrap("DSData", <<<<"events", l>>>>)
      [] t = "PublicID" -> Wrap("Entity", <<<<"publicIds", l>>>>)
      [] t = "Variant" -> Wrap("Domain", <<<<"variants", l>>>>)
      [] t = "VariantName" -> Wrap("Variant", <<<<"variantNames", l>>>>)
      [] t = "SecureDNS" -> Wrap("Domain", <<<<"secureDNS", o>>>>)
      [] t = "DSData" -> Wrap("SecureDNS", <<<<"dsData", l>>>>)
      [] t = "KeyData" -> Wrap("SecureDNS", <<<<"keyData", l>>>>)
      [] t = "IPAddressSet" -> Wrap("Nameserver", <<<<"ipAddresses", o>>>>)
\* every member alone (absent: Go names are not member names), and beside a neighbour
Single == UNION {{Wrap(t, <<<<m, v>>>>) : m \in (DOMAIN Schema[t] \cup {"zz", "Title", "Lang", ""}), v \in Vals} : t \in DOMAIN Schema}
OddNames == {" title", "status ", "LANG", "_zz", "$schema", "@context", "a:b", "a.b"}
Few == {<<"z">>, n_("300"), s_("x"), a_(<<s_("p"), n_("2")>>), o_(<<>>)}
Odds == UNION {{Wrap(t, <<<<m, v>>>>) : m \in OddNames, v \in Few} : t \in DOMAIN Schema}
Pairs == UNION {{Wrap(t, <<<<m, v>>, <<n, w>>>>) : m \in DOMAIN Schema[t], n \in {CHOOSE x \in DOMAIN Schema[t] : TRUE} \cup {"zz"}, v \in Few, w \in Few} : t \in DOMAIN Schema}
\* which type is chosen
Markers == <<"errorCode", "objectClassName", "domainSearchResults", "entitySearchResults", "nameserverSearchResults">>
Classes == {s_("DOMAIN"), s_(" domain"), s_("domain "), s_("ipnetwork"), s_("ip  network"), s_("help"), s_("error"), s_("domain"), s_("Domain"), s_(""), s_("ip network"), s_("ip"), n_("1"), <<"z">>, a_(<<s_("domain")>>), o_(<<>>)}
Kinds == UNION {{o_(SetToSeq({<<Markers[i], IF i = 2 THEN c ELSE v>> : i \in S})) : c \in Classes, v \in {<<"z">>, a_(<<>>), s_("1")}} : S \in SUBSET (1..5)}
Others == {<<"z">>, <<"b", TRUE>>, n_("1"), s_("x"), a_(<<>>), a_(<<o_(<<>>)>>)}
ASSUME ndJsonSerialize(IOEnv.OUT, <<[schema |-> Schema]>> \o SetToSeq({[in |-> [doc |-> d]] : d \in Single \cup Odds \cup Pairs \cup Kinds \cup Others}))

\* ---- the decoder
CONSTANT MCTypes
MCVals == {<<"z">>, n_("300"), s_("x"), s_("1"), a_(<<s_("p"), n_("2"), o_(<<>>)>>), o_(<<>>)}
VARIABLES t, ms, todo, f, notes
vars == <<t, ms, todo, f, notes>>
Init == /\ t \in MCTypes
        /\ ms \in UNION {[S -> MCVals] : S \in {{a, b} : a, b \in DOMAIN Schema[t] \cup {"zz"}}}
        /\ todo = DOMAIN ms /\ f = [x \in {} |-> <<>>] /\ notes = [x \in {} |-> 0]
Next == \E n \in todo :
    /\ todo' = todo \ {n} /\ UNCHANGED <<t, ms>>
    /\ IF n \in DOMAIN Schema[t]
       THEN LET k == Schema[t][n][2]
                x == Field(k, ms[n]) IN
            /\ f' = IF x[1] = "none" THEN f ELSE (Schema[t][n][1] :> x) @@ f
            /\ notes' = IF Notes(k, ms[n]).min = 0 THEN notes ELSE (n :> Notes(k, ms[n]).min) @@ notes
       ELSE UNCHANGED <<f, notes>>
Known == DOMAIN ms \cap DOMAIN Schema[t]
Decoded == todo = {} =>
    /\ DOMAIN f = {Schema[t][n][1] : n \in {n \in Known : Field(Schema[t][n][2], ms[n])[1] # "none"}}
    /\ \A n \in Known : Schema[t][n][1] \in DOMAIN f => f[Schema[t][n][1]] = Field(Schema[t][n][2], ms[n])
    /\ \A n \in Known : (n \in DOMAIN notes) = (Notes(Schema[t][n][2], ms[n]).min > 0)
\* a member's own outcome never changes once it is there
Stable == [][\A g \in DOMAIN f : f'[g] = f[g]]_vars
=============================================================================
