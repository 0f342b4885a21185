------------------------------- MODULE MCPrint ------------------------------
(* The printer as a machine working through an agenda of objects, parts and   *)
(* lines, one line at a time. Checked on objects of every type: it ends with  *)
(* exactly the declared lines; every line is one line, behind its             *)
(* indentation; and each option omits exactly what it names: printing with it *)
(* is printing the object without those parts.                                *)
EXTENDS RdapPrint, RdapSchema, IOUtils, SequencesExt
s_(x) == <<"s", x>>
\* ---- model objects: every field filled, nested to depth n
Data(u) == [fields |-> <<>>, unknown |-> IF u THEN <<"zz", "aa">> ELSE <<>>, notes |-> <<>>,
            values |-> IF u THEN <<<<"zz", <<"o", <<<<"q", s_("1")>>, <<"p", <<"a", <<<<"z">>, s_("n\nl"), <<"b", TRUE>>>>>>>>>>>>>>, <<"aa", <<"n", "5">>>>>> ELSE <<>>]
RECURSIVE Full(_, _)
Full(t, n) ==
    LET F == {m \in DOMAIN Schema[t] : n > 0 \/ Schema[t][m][2][1] \notin {"obj", "objs"}}
        Go == {Schema[t][m][1] : m \in F}
        KindOf(g) == Schema[t][CHOOSE m \in F : Schema[t][m][1] = g][2] IN
    [t |-> t, d |-> Data(n <= 1),
     f |-> [g \in Go |-> LET k == KindOf(g) IN
        CASE k[1] = "str" -> s_(t \o "." \o g) [] k[1] = "strs" -> <<"ss", <<g \o "1", "", g \o "\r2">>>> [] k[1] = "uint" -> <<"u", "7">> [] k[1] = "bool" -> <<"b", TRUE>>
          [] k[1] = "obj" -> <<"o", Full(k[2], n - 1)>> [] k[1] = "objs" -> <<"os", <<Full(k[2], n - 1), Full(k[2], 0)>>>>
          [] k[1] = "vcard" -> <<"vc", <<[name |-> "fn", values |-> <<"Joe", "">>], [name |-> "t\nel", values |-> <<"1", "2">>]>>>>]]
Tops == {"Domain", "Autnum", "Entity", "IPNetwork", "Nameserver", "Help", "Error", "DomainSearchResults", "EntitySearchResults", "NameserverSearchResults"}
CONSTANTS ObjDepth, OptSet
Opt(n, r, b, l, c, s) == [n |-> n, r |-> r, b |-> b, l |-> l, char |-> c, size |-> s]
AllOpts == {Opt(n, r, b, l, c[1], c[2]) : n, r, b, l \in BOOLEAN, c \in {<<"", 0>>, <<"\t", 1>>, <<".", 3>>}}
FewOpts == {Opt(FALSE, FALSE, FALSE, FALSE, "", 0), Opt(TRUE, FALSE, FALSE, FALSE, "", 0), Opt(FALSE, TRUE, FALSE, FALSE, "", 0), Opt(FALSE, FALSE, TRUE, FALSE, "", 0),
            Opt(FALSE, FALSE, FALSE, TRUE, "", 0), Opt(TRUE, TRUE, TRUE, TRUE, ".", 3), Opt(FALSE, FALSE, FALSE, FALSE, "\t", 1)}
Opts == IF OptSet = "all" THEN AllOpts ELSE FewOpts

\* ---- objects without the parts an option names
Gone(t, opt) == (IF opt.n THEN {"Notices"} ELSE {}) \cup (IF opt.r THEN {"Remarks"} ELSE {})
    \cup (IF opt.b THEN {"Conformance", "Notices", "Remarks", "Events", "AsEventActor", "Port43", "Variants", "SecureDNS"} \cup (IF t = "Entity" THEN {"Networks", "Autnums", "Entities"} ELSE {}) ELSE {})
RECURSIVE Without(_, _)
Without(opt, o) == [o EXCEPT !.f = [g \in DOMAIN o.f \ Gone(o.t, opt) |->
    LET x == o.f[g] IN IF x[1] = "o" THEN <<"o", Without(opt, x[2])>> ELSE IF x[1] = "os" THEN <<"os", [i \in DOMAIN x[2] |-> Without(opt, x[2][i])]>> ELSE x]]
Plain(opt) == [opt EXCEPT !.n = FALSE, !.r = FALSE, !.b = FALSE]

\* ---- documents: everything filled, every member alone, at every place where its object can stand
n_(x) == <<"n", x>>
a_(x) == <<"a", x>>
o_(x) == <<"o", x>>
Class == [Autnum |-> "autnum", Domain |-> "domain", Entity |-> "entity", IPNetwork |-> "ip network", Nameserver |-> "nameserver"]
Strange == <<"x\ny", "\n", "\r\n  Handle: fake", "tab\there", ": ", Chars[1] \o "nul">>
CardV == a_(<<s_("vcard"), a_(<<a_(<<s_("fn"), o_(<<>>), s_("text"), s_("Joe")>>), a_(<<s_("t\nel"), o_(<<>>), s_("uri"), s_("1\r\n2"), a_(<<s_("3"), <<"z">>, n_("4.5")>>)>>)>>)>>)
Unknowns == <<<<"zz", o_(<<<<"q", s_("1")>>, <<"p", a_(<<<<"z">>, s_("n\nl"), <<"b", TRUE>>>>)>>, <<"", o_(<<>>)>>>>)>>, <<"Z\nz", n_("1e3")>>, <<"aa", a_(<<a_(<<s_("d"), s_("")>>), o_(<<<<"y", n_("5")>>>>)>>)>>>>
RECURSIVE ValueFor(_, _, _, _)
RECURSIVE MembersOf(_, _, _)
ValueFor(t, m, n, odd) == LET k == Schema[t][m][2] IN
    CASE k[1] = "str" -> s_(IF odd THEN Strange[1 + (Len(m) % 6)] ELSE t \o "." \o m) [] k[1] = "strs" -> a_(<<s_(m \o "1"), s_(""), s_(IF odd THEN Strange[1 + (Len(m) % 6)] ELSE m \o "2")>>)
      [] k[1] = "uint" -> (IF n = 1 THEN s_(k[2]) ELSE n_("0")) [] k[1] = "bool" -> <<"b", n = 1>> [] k[1] = "vcard" -> CardV
      [] k[1] = "obj" -> o_(MembersOf(k[2], n - 1, odd)) [] k[1] = "objs" -> a_(<<o_(MembersOf(k[2], n - 1, odd)), o_(<<>>)>>)
MembersOf(t, n, odd) == LET ms == SetToSeq({m \in DOMAIN Schema[t] \ {"errorCode", "objectClassName", "domainSearchResults", "entitySearchResults", "nameserverSearchResults"} :
                                          n > 0 \/ Schema[t][m][2][1] \notin {"obj", "objs"}}) IN
    [i \in DOMAIN ms |-> <<ms[i], ValueFor(t, ms[i], n, odd)>>] \o (IF n <= 1 THEN Unknowns ELSE <<>>)
Marker(t, n, odd) == CASE t \in DOMAIN Class -> <<<<"objectClassName", s_(Class[t])>>>> [] t = "Error" -> <<<<"errorCode", n_("404")>>>> [] t = "Help" -> <<>>
    [] t = "DomainSearchResults" -> <<<<"domainSearchResults", ValueFor(t, "domainSearchResults", n, odd)>>>>
    [] t = "EntitySearchResults" -> <<<<"entitySearchResults", ValueFor(t, "entitySearchResults", n, odd)>>>>
    [] t = "NameserverSearchResults" -> <<<<"nameserverSearchResults", ValueFor(t, "nameserverSearchResults", n, odd)>>>>
FullDocs(odd) == UNION {{o_(MembersOf(t, n, odd) \o Marker(t, n, odd)) : t \in Tops} : n \in 1..ObjDepth} \cup {o_(MembersOf("Domain", 2, odd) \o Marker("Domain", 2, odd))}
Alone(odd) == UNION {{o_(<<<<m, ValueFor(t, m, 1, odd)>>>> \o Marker(t, 1, odd)) : m \in DOMAIN Schema[t] \ {"errorCode", "objectClassName", "domainSearchResults", "entitySearchResults", "nameserverSearchResults"}} : t \in Tops}
Odd == IOEnv.ODD = "yes"
\* several options on one document
OptSeq == SetToSeq(Opts)
ASSUME ndJsonSerialize(IOEnv.OUT, <<[schema |-> Schema]>> \o SetToSeq({[in |-> [doc |-> x, opts |-> OptSeq]] : x \in FullDocs(Odd) \cup Alone(Odd)}))

\* ---- the machine
VARIABLES obj, opt, todo, out
vars == <<obj, opt, todo, out>>
Init == obj \in {Full(t, ObjDepth) : t \in Tops} /\ opt \in Opts /\ todo = <<<<"obj", 0, obj>>>> /\ out = <<>>
LineItems(ls) == [i \in DOMAIN ls |-> <<"line", 0, ls[i]>>]
Objs(d, os) == [i \in DOMAIN os |-> <<"obj", d, os[i]>>]
Step(x) ==
    LET d == x[2] IN
    CASE x[1] = "obj" -> LET o == x[3] IN
        IF o.t = "Link" /\ opt.l THEN LineItems(Lines(opt, d, o))
        ELSE <<<<"line", d, HeadLine(opt, d, Heading[o.t])[1]>>>> \o [i \in DOMAIN Layout[o.t] |-> <<"part", d + 1, o, Layout[o.t][i]>>] \o <<<<"unknown", d + 1, o>>>>
      [] x[1] = "part" -> LET o == x[3]
                              p == x[4] IN
        IF p[3] \notin DOMAIN o.f \/ p[4] \cap On(opt) # {} THEN <<>>
        ELSE IF p[1] = "objs" THEN (IF o.f[p[3]][1] = "o" THEN <<<<"obj", d, o.f[p[3]][2]>>>> ELSE Objs(d, o.f[p[3]][2]))
        ELSE LineItems(Part(opt, d, p, o))
      [] x[1] = "unknown" -> LET o == x[3] IN LineItems(UnkMembers(opt, d, SortStrs({o.d.unknown[i] : i \in DOMAIN o.d.unknown}), o.d.values))
Next == /\ todo # <<>> /\ UNCHANGED <<obj, opt>>
        /\ IF todo[1][1] = "line" THEN out' = Append(out, todo[1][3]) /\ todo' = Tail(todo)
           ELSE out' = out /\ todo' = Step(todo[1]) \o Tail(todo)
View_ == <<obj.t, opt, Len(todo), Len(out), IF todo = <<>> THEN <<>> ELSE <<todo[1][1], todo[1][2]>> >>
Final == todo = <<>> =>
    /\ out = Printed(opt, obj)
    /\ \A i \in DOMAIN out : out[i] = Clean(out[i]) /\ FindIn(out[i], {":"}, 1) > 0
    /\ out = Printed(Plain(opt), Without(opt, obj))
=============================================================================
