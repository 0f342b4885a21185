----------------------------- MODULE RdapPrint ------------------------------
(* The text form of a decoded object: for every object type its heading and   *)
(* the order of its parts; and the WHOIS form of a domain.                    *)
(* Objects are as in RdapDecode: [t, f, d].                                   *)
EXTENDS JCard, TLC
\* ---- layout: <<kind, label, Go field, omitted by>>
V(l, g) == <<"val", l, g, {}>>
M(l, g) == <<"vals", l, g, {}>>
P43 == <<"val", "Port43", "Port43", {"B"}>>
Conf == <<"vals", "Conformance", "Conformance", {"B"}>>
Notices_ == <<"objs", "", "Notices", {"B", "N"}>>
Remarks_ == <<"objs", "", "Remarks", {"B", "R"}>>
Links_ == <<"objs", "", "Links", {}>>
Events_ == <<"objs", "", "Events", {"B"}>>
Sub(g) == <<"objs", "", g, {}>>
SubB(g) == <<"objs", "", g, {"B"}>>
NoteL == <<V("Title", "Title"), V("Type", "Type"), M("Description", "Description"), Links_>>
Layout == [
  Domain |-> <<V("Domain Name", "LDHName"), V("Domain Name (Unicode)", "UnicodeName"), V("Handle", "Handle"), M("Status", "Status"), P43, Sub("PublicIDs"), Conf,
               Notices_, Remarks_, Links_, Events_, SubB("Variants"), SubB("SecureDNS"), Sub("Entities"), Sub("Nameservers"), Sub("Network")>>,
  Autnum |-> <<V("Handle", "Handle"), V("Name", "Name"), V("Type", "Type"), M("Status", "Status"), V("IP Version", "IPVersion"), V("Country", "Country"),
               V("StartAutnum", "StartAutnum"), V("EndAutnum", "EndAutnum"), Conf, P43, Notices_, Remarks_, Links_, Events_, Sub("Entities")>>,
  Nameserver |-> <<V("Nameserver", "LDHName"), V("Nameserver (Unicode)", "UnicodeName"), V("Handle", "Handle"), M("Status", "Status"), P43, Conf, Notices_, Remarks_,
               Links_, Events_, Sub("IPAddresses"), Sub("Entities")>>,
  IPAddressSet |-> <<M("IPv6", "V6"), M("IPv4", "V4")>>,
  Entity |-> <<V("Handle", "Handle"), M("Status", "Status"), P43, Sub("PublicIDs"), Conf, Notices_, Remarks_, Links_, Events_, <<"actor", "", "AsEventActor", {"B"}>>,
               M("Role", "Roles"), <<"card", "", "VCard", {}>>, SubB("Networks"), SubB("Autnums"), SubB("Entities")>>,
  IPNetwork |-> <<V("Handle", "Handle"), V("Start Address", "StartAddress"), V("End Address", "EndAddress"), V("IP Version", "IPVersion"), V("Name", "Name"),
               V("Type", "Type"), V("Country", "Country"), V("ParentHandle", "ParentHandle"), M("Status", "Status"), P43, Notices_, Remarks_, Sub("Entities"), Links_, Events_>>,
  PublicID |-> <<V("Type", "Type"), V("Identifier", "Identifier")>>,
  SecureDNS |-> <<V("Zone Signed", "ZoneSigned"), V("Delegation Signed", "DelegationSigned"), V("Max Signature Life", "MaxSigLife"), Sub("DS"), Sub("Keys")>>,
  KeyData |-> <<V("Flags", "Flags"), V("Protocol", "Protocol"), V("Algorithm", "Algorithm"), V("Public Key", "PublicKey"), Events_, Links_>>,
  DSData |-> <<V("Key Tag", "KeyTag"), V("Algorithm", "Algorithm"), V("Digest", "Digest"), V("DigestType", "DigestType"), Events_, Links_>>,
  Variant |-> <<M("Relation", "Relation"), V("IDN Table", "IDNTable"), Sub("VariantNames")>>,
  VariantName |-> <<V("Domain Name", "LDHName"), V("Domain Name (Unicode)", "UnicodeName")>>,
  Remark |-> NoteL, Notice |-> NoteL,
  Link |-> <<V("Title", "Title"), V("Href", "Href"), V("Value", "Value"), V("Rel", "Rel"), V("Media", "Media"), V("Type", "Type"), M("HrefLang", "HrefLang")>>,
  Event |-> <<V("Action", "Action"), V("Actor", "Actor"), V("Date", "Date"), Links_>>,
  Help |-> <<Conf, Notices_>>,
  Error |-> <<Conf, Notices_, V("Error Code", "ErrorCode"), V("Title", "Title"), M("Description", "Description")>>,
  DomainSearchResults |-> <<Conf, Notices_, Sub("Domains")>>,
  EntitySearchResults |-> <<Conf, Notices_, Sub("Entities")>>,
  NameserverSearchResults |-> <<Conf, Notices_, Sub("Nameservers")>>
]
Heading == [t \in DOMAIN Layout |->
    CASE t = "IPNetwork" -> "IP Network" [] t = "IPAddressSet" -> "IP Addresses" [] t = "PublicID" -> "Public ID" [] t = "SecureDNS" -> "Secure DNS"
      [] t = "KeyData" -> "Key" [] t = "VariantName" -> "Variant Name" [] t = "DomainSearchResults" -> "Domain Search Results"
      [] t = "EntitySearchResults" -> "Entity Search Results" [] t = "NameserverSearchResults" -> "Nameserver Search Results" [] OTHER -> t]

\* ---- options: [n, r, b, l, char, size] (omit notices, omit remarks, brief output, brief links; "" and 0 for the defaults)
IndentOf(opt, d) == Rep(IF opt.char = "" THEN " " ELSE opt.char, d * (IF opt.size = 0 THEN 2 ELSE opt.size))
On(opt) == (IF opt.n THEN {"N"} ELSE {}) \cup (IF opt.r THEN {"R"} ELSE {}) \cup (IF opt.b THEN {"B"} ELSE {})
Bad == {Chars[1], Chars[11], Chars[14]}     \* NUL, line feed, carriage return
RECURSIVE Clean(_)
Clean(s) == IF Len(s) > 64 THEN Clean(Take(s, Len(s) \div 2)) \o Clean(Drop(s, Len(s) \div 2))
            ELSE LET i == FindIn(s, Bad, 1) IN IF i = 0 THEN s ELSE Take(s, i - 1) \o Clean(Drop(s, i))
HeadLine(opt, d, l) == <<IndentOf(opt, d) \o Clean(l) \o ":">>
ValLine(opt, d, l, v) == IF v = "" THEN <<>> ELSE <<IndentOf(opt, d) \o Clean(l) \o ": " \o Clean(v)>>

RECURSIVE ValLines(_, _, _, _)
ValLines(opt, d, l, vs) == IF vs = <<>> THEN <<>> ELSE ValLine(opt, d, l, vs[1]) \o ValLines(opt, d, l, Tail(vs))
RECURSIVE CardLines(_, _, _)
CardLines(opt, d, ps) == IF ps = <<>> THEN <<>> ELSE ValLines(opt, d, "vCard " \o ps[1].name, ps[1].values) \o CardLines(opt, d, Tail(ps))

\* unknown members, by name, recursively
RECURSIVE Unk(_, _, _, _)
RECURSIVE UnkAll(_, _, _, _)
RECURSIVE UnkMembers(_, _, _, _)
Unk(opt, d, k, v) ==
    CASE v[1] = "z" -> ValLine(opt, d, k, "[unprintable value]")
      [] v[1] \in {"b", "n", "s"} -> ValLine(opt, d, k, ScalarText(v))
      [] v[1] = "a" -> UnkAll(opt, d, k, v[2])
      [] v[1] = "o" -> HeadLine(opt, d, k) \o UnkMembers(opt, d + 1, SortStrs(MemberNames(v[2])), v[2])
UnkAll(opt, d, k, vs) == IF vs = <<>> THEN <<>> ELSE Unk(opt, d, k, vs[1]) \o UnkAll(opt, d, k, Tail(vs))
UnkMembers(opt, d, names, ms) == IF names = <<>> THEN <<>> ELSE Unk(opt, d, names[1], LastOf(ms, names[1])) \o UnkMembers(opt, d, Tail(names), ms)

ValText(x) == CASE x[1] \in {"s", "u"} -> x[2] [] x[1] = "b" -> (IF x[2] THEN "true" ELSE "false")
RECURSIVE Lines(_, _, _)
RECURSIVE LinesAll(_, _, _)
RECURSIVE Parts(_, _, _, _)
Block(opt, d, head, o) == HeadLine(opt, d, head) \o Parts(opt, d + 1, Layout[o.t], o)
                          \o UnkMembers(opt, d + 1, SortStrs({o.d.unknown[i] : i \in DOMAIN o.d.unknown}), o.d.values)
Lines(opt, d, o) == IF o.t = "Link" /\ opt.l THEN (IF "Href" \in DOMAIN o.f THEN ValLine(opt, d, "Link", o.f["Href"][2]) ELSE <<>>)
                    ELSE Block(opt, d, Heading[o.t], o)
LinesAll(opt, d, os) == IF os = <<>> THEN <<>> ELSE Lines(opt, d, os[1]) \o LinesAll(opt, d, Tail(os))
RECURSIVE Actors(_, _, _)
Actors(opt, d, os) == IF os = <<>> THEN <<>> ELSE Block(opt, d, "AsEventActor", os[1]) \o Actors(opt, d, Tail(os))
Part(opt, d, p, o) ==
    IF p[3] \notin DOMAIN o.f \/ p[4] \cap On(opt) # {} THEN <<>>
    ELSE LET x == o.f[p[3]] IN
         CASE p[1] = "val" -> ValLine(opt, d, p[2], ValText(x))
           [] p[1] = "vals" -> ValLines(opt, d, p[2], x[2])
           [] p[1] = "objs" -> (IF x[1] = "o" THEN Lines(opt, d, x[2]) ELSE LinesAll(opt, d, x[2]))
           [] p[1] = "actor" -> Actors(opt, d, x[2])
           [] p[1] = "card" -> CardLines(opt, d, x[2])
Parts(opt, d, ps, o) == IF ps = <<>> THEN <<>> ELSE Part(opt, d, ps[1], o) \o Parts(opt, d, Tail(ps), o)
Printed(opt, o) == Lines(opt, 0, o)
\* a hand-made object has no unknown members
RECURSIVE Bare(_)
Bare(o) == [o EXCEPT !.d = [unknown |-> <<>>, values |-> <<>>], !.f = [g \in DOMAIN o.f |->
    LET x == o.f[g] IN IF x[1] = "o" THEN <<"o", Bare(x[2])>> ELSE IF x[1] = "os" THEN <<"os", [i \in DOMAIN x[2] |-> Bare(x[2][i])]>> ELSE x]]

-----------------------------------------------------------------------------
\* ---- the WHOIS form of a domain: <<key, values>> in order
ListOf(o, g) == IF g \in DOMAIN o.f THEN o.f[g][2] ELSE <<>>
TextOf(o, g) == IF g \in DOMAIN o.f THEN o.f[g][2] ELSE ""
WithRole(es, role) == SelectSeq(es, LAMBDA e : \E i \in DOMAIN ListOf(e, "Roles") : ListOf(e, "Roles")[i] = role)
CardOf(es, role) == LET q == WithRole(es, role) IN IF q = <<>> THEN <<>> ELSE ListOf(q[1], "VCard")
DateKey == [x \in {"last changed", "registration", "expiration"} |-> CASE x = "last changed" -> "Updated Date" [] x = "registration" -> "Creation Date" [] x = "expiration" -> "Expiration Date"]
EventPairs(evs) == LET q == SelectSeq(evs, LAMBDA e : TextOf(e, "Action") \in DOMAIN DateKey) IN [i \in DOMAIN q |-> <<DateKey[TextOf(q[i], "Action")], TextOf(q[i], "Date")>>]
RoleKeys == <<<<"registrant", "Registrant">>, <<"administrative", "Admin">>, <<"technical", "Tech">>, <<"abuse", "Abuse">>>>
One(S) == CHOOSE x \in S : TRUE
Contact(es, rk) ==
    LET ps == CardOf(es, rk[1]) IN
    <<<<rk[2] \o " Name", Text1(ps, "fn")>>, <<rk[2] \o " PO Box", Adr(ps, 1)>>, <<rk[2] \o " Extended Address", Adr(ps, 2)>>, <<rk[2] \o " Street", Adr(ps, 3)>>,
      <<rk[2] \o " Locality", Adr(ps, 4)>>, <<rk[2] \o " Post Code", Adr(ps, 6)>>, <<rk[2] \o " Country", Adr(ps, 7)>>,
      <<rk[2] \o " Tel", One(Tels(ps))>>, <<rk[2] \o " Fax", One(Faxes(ps))>>, <<rk[2] \o " Email", Text1(ps, "email")>>>>
Open(es) == \E i \in DOMAIN RoleKeys : LET ps == CardOf(es, RoleKeys[i][1]) IN
    Cardinality(Tels(ps)) > 1 \/ Cardinality(Faxes(ps)) > 1 \/ \E k \in 1..7 : Adr(ps, k) = "?"
Ids(es) == LET q == WithRole(es, "registrar")
               p == IF q = <<>> THEN <<>> ELSE SelectSeq(ListOf(q[1], "PublicIDs"), LAMBDA x : TextOf(x, "Type") = "IANA Registrar ID")
           IN [i \in DOMAIN p |-> <<"Registrar IANA ID", TextOf(p[i], "Identifier")>>]
KeyAll(key, vs) == [i \in DOMAIN vs |-> <<key, vs[i]>>]
WhoisPairs(o) ==
    LET es == ListOf(o, "Entities")
        ns == ListOf(o, "Nameservers")
        all == <<<<"Domain Name", TextOf(o, "LDHName")>>, <<"Handle", TextOf(o, "Handle")>>, <<"WHOIS Server", TextOf(o, "Port43")>>>>
               \o EventPairs(ListOf(o, "Events"))
               \o <<<<"Registrar", Text1(CardOf(es, "registrar"), "fn")>>>> \o Ids(es)
               \o KeyAll("Domain Status", ListOf(o, "Status"))
               \o Contact(es, RoleKeys[1]) \o Contact(es, RoleKeys[2]) \o Contact(es, RoleKeys[3]) \o Contact(es, RoleKeys[4])
               \o [i \in DOMAIN ns |-> <<"Name Server", TextOf(ns[i], "LDHName")>>]
    IN SelectSeq(all, LAMBDA x : x[2] # "")
\* grouped by key, keys in order of first appearance
RECURSIVE Group(_)
Group(ps) == IF ps = <<>> THEN <<>> ELSE
    LET k == ps[1][1]
        m == SelectSeq(ps, LAMBDA x : x[1] = k) IN
    <<<<k, [i \in DOMAIN m |-> m[i][2]]>>>> \o Group(SelectSeq(ps, LAMBDA x : x[1] # k))
Whois(o) == IF o.t = "Domain" THEN Group(WhoisPairs(o)) ELSE <<>>
WhoisOpen(o) == o.t = "Domain" /\ Open(ListOf(o, "Entities"))
=============================================================================
