----------------------------- MODULE RdapSchema -----------------------------
(* The RDAP objects: for every object type its known members, the Go field    *)
(* each is stored in, and that field's type.                                  *)
EXTENDS TLC
S_(go) == <<go, <<"str">>>>
L_(go) == <<go, <<"strs">>>>
U_(go, max) == <<go, <<"uint", max>>>>
B_(go) == <<go, <<"bool">>>>
O_(go, t) == <<go, <<"obj", t>>>>
Os_(go, t) == <<go, <<"objs", t>>>>
MaxU8 == "255"
MaxU16 == "65535"
MaxU32 == "4294967295"
MaxU64 == "18446744073709551615"
LangF == [lang |-> S_("Lang")]
Top == LangF @@ [rdapConformance |-> L_("Conformance"), notices |-> Os_("Notices", "Notice")]
Obj == Top @@ [objectClassName |-> S_("ObjectClassName"), handle |-> S_("Handle"), status |-> L_("Status"), entities |-> Os_("Entities", "Entity"),
       remarks |-> Os_("Remarks", "Remark"), links |-> Os_("Links", "Link"), port43 |-> S_("Port43"), events |-> Os_("Events", "Event")]
Names2 == [ldhName |-> S_("LDHName"), unicodeName |-> S_("UnicodeName")]
NoticeF == [title |-> S_("Title"), type |-> S_("Type"), description |-> L_("Description"), links |-> Os_("Links", "Link")]
Schema == [
  Link |-> [value |-> S_("Value"), rel |-> S_("Rel"), href |-> S_("Href"), hreflang |-> L_("HrefLang"), title |-> S_("Title"), media |-> S_("Media"), type |-> S_("Type")],
  Notice |-> NoticeF, Remark |-> NoticeF,
  Event |-> [eventAction |-> S_("Action"), eventActor |-> S_("Actor"), eventDate |-> S_("Date"), links |-> Os_("Links", "Link")],
  PublicID |-> [type |-> S_("Type"), identifier |-> S_("Identifier")],
  Autnum |-> Obj @@ [startAutnum |-> U_("StartAutnum", MaxU32), endAutnum |-> U_("EndAutnum", MaxU32), ipVersion |-> S_("IPVersion"), name |-> S_("Name"),
                     type |-> S_("Type"), country |-> S_("Country")],
  Domain |-> Obj @@ Names2 @@ [variants |-> Os_("Variants", "Variant"), nameservers |-> Os_("Nameservers", "Nameserver"), secureDNS |-> O_("SecureDNS", "SecureDNS"),
                     publicIds |-> Os_("PublicIDs", "PublicID"), network |-> O_("Network", "IPNetwork")],
  Variant |-> LangF @@ [relation |-> L_("Relation"), idnTable |-> S_("IDNTable"), variantNames |-> Os_("VariantNames", "VariantName")],
  VariantName |-> LangF @@ Names2,
  SecureDNS |-> LangF @@ [zoneSigned |-> B_("ZoneSigned"), delegationSigned |-> B_("DelegationSigned"), maxSigLife |-> U_("MaxSigLife", MaxU64),
                     dsData |-> Os_("DS", "DSData"), keyData |-> Os_("Keys", "KeyData")],
  DSData |-> LangF @@ [keyTag |-> U_("KeyTag", MaxU64), algorithm |-> U_("Algorithm", MaxU8), digest |-> S_("Digest"), digestType |-> U_("DigestType", MaxU8),
                     events |-> Os_("Events", "Event"), links |-> Os_("Links", "Link")],
  KeyData |-> [flags |-> U_("Flags", MaxU16), protocol |-> U_("Protocol", MaxU8), algorithm |-> U_("Algorithm", MaxU8), publicKey |-> S_("PublicKey"),
                     events |-> Os_("Events", "Event"), links |-> Os_("Links", "Link")],
  Entity |-> Obj @@ [vcardArray |-> <<"VCard", <<"vcard">>>>, roles |-> L_("Roles"), publicIds |-> Os_("PublicIDs", "PublicID"),
                     asEventActor |-> Os_("AsEventActor", "Event"), networks |-> Os_("Networks", "IPNetwork"), autnums |-> Os_("Autnums", "Autnum")],
  Error |-> Top @@ [errorCode |-> U_("ErrorCode", MaxU16), title |-> S_("Title"), description |-> L_("Description")],
  Help |-> Top,
  IPNetwork |-> Obj @@ [startAddress |-> S_("StartAddress"), endAddress |-> S_("EndAddress"), ipVersion |-> S_("IPVersion"), name |-> S_("Name"), type |-> S_("Type"),
                     country |-> S_("Country"), parentHandle |-> S_("ParentHandle")],
  Nameserver |-> Obj @@ Names2 @@ [ipAddresses |-> O_("IPAddresses", "IPAddressSet")],
  IPAddressSet |-> LangF @@ [v6 |-> L_("V6"), v4 |-> L_("V4")],
  DomainSearchResults |-> Top @@ [domainSearchResults |-> Os_("Domains", "Domain")],
  NameserverSearchResults |-> Top @@ [nameserverSearchResults |-> Os_("Nameservers", "Nameserver")],
  EntitySearchResults |-> Top @@ [entitySearchResults |-> Os_("Entities", "Entity")]
]
ASSUME \A t \in DOMAIN Schema : \A m, n \in DOMAIN Schema[t] : m # n => Schema[t][m][1] # Schema[t][n][1]   \* no two members share a Go field
=============================================================================
