------------------------------- MODULE MCJson -------------------------------
(* Texts around JSON documents: every document of the set and every text one  *)
(* edit away from it (a byte replaced, inserted, removed, the end cut off or  *)
(* continued). Checked: writing and parsing are inverse. The texts are        *)
(* written out as cases.                                                      *)
EXTENDS RdapDecode, JsonText, IOUtils, SequencesExt
CONSTANTS Subs        \* bytes tried at every position
s_(x) == <<"s", x>>
Docs == {
  <<"o", <<>>>>, <<"z">>, <<"a", <<>>>>, <<"b", TRUE>>, <<"n", "1">>, s_("x"),
  <<"o", <<<<"objectClassName", s_("domain")>>>>>>, <<"o", <<<<"objectClassName", s_("ip network")>>>>>>,
  <<"o", <<<<"errorCode", <<"n", "404">>>>>>>>, <<"o", <<<<"objectClassName", <<"a", <<<<"z">>, <<"n", "-1.5e2">>, s_("a\"b")>>>>>>>>>>,
  <<"o", <<<<"a", <<"o", <<<<"b", <<"b", FALSE>>>>>>>>>>, <<"entitySearchResults", <<"a", <<>>>>>>>>>> }
Edits(t) == {t} \cup {SubSeq(t, 1, i) : i \in 0..Len(t)} \cup {SubSeq(t, i, Len(t)) : i \in 1..Len(t)}
    \cup {[t EXCEPT ![i] = b] : i \in DOMAIN t, b \in Subs}
    \cup {SubSeq(t, 1, i) \o <<b>> \o SubSeq(t, i + 1, Len(t)) : i \in 0..Len(t), b \in Subs}
    \cup {SubSeq(t, 1, i - 1) \o SubSeq(t, i + 1, Len(t)) : i \in DOMAIN t}
    \cup {t \o t, t \o <<10>> \o t, <<239, 187, 191>> \o t}
Texts == UNION {Edits(Write(d)) : d \in Docs}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({[in |-> [raw |-> x]] : x \in Texts}))
VARIABLE doc
Init == doc \in Docs
Next == UNCHANGED doc
RoundTrip == LET r == Parse(Write(doc)) IN r.ok /\ r.v = doc
\* no proper prefix of an object's text is a JSON text
NoPrefix == doc[1] = "o" => \A i \in 0..(Len(Write(doc)) - 1) : ~Parse(SubSeq(Write(doc), 1, i)).ok
=============================================================================
