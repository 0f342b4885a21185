------------------------------- MODULE MCFile -------------------------------
(* Incremental parsing of a document's services as a state machine (one step  *)
(* per service), checked against the declarative meaning for every document   *)
(* up to a bound; and every such document written out.                        *)
EXTENDS RegFile, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt
CONSTANTS MaxServices
Bad == {"http://[::1", "%zz", "http://a b/"}
EntryLists == {<<>>, <<"a">>, <<"a", "b">>, <<"b", "a", "a">>, <<"">>}
UrlLists == {<<>>, <<"https://x/">>, <<"https://x/", "https://y/">>, <<"%zz">>, <<"http://[::1", "https://y/">>, <<"https://y/", "http://a b/", "https://x/">>}
Two == {<<e, u>> : e \in EntryLists, u \in UrlLists}
Three == {<<<<"m@x">>, e, u>> : e \in {<<"a">>, <<"c", "a">>}, u \in UrlLists}
Odd == {<<>>, <<<<"a">>>>, <<<<"a">>, <<"https://x/">>, <<"https://y/">>, <<"https://x/">>>>}
Services == Two \cup Three \cup Odd
Docs == UNION {[1..n -> Services] : n \in 0..MaxServices}
        \cup {<<s, t, u>> : s, t, u \in {<<<<"a", "b">>, <<"https://x/">>>>, <<<<"b">>, <<"%zz">>>>, <<<<"b">>, <<"https://y/">>>>, <<<<"m">>, <<"a">>, <<"https://z/">>>>, <<<<"a">>>>}}
Names == <<"", "a", "b", "c", "m@x">>
Metas == <<"A description", "2024-08-23T20:00:01Z", "1.0">>
\* documents of a wrong shape, all to be rejected
RawDocs == {"", "{", "[]", "\"x\"", "{\"services\": {}}", "{\"services\": [1]}", "{\"services\": [[\"a\"]]}",
            "{\"services\": [[[\"a\"], \"https://x/\"]]}", "{\"services\": [[[1], [\"https://x/\"]]]}",
            "{\"services\": [[[\"a\"],[\"https://x/\"]]]", "{\"services\": [[[\"a\"],[\"https://x/\"]]]} x",
            "{\"version\": 1, \"services\": []}", "{\"description\": [], \"services\": []}", "<html></html>", " "}
ASSUME ndJsonSerialize(IOEnv.OUT,
    SetToSeq({[in |-> [services |-> d, meta |-> Metas], exp |-> FileExpect(d, Metas, Names)] : d \in Docs})
    \o SetToSeq({[in |-> [raw |-> r, services |-> <<>>, meta |-> Metas], exp |-> FileErr] : r \in RawDocs \ {""}}))

VARIABLES doc, pos, map, st
vars == <<doc, pos, map, st>>
Init == doc \in Docs /\ pos = 1 /\ map = [n \in {} |-> <<>>] /\ st = "parsing"
Step == /\ st = "parsing" /\ pos <= Len(doc)
        /\ IF Len(doc[pos]) \notin {2, 3} THEN st' = "err" /\ UNCHANGED <<pos, map>>
           ELSE /\ pos' = pos + 1 /\ UNCHANGED st
                /\ LET u == UrlsOf(doc[pos]) es == {EntriesOf(doc[pos])[i] : i \in DOMAIN EntriesOf(doc[pos])}
                   IN map' = IF u = <<>> THEN map ELSE [n \in DOMAIN map \cup es |-> IF n \in es THEN u ELSE map[n]]
        /\ UNCHANGED doc
Finish == st = "parsing" /\ pos > Len(doc) /\ st' = "ok" /\ UNCHANGED <<doc, pos, map>>
Next == Step \/ Finish
Correct == LET e == FileExpect(doc, Metas, Names) IN
    /\ st = "err" => e.st = "err"
    /\ st = "ok" => /\ e.st = "ok" /\ {e.entries[i].entry : i \in DOMAIN e.entries} = DOMAIN map
                    /\ \A i \in DOMAIN e.entries : map[e.entries[i].entry] = e.entries[i].urls
=============================================================================
