------------------------------- MODULE MCCli --------------------------------
(* Command lines, worlds and what must hold of every specified outcome.       *)
(* PROP selects the family; TLC writes the runs, to be executed by the real   *)
(* client and judged by TrCli.                                                *)
EXTENDS CliRun, IOUtils, SequencesExt
Prop == IOEnv.PROP
Full == IOEnv.TIER = "thorough"
Host(n, out, cert) == [host |-> n, out |-> out, cert |-> cert]
World == <<Host("s1.example", "dom", "good"), Host("s2.example", "500", "good"), Host("s3.example", "ent", "good"), Host("data.iana.org", "boot", "good"),
           Host("test.rdap.net", "boot", "good"), Host("bs1.example", "boot", "good"), Host("bs2.example", "boot", "good"), Host("rdap.example", "ip", "good"), Host("192.0.2.9", "dom", "good")>>
Run(args) == [proc |-> 1, args |-> args, sandbox |-> FALSE, now |-> 0, xdg |-> "", servers |-> <<"https://s1.example/rdap/">>, hosts |-> World, body |-> <<>>, pre |-> <<>>]
With(w, n, out, cert) == [i \in DOMAIN w |-> IF w[i].host = n THEN Host(n, out, cert) ELSE w[i]]
Mem == <<"--cache-dir", "">>

-----------------------------------------------------------------------------
\* C27: every pair of option spellings with several queries; every set of formats with every outcome
Chunks == {<<>>, <<"-h">>, <<"--help">>, <<"-V">>, <<"--version">>, <<"-v">>, <<"--verbose">>, <<"--no-verbose">>, <<"-k">>, <<"--text">>, <<"-w">>, <<"--json">>, <<"-r">>, <<"-vj">>, <<"-rjw">>,
    <<"-T", "5">>, <<"-T5">>, <<"--timeout=5">>, <<"--timeout=x">>, <<"--timeout=65536">>, <<"--timeout", "-5">>, <<"-T">>, <<"--timeout=">>, <<"--bs-ttl=4294967295">>, <<"--bs-ttl=4294967296">>, <<"--bs-ttl=1.5">>,
    <<"-t", "domain">>, <<"-tdns">>, <<"--type=planet">>, <<"--type=ip">>, <<"--type=asn">>, <<"--type=help">>, <<"-t", "url">>, <<"--type=Domain">>, <<"-s", "https://s1.example/">>, <<"--server=%zz">>, <<"--server=foo bar">>, <<"--server=127.0.0.1:80">>,
    <<"--server=https://s2.example">>, <<"--server", "http://nowhere.example/">>, <<"--exp=bogus">>, <<"--exp=object_tag">>, <<"-e">>, <<"--exp", "test_rdap_net">>, <<"-f", "all">>, <<"--fetch=none">>, <<"--bs-url=%zz">>,
    <<"--bs-url=https://bs1.example/x">>, <<"--bs-url=http://down.example/">>, <<"--bogus">>, <<"-x">>, <<"--cert={P}/client1.pem">>, <<"--p12={P}/garbage">>, <<"--p12={P}/none:x">>, <<"-C{P}/client1.pem", "-K{P}/client1.key">>, <<"--cache-dir={D}/c/d">>, <<"--cache-dir={P}/garbage">>, <<"--json", "--json">>, <<"-s">>}
Queries == {<<>>, <<"x.example">>, <<"x.nowhere">>, <<"--", "x.example">>, <<"192.0.2.1">>, <<"AS64500">>, <<"H-TEST">>, <<"https://s1.example/rdap/domain/x">>}
Busy == {<<"-v">>, <<"-rjw">>, <<"--server=https://s2.example">>, <<"--type=ip">>, <<"-s", "https://s1.example/">>, <<"--json">>, <<"--cert={P}/client1.pem">>, <<"-V">>, <<"-h">>, <<"--bs-url=http://down.example/">>}
\* ("--" behind combined short options is left open)
Sane(args) == ~\E i \in DOMAIN args : args[i] = "--" /\ \E j \in 1..(i - 1) : args[j] \in {"-vj", "-rjw"}
Pairs27 == {Run((IF \E i \in DOMAIN (a \o b) : Starts((a \o b)[i], "--cache-dir") THEN <<>> ELSE Mem) \o a \o q \o b) :
            a \in Chunks, b \in (IF Full THEN Chunks ELSE Busy), q \in (IF Full THEN Queries ELSE {<<>>, <<"x.example">>, <<"https://s1.example/rdap/domain/x">>})}
           \cup {Run((IF \E i \in DOMAIN a : Starts(a[i], "--cache-dir") THEN <<>> ELSE Mem) \o a \o q) : a \in Chunks, q \in Queries}
FormatSets == {<<>>, <<"-w">>, <<"-j">>, <<"-r">>, <<"--text">>, <<"-wj">>, <<"-wr">>, <<"-w", "--text">>, <<"-rj">>, <<"--json", "--text">>, <<"-r", "--text">>, <<"-jrw">>, <<"-wr", "--text">>, <<"--text", "-wj">>, <<"-rj", "--text">>, <<"-jwr", "--text">>}
OutsNow == (Lib!Main \ {"timeouterr"}) \cup {"domws", "rerrnull", "rerrstr", "rerr404", "bom", "twice", "d206", "d301", "d304", "d403", "e400"}
Outs27 == {[Run(Mem \o f \o v \o <<"x.example">>) EXCEPT !.hosts = With(World, "s1.example", o, "good")] : f \in FormatSets, v \in {<<>>, <<"-v">>}, o \in OutsNow}
          \cup {[Run(Mem \o f \o <<"x.example">>) EXCEPT !.hosts = With(World, "data.iana.org", o, "good")] : f \in {<<>>, <<"-v">>, <<"-j">>}, o \in {"boot500", "bootbad", "bootcut", "neterr"}}
          \cup {[Run(Mem \o f \o <<"x.example">>) EXCEPT !.servers = s] : f \in {<<>>, <<"-v">>, <<"-j">>}, s \in {<<>>, <<"http://nowhere.example/">>, <<"https://s2.example/">>, <<"https://s2.example/", "https://s3.example/x">>}}

-----------------------------------------------------------------------------
\* C28: bodies and failover
Ascii(t) == [i \in 1..Len(t) |-> Ord(At(t, i)) - 1]
Bodies == {Ascii("{\"objectClassName\":\"domain\",\"handle\":\"H\"}"), Ascii("\n  {\t\"handle\" : \"a \\\" b\\\\\" ,\r\n \"objectClassName\" : \"domain\" , \"x\" : [ ] , \"y\" : { } }\n\n"),
    Ascii("{\"objectClassName\":\"domain\",\"n\":[1,-0.5e+10,1E+300,[],{},[[]],{\"a\":{}}],\"t\":true,\"f\":false,\"z\":null}"),
    Ascii("{\"objectClassName\":\"domain\",\"a\":\"<&>\\u003c\\u2028\\ud83d\",\"a\":\"%s %d %!\"}"),
    Ascii("{\"objectClassName\":\"domain\",\"") \o <<195, 169, 226, 128, 168, 240, 159, 152, 128>> \o Ascii("\":\"") \o <<255, 254, 237, 160, 128>> \o Ascii("\"}"),
    Ascii(" {\"objectClassName\":\"domain\"}")}
\* @BIG@ stands for a string of 11 MB
Large == Ascii("{ \"x\" : \"@BIG@\", \"objectClassName\":\"domain\", \"handle\" :\"H\" }\n")
Flows == {<<"body">>, <<"500", "body">>, <<"d500", "body">>, <<"html", "body">>, <<"cut", "body">>, <<"neterr", "body">>, <<"partial", "empty", "body">>, <<"badclass", "204", "body">>,
          <<"d403", "array", "body">>, <<"body", "dom">>, <<"body", "500">>, <<"500", "body", "dom">>, <<"nf", "body">>, <<"500", "500">>, <<"e400", "body", "d500">>, <<"d301", "body">>}
Names28 == <<"s1.example", "s2.example", "s3.example">>
RECURSIVE Place(_, _, _)
Place(w, flow, i) == IF i > Len(flow) THEN w ELSE Place(With(w, Names28[i], flow[i], "good"), flow, i + 1)
All28 == {[Run(Mem \o f \o <<"x.example">>) EXCEPT !.body = b, !.hosts = Place(World, flow, 1), !.servers = [i \in DOMAIN flow |-> "https://" \o Names28[i] \o "/r"]] :
          f \in {<<"-r">>, <<"-j">>, <<"-rj">>}, b \in Bodies, flow \in Flows}
         \cup {[Run(Mem \o f \o <<"x.example">>) EXCEPT !.body = Large, !.hosts = Place(World, flow, 1), !.servers = [i \in DOMAIN flow |-> "https://" \o Names28[i] \o "/r"]] :
          f \in {<<"-r">>, <<"-j">>, <<"-rj">>}, flow \in {<<"body">>, <<"500", "body">>}}

-----------------------------------------------------------------------------
\* C29: types, queries, servers and bootstrap services
Types29 == {<<>>} \cup {<<"-t", t>> : t \in DOMAIN TypeOf}
Queries29 == {"x.example", "EXAMPLE", "1.2.3.4", "10.0.0.0/8", "10.1.2.3/8", "2001:db8::1", "2001:DB8:0:0::1", "2001:db8::/32", "AS64500", "as1", "64500", "0", "4294967295", "4294967296", "AS007", "H-TEST", "h test", "a/b", "a?b=c", "a&b", "a#b", "100%",
              "http://s1.example/x?y=z", "https://s1.example", "HTTPS://s1.example/r/domain/a.b", "x*", "ns1.x.example", "", "+1", "a+b", "%2e", "ASxyz", "1.2.3", "-5", "::ffff:1.2.3.4", "ASAS5", "S5", "SA5", "As5", "AS-1", "AS+1", "5AS", "01.2.3.4", "1.2.3.4/33", "::", "AS", "[2001:db8::1]", "192.0.2.1/24", "fe80::1%eth0", "1.2.3.4 ", " 5", "0x5", "1_0", "1.2.3.4:80", "::1.2.3.4", "ns1"}
Servers29 == {"https://s1.example/rdap/", "http://s1.example", "s1.example", "s1.example/rdap/x", "//s1.example/y/", "https://s1.example/a%20b?k=v&name=w", "https://s1.example:443/p"}
Services29 == {<<>>, <<"--bs-url=https://bs1.example/r">>, <<"--bs-url", "http://bs2.example/a/b/">>, <<"-e">>, <<"--exp=test_rdap_net">>, <<"-e", "--bs-url=https://bs1.example/">>, <<"--bs-url=https://bs1.example/a%2Fb">>, <<"--bs-url=https://bs1.example/a%2Fb/">>, <<"--bs-url=https://bs1.example/a%20b/c">>}
\* (a query text beginning with "-" is written behind "--")
Ask(q) == IF Starts(q, "-") THEN <<"--", q>> ELSE <<q>>
All29 == {Run(Mem \o t \o <<"-s", s>> \o Ask(q)) : t \in Types29, q \in Queries29, s \in (IF Full THEN Servers29 ELSE {"https://s1.example/rdap/"})}
         \cup {Run(Mem \o t \o <<"--server=" \o s>> \o Ask(q)) : t \in {<<>>, <<"--type=entity">>, <<"--type=nameserver-search">>, <<"--type=help">>}, q \in {"x.example", "a b", "1.2.3.4"}, s \in Servers29}
         \cup {Run(Mem \o t \o <<"-s", s>> \o Ask(q)) : t \in {<<>>, <<"-t", "domain">>}, q \in Queries29, s \in {"s1.example"}}
         \cup {Run(Mem \o t \o Ask(q)) : t \in Types29, q \in {"x.example", "sub.x.example", "x.nowhere", "1.2.3.4", "10.0.0.0/8", "2001:db8::1", "AS64500", "64500", "H-TEST", "H-NOPE", "s1.example/x", "//s1.example/x", "", "http://s1.example/x?y=z", "https://s1.example", "https://s1.example/r/domain/a.b#f"}}
         \cup {[Run(Mem \o b \o t \o <<q>>) EXCEPT !.servers = <<"https://s2.example/x", "http://s3.example/">>] : b \in Services29, t \in {<<>>, <<"-tdomain">>, <<"--type", "entity">>}, q \in {"x.example", "1.2.3.4", "2001:db8::1", "AS5", "H-TEST"}}
         \cup {[Run(Mem \o <<"x.example">>) EXCEPT !.hosts = With(With(World, "s1.example", "redir:http://s3.example/there?a=b", "good"), "s3.example", o, "good")] : o \in {"dom", "500", "nf", "redir:https://rdap.example/again"}}
         \cup {Run(<<q, "-s", s, "-t" \o t>> \o Mem) : t \in {"domain", "asn", "ns", "entity-search-by-handle"}, q \in {"x.example", "AS5"}, s \in {"https://s1.example", "s1.example/z"}}

-----------------------------------------------------------------------------
\* C30: file options, in and out of sandbox mode
Files30 == {<<>>, <<"--p12={P}/secret.p12:s:cret">>, <<"-P", "{P}/nopass.p12">>, <<"--p12=DigiCert_RDAP_Pilot_Client_Certificate.p12:rdap">>, <<"--p12=DigiCert_RDAP_Pilot_Client_Certificate_Expired.p12:rdap">>,
    <<"--p12=DigiCert_RDAP_Pilot_Client_Certificate_Revoked.p12:rdap">>, <<"--p12=DigiCert_RDAP_Pilot_Client_Certificate.p12:wrong">>, <<"--p12=DigiCert_RDAP_Pilot_Client_Certificate.p12">>,
    <<"--p12=../sandbox/DigiCert_RDAP_Pilot_Client_Certificate.p12:rdap">>, <<"--p12=./DigiCert_RDAP_Pilot_Client_Certificate.p12:rdap">>, <<"--p12=/DigiCert_RDAP_Pilot_Client_Certificate.p12:rdap">>,
    <<"--p12=file.go">>, <<"--p12=../go.mod">>, <<"--p12={D}/mine/f">>, <<"--p12=../mine/f:x">>, <<"--p12=digicert_rdap_pilot_client_certificate.p12:rdap">>, <<"--p12=DigiCert_RDAP_Pilot_Client_Certificate.p12/:rdap">>, <<"--p12=:rdap">>,
    <<"--cert={P}/client1.pem", "--key={P}/client1.key">>, <<"-C", "{D}/mine/f", "-K", "{D}/mine/f">>, <<"--cert={D}/mine/f">>, <<"--key={P}/client1.key">>, <<"--cert={P}/client1.pem", "--key={P}/client2.key">>,
    <<"--cert={P}/client1.pem", "--key={P}/client1.key", "--p12={P}/nopass.p12">>, <<"--cert=DigiCert_RDAP_Pilot_Client_Certificate.p12", "--key=DigiCert_RDAP_Pilot_Client_Certificate.p12">>,
    <<"--server=@{D}/mine/f">>, <<"--server", "https://s1.example/", "-v">>}
Dirs30 == {<<>>, <<"--cache-dir=">>, <<"--cache-dir", "{D}/mine/cache">>, <<"--cache-dir={D}/mine/f">>, <<"--cache-dir=rel/c">>, <<"--cache-dir=../mine/c2">>, <<"--cache-dir={D}/home/.cache/openrdap/../../evil">>, <<"--cache-dir={D}/xdg/openrdap">>, <<"--cache-dir=.">>, <<"--cache-dir", " x ">>, <<"--cache-dir=$HOME/c">>, <<"--cache-dir=~/c">>, <<"--cache-dir={D}/mine/a b">>, <<"--cache-dir=%s">>}
\* (only in sandbox mode, where they are refused)
At30 == {<<"@{D}/mine/f">>, <<"-v", "@{D}/mine/f">>, <<"--server", "@{D}/mine/f">>, <<"-T", "@{P}/client1.key">>, <<"-vjr", "--", "@{D}/mine/f">>}
Mine == <<<<"file", "{D}/mine/f">>>>
Sb(r, how) == IF how = "caller" THEN [r EXCEPT !.sandbox = TRUE] ELSE IF how = "exp" THEN [r EXCEPT !.args = <<"--exp=sandbox">> \o @] ELSE IF how = "exp2" THEN [r EXCEPT !.args = @ \o <<"--exp", "sandbox">>]
    ELSE IF how = "many" THEN [r EXCEPT !.args = <<"-e", "--exp=sandbox">> \o @] ELSE IF how = "many2" THEN [r EXCEPT !.args = <<"--exp=sandbox", "--exp=test_rdap_net">> \o @]
    ELSE IF how = "many3" THEN [r EXCEPT !.args = <<"--exp=object_tag", "--exp=sandbox">> \o @ \o <<"-e">>] ELSE r
All30 == {Sb([Run(d \o f \o <<"x.example">>) EXCEPT !.pre = Mine, !.xdg = x], how) : f \in Files30, d \in Dirs30, x \in (IF Full THEN {"", "{D}/xdg", "rel"} ELSE {""}), how \in {"caller", "exp", "no"}}
         \cup {Sb([Run(d \o <<"--p12={P}/nopass.p12">> \o <<"x.example">>) EXCEPT !.pre = Mine, !.xdg = x], how) : d \in Dirs30, x \in {"{D}/xdg", "rel"}, how \in {"caller", "exp2"}}
         \cup {Sb([Run(d \o f \o <<"x.example">>) EXCEPT !.pre = Mine], how) : d \in Dirs30, how \in {"many", "many2", "many3"}, f \in {<<>>, <<"--cert={P}/client1.pem", "--key={P}/client1.key">>, <<"--p12={P}/nopass.p12">>, <<"-P", "DigiCert_RDAP_Pilot_Client_Certificate.p12:rdap">>}}
         \cup {Sb([Run(a \o d \o <<"x.example">>) EXCEPT !.pre = Mine], how) : a \in At30, d \in {<<>>, <<"--cache-dir=">>}, how \in {"caller", "exp"}}
         \cup {[Run(a \o b \o <<"x.example">> \o c) EXCEPT !.pre = Mine] : a \in {<<>>, <<"-v">>}, b \in {x \o <<"@{D}/mine/f">> : x \in {<<>>, <<"--server">>}}, c \in {<<"--exp", "sandbox">>, <<"--exp=object_tag", "--exp", "sandbox">>}}
         \cup {[Run(c \o b \o <<"x.example">>) EXCEPT !.pre = Mine] : b \in {<<"@{D}/mine/f">>, <<"--server", "@{D}/mine/f">>}, c \in {<<"--exp", "sandbox">>, <<"--exp", "sandbox", "--exp=bogus">>}}

-----------------------------------------------------------------------------
\* C31: certificates
Certs31 == {"good", "wronghost", "untrusted", "expired", "future", "self"}
Client31 == {<<>>, <<"--cert={P}/client1.pem", "--key={P}/client1.key">>, <<"-C{P}/client2.pem", "-K", "{P}/client2.key">>, <<"--p12={P}/secret.p12:s:cret">>, <<"-P{P}/nopass.p12">>, <<"--p12={P}/nopass.p12:">>,
    <<"--cert={P}/client1.pem">>, <<"--key={P}/client1.key">>, <<"--cert={P}/client1.pem", "--key={P}/client2.key">>, <<"--cert={P}/garbage", "--key={P}/client1.key">>, <<"--cert={P}/none", "--key={P}/none">>,
    <<"--p12={P}/secret.p12">>, <<"--p12={P}/secret.p12:s">>, <<"--p12={P}/nokey.p12">>, <<"--p12={P}/mismatch.p12">>, <<"--p12={P}/garbage">>, <<"--p12={P}/none">>, <<"--p12={P}/secret.p12:s:cret", "--cert={P}/client1.pem", "--key={P}/client1.key">>, <<"--p12={P}/nopass.p12", "--key={P}/client1.key">>,
    <<"--cert=", "--key=">>, <<"--p12=">>, <<"--cert={P}/client1.pem", "--key=">>}
Ways31 == {<<"x.example">>, <<"--server=https://s1.example/", "x.y">>, <<"https://s1.example/r/domain/x">>, <<"--server=http://s1.example/", "x.y">>, <<"--bs-url=http://bs1.example/", "x.example">>}
All31 == {[Run(Mem \o k \o w) EXCEPT !.hosts = With(With(With(World, "s1.example", "dom", a), "data.iana.org", "boot", b), "bs1.example", "boot", b)] : a \in Certs31, b \in (IF Full THEN Certs31 ELSE {"good", "self", "expired", "wronghost"}), k \in {<<>>, <<"-k">>, <<"--insecure">>, <<"--no-insecure">>}, w \in Ways31}
         \cup {[Run(Mem \o k \o c \o w) EXCEPT !.hosts = With(World, "s1.example", "dom", a)] : a \in {"good", "self"}, c \in Client31, k \in {<<>>, <<"-k">>}, w \in Ways31}
         \cup {[Run(Mem \o k \o <<"x.example">>) EXCEPT !.servers = <<"https://s2.example/", "https://s1.example/", "http://s3.example/">>, !.hosts = With(With(World, "s2.example", "dom", a), "s1.example", "dom", b)] : a \in Certs31, b \in Certs31, k \in {<<>>, <<"-k">>}}
         \cup {[Run(Mem \o k \o c \o <<"x.example">>) EXCEPT !.servers = <<s>>, !.hosts = With(With(World, "s1.example", "redir:https://s3.example/y", "good"), "s3.example", "dom", a)] :
               a \in Certs31, k \in {<<>>, <<"-k">>}, c \in {<<>>, <<"-P{P}/nopass.p12">>}, s \in {"https://s1.example/", "http://s1.example/"}}

         \* servers named by address, and the sandbox mode
         \cup {[Run(Mem \o k \o w) EXCEPT !.sandbox = sb, !.servers = <<"https://192.0.2.9/r">>, !.hosts = With(With(World, "192.0.2.9", "dom", a), "s1.example", "dom", a)] :
               a \in Certs31, k \in {<<>>, <<"-k">>}, sb \in BOOLEAN, w \in {<<"x.example">>, <<"--server=https://192.0.2.9/", "x.y">>, <<"https://192.0.2.9/r/domain/x">>, <<"--server=https://s1.example/", "x.y">>,
                    <<"--type=help", "--server=https://192.0.2.9">>}}
         \cup {[Run(Mem \o k \o <<"--bs-url=https://192.0.2.9/", "x.example">>) EXCEPT !.sandbox = sb, !.hosts = With(World, "192.0.2.9", "boot", a)] : a \in Certs31, k \in {<<>>, <<"-k">>}, sb \in BOOLEAN}
-----------------------------------------------------------------------------
\* C34: the time limit, with slow and hanging servers
Slow34 == {<<b, flow, t>> : b \in {"boot", "bootslow", "boothang"}, t \in {<<>>, <<"-T", "0">>, <<"-T", "1">>, <<"-T2">>, <<"--timeout=9">>},
    flow \in {<<"dom">>, <<"slow">>, <<"hang">>, <<"slow500", "dom">>, <<"slow500", "slow500", "dom">>, <<"500", "hang">>, <<"hang", "dom">>, <<"neterr", "slow">>}}
\* (a hanging server makes the default limit of 30 s run out: once is enough)
All34 == {[Run(Mem \o x[3] \o <<"x.example">>) EXCEPT !.hosts = With(Place(World, x[2], 1), "data.iana.org", x[1], "good"), !.servers = [i \in DOMAIN x[2] |-> "https://" \o Names28[i] \o "/r"]] :
          x \in {y \in Slow34 : y[3] # <<>> \/ ("hang" \notin {y[2][i] : i \in DOMAIN y[2]} /\ y[1] # "boothang") \/ y \in {<<"boothang", <<"dom">>, <<>>>>, <<"boot", <<"hang">>, <<>>>>}}}
-----------------------------------------------------------------------------
\* C27, with the file options
More27 == {Run(Mem \o v \o c \o <<"x.example">>) : v \in {<<>>, <<"-v">>}, c \in Client31}
          \cup {Sb([Run(d \o f \o <<"x.example">>) EXCEPT !.pre = Mine], how) : f \in Files30, d \in {Mem, <<"--cache-dir={D}/mine/f">>, <<"--cache-dir", "{D}/mine/cache">>}, how \in {"caller", "exp2"}}
          \cup {Sb([Run(a \o <<"x.example">>) EXCEPT !.pre = Mine], how) : a \in At30, how \in {"caller", "exp"}}
          \cup {[Run(d \o <<"x.example">>) EXCEPT !.pre = Mine, !.xdg = x] : d \in Dirs30, x \in {"", "{D}/xdg", "rel"}}
Runs == CASE Prop = "C34" -> All34 [] Prop = "C27" -> {r \in Pairs27 : Sane(r.args)} \cup Outs27 \cup More27 [] Prop = "C28" -> All28 [] Prop = "C29" -> All29 [] Prop = "C30" -> All30 [] Prop = "C31" -> All31
\* what must hold of every outcome, whatever its details
None == [files |-> {}, blocked |-> {}]
Holds(r) ==
    LET o == Outcome(r, None) p == Parsed(r.args) e == p.els IN
    /\ (o.exit = 0) = (o.kind \in {"printed", "version"})
    /\ o.kind \in {"misuse", "usage", "version"} => o.reqs = <<>>
    /\ o.kind = "printed" => o.reqs # <<>>
    /\ p.kind = "run" /\ Sandboxed(r, e) => CacheDir(r, e) \in {"", DefaultDir(r)} /\ o.cert \in {Builtin[f] : f \in DOMAIN Builtin} \cup {""}
    /\ \A i \in DOMAIN o.reqs : Starts(o.reqs[i].url, "https:") /\ ~IsOn(e, "insecure") => r.hosts[CHOOSE k \in At_(r, o.reqs[i].url) : TRUE].cert = "good"
    /\ o.cert # "" => Given(e, "cert") \cup Given(e, "p12") # {}
    /\ Value(e, "cache-dir", "default") = "" => o.fs.files = {}
ASSUME \A r \in Runs : Holds(r)
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Runs))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
