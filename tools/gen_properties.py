#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

BC = ["bootstrap/client.go", "bootstrap/cache/disk_cache.go", "bootstrap/cache/memory_cache.go"]
OBS = ["bootstrap.Client.Lookup/Download/accessors (return values)", "HTTP requests seen by the bootstrap client's RoundTripper", "files in the cache directory"]

prop("C01", "Bootstrap answers never come from an expired or missing registry file",
 "A bootstrap lookup never answers from a Service Registry file that was saved longer ago than the cache timeout, nor from one that is no longer in the cache. If the cached copy is expired or missing the lookup downloads the file again, and then answers from that download or returns an error. This holds for a long-lived client with its own in-memory copy just as for a new one, for the memory and the disk cache, and after the timeout is changed.",
 ["histories", "configurations", "fault_sequences"],
 "every history of lookups, downloads, accessor calls, clock advances, file deletions, corruptions, timeout changes and other clients' saves, with either cache, and every pattern of download failures",
 "Expiry needs hours to pass; the tests make one or two calls on one client and never let a file expire, so no history in which a held registry outlives its file is reached.",
 BC, [("state decides between reuse, reload and download", "bootstrap/client.go Lookup"), ("expiry from mtime and timeout", "bootstrap/cache/*_cache.go State")],
 [("registries", "parsed registry held by the client", "bootstrap/client.go Client"), ("mtime / lastLoadedModTime", "when the cached file was saved, and which version was loaded", "bootstrap/cache")], OBS)

prop("C02", "A fresh cached registry file is used without touching the network",
 "While a valid, unexpired copy of the needed Service Registry file is in the cache - including one saved to the same cache directory by another client or an earlier process, and one that the cache object held before the client used it - lookups make no network request. Any lookup makes at most one request, a forced download exactly one, and the registry accessors never make any.",
 ["histories", "configurations", "fault_sequences"],
 "every history of operations by several clients sharing (or not sharing) a cache directory, with restarts, for each registry type and cache kind",
 "The tests count no requests; needless downloads are invisible to assertions on answers, and appear only over histories (second client, restart, accessor then lookup).",
 BC, [("only Download/Lookup fetch", "bootstrap/client.go Lookup, DownloadWithContext"), ("accessors only reload from cache", "bootstrap/client.go freshenFromCache")],
 [("cache state", "Absent/Good/ShouldReload/Expired", "bootstrap/cache State")], OBS)

prop("C03", "A failed download changes neither the cache nor the registry in use",
 "If downloading a Service Registry file fails - transport error, status other than 200, body cut short, malformed document, or inability to save it - the call returns an error, and every cached file and every registry held by the client is exactly as before. A malformed document is never cached, and a later successful download works normally.",
 ["fault_sequences", "histories"],
 "every sequence of download faults interleaved with successful operations, for each registry type and cache kind",
 "The tests contain no failing download at all.",
 BC, [("parse before save, save before publish", "bootstrap/client.go download, DownloadWithContext")],
 [("registries", "parsed registry held by the client", "bootstrap/client.go Client")], OBS)

prop("C04", "Clients sharing a cache directory pick up newer files and shed bad ones",
 "When another client saves a newer registry file in a shared cache directory, the next lookup or accessor call of every other client uses that newer content, also when the replacement happens while the file is being loaded. A cached file that is corrupt, truncated by a crash or unreadable is never used for an answer: the next lookup downloads and replaces it, and an accessor keeps returning the last good registry.",
 ["schedules", "crash_points", "histories"],
 "every interleaving of two clients' operations on one directory, every truncation point of an interrupted save, any corruption, and replacement between the steps of a load",
 "One test shares a directory between two cache objects in one fixed order; corruption, truncation, and replacement during a load are not tested.",
 BC, [("mtime compared with the version last loaded", "bootstrap/cache/disk_cache.go Load, Save, State"), ("re-download when a reload fails", "bootstrap/client.go Lookup")],
 [("lastLoadedModTime", "version of the file this client has loaded", "bootstrap/cache/disk_cache.go")], OBS)

prop("C05", "Registry files of different services and types are never mixed up",
 "Each registry file is fetched from the bootstrap service's base URL plus that type's file name (with or without a trailing slash on the base URL), and cached byte for byte under a name that is distinct for every type and service and is the plain file name for the default service. Operations for one service or registry type never read, change or answer from another's files or registries, even in a shared cache directory.",
 ["histories", "configurations"],
 "every history over several registry types and several bootstrap services sharing one cache directory",
 "The tests use one service per cache directory, one type per client.",
 BC, [("file name prefixed by a hash of the base URL", "bootstrap/client.go filenameFor"), ("registry type to file name", "bootstrap/client.go Filename"), ("type-specific parser", "bootstrap/client.go newRegistry")],
 [], OBS)

prop("C06", "Cache objects store exact bytes and report exact states",
 "For the memory cache and the disk cache alike, loading a file returns exactly the bytes last saved under that name (whatever the caller did to its buffers since) or an error if there is none, and files do not affect each other. A file's state is absent if there is none, expired if it was saved longer ago than the timeout, and otherwise good - except that the disk cache reports should-reload when the file on disk is newer than the version this cache object last loaded or saved. Saving in a missing cache directory creates it, and a disk cache whose directory cannot be used reports an error instead of losing data silently.",
 ["histories", "inputs", "configurations"],
 "every history of saves, loads, state queries, timeout changes, clock advances and external changes over several names and cache objects",
 "The tests follow one short history per cache kind.",
 ["bootstrap/cache/disk_cache.go", "bootstrap/cache/memory_cache.go", "bootstrap/cache/registry_cache.go"],
 [("copying in Save/Load", "bootstrap/cache/memory_cache.go"), ("mtime bookkeeping", "bootstrap/cache/disk_cache.go Save, Load, State"), ("directory creation", "bootstrap/cache/disk_cache.go InitDir")],
 [], ["cache.MemoryCache / cache.DiskCache methods", "files in the cache directory"])

LK = "for every registry document and query within the bounds"
prop("C07", "Domain lookups return the longest matching registry suffix",
 "A domain lookup returns the URLs of the registry entry with the most labels among those equal to the queried name or to a whole-label suffix of it (the empty entry being the root zone), and no URLs when none matches. ASCII case and one trailing dot of the query make no difference, and the answer names the entry that matched.",
 ["inputs"], "every registry document and every query name " + "(" + LK + ")",
 "The tests sample a handful of names against one registry file.",
 ["bootstrap/dns_registry.go"], [("label stripping loop over the entry map", "bootstrap/dns_registry.go Lookup")], [], ["bootstrap.DNSRegistry.Lookup", "bootstrap.Client.Lookup"])
prop("C08", "IP lookups return the most specific registry network containing the query",
 "An IP address or network lookup returns the URLs of the registry network with the longest prefix among those that contain the whole queried address or network, and no URLs when none does. Entries that are malformed or of the other IP version never match, and a malformed query or one of the wrong IP version is an error.",
 ["inputs"], "every set of registry networks (nested, adjacent, sparse, 0 to full length) and every query address or network, IPv4 and IPv6",
 "The tests sample about ten queries per IP version on one file; a wrong comparison at a particular nesting, boundary or prefix length passes them.",
 ["bootstrap/net_registry.go"], [("per-length buckets, sorted, binary search", "bootstrap/net_registry.go NewNetRegistry, Lookup")], [], ["bootstrap.NetRegistry.Lookup", "bootstrap.Client.Lookup"])
prop("C09", "AS number lookups return the registry range containing the number",
 "For a registry of disjoint AS number ranges, a lookup returns the URLs of the range that contains the queried number (bounds included, either bound order, single numbers as well), and no URLs when no range does. The number may be given with an AS prefix in any case; a query that is not a 32-bit number is an error, and malformed registry entries are ignored.",
 ["inputs"], "every set of disjoint ranges and every query number from 0 to 4294967295, including each bound and its neighbours",
 "The tests sample seven queries on one file.",
 ["bootstrap/asn_registry.go"], [("sorted ranges, binary search", "bootstrap/asn_registry.go Lookup"), ("range parsing", "bootstrap/asn_registry.go parseASNRange")], [], ["bootstrap.ASNRegistry.Lookup", "bootstrap.Client.Lookup"])
prop("C10", "Entity lookups go by the exact service tag after the last hyphen",
 "An entity handle lookup returns the URLs registered for exactly the text after the handle's last hyphen, case-sensitively. A handle without a hyphen, with nothing after it, or with an unknown tag yields no URLs and no error.",
 ["inputs"], "every registry document and every handle text",
 "The tests sample four handles.",
 ["bootstrap/service_provider_registry.go"], [("tag extraction and map lookup", "bootstrap/service_provider_registry.go Lookup")], [], ["bootstrap.ServiceProviderRegistry.Lookup", "bootstrap.Client.Lookup"])
prop("C11", "Registry documents are parsed completely and malformed ones rejected",
 "Parsing a registry document maps every entry of every service to that service's parsable URLs in document order, a later service replacing an earlier one for the same entry; both two-element services and three-element object-tag services are understood, and services without any parsable URL contribute nothing. Any other shape of the services array or invalid JSON is an error for every registry type, and the description, publication, version and original document bytes are exposed unchanged.",
 ["inputs"], "every registry document: services of any length, repeated entries, unparsable URLs, wrong shapes",
 "The tests parse the official files and two malformed ones.",
 ["bootstrap/file.go"], [("services array interpretation", "bootstrap/file.go NewFile")], [], ["bootstrap.NewFile and the registry constructors"])

CL = ["client.go"]
prop("C12", "Each query type is bootstrapped from its own registry, or refused",
 "A request without a server is resolved through exactly one bootstrap registry - domain: dns, autnum: asn, entity: object-tags, ip: ipv6 if the query contains a colon, else ipv4 - asking for exactly the request's query text, and the request is then sent to the servers of the matching entry. Request types that have no bootstrap registry are refused as bootstrap-not-supported and a query matching no entry as no-match, both without contacting any RDAP server; a request with a server never consults a bootstrap registry.",
 ["inputs", "configurations"], "every request type, query, server presence and registry content",
 "The tests bootstrap one domain and one or two other types on the happy path.",
 CL, [("request type to registry", "client.go bootstrapTypeFor"), ("bootstrap then per-server requests", "client.go Do")], [], ["rdap.Client.Do", "HTTP requests seen by both RoundTrippers", "Response.BootstrapAnswer"])
prop("C13", "Servers are tried in order until one gives a decisive outcome",
 "A bootstrapped request is tried on the answer's servers in listed order, each at most once, stopping at the first decisive outcome: a 2xx response with a decodable body is returned as the result, a 404 as object-does-not-exist. Transport errors, cut-off bodies, other statuses, empty bodies and undecodable bodies move on to the next server, and when all are exhausted the error is no-working-servers. The response records every attempt in order with its URL, body and error, and a returned object is always the decoding of the last attempt's body.",
 ["fault_sequences", "inputs"], "every sequence of per-server outcomes over any number of servers",
 "The tests have one failover sample; orders, mixes and exhaustion are not covered.",
 CL, [("server loop", "client.go Do"), ("single fetch", "client.go get")], [("resp.HTTP", "attempts made", "client.go Do")], ["rdap.Client.Do return values", "HTTP requests seen by the RoundTripper"])
prop("C14", "Typed queries return the right object or a correctly classified error",
 "QueryDomain, QueryAutnum and QueryIP return a non-nil object of their own type, or nil and an error, never both and never neither. An RDAP error object is reported as a server error carrying its code, title and description, any other object type as wrong-response-type, a 404 as object-does-not-exist, and all other failures as Do reports them; a nil request is an input error.",
 ["inputs", "fault_sequences"], "every response kind for each typed query",
 "The tests cover the happy path and one wrong type.",
 ["client.go", "client_error.go"], [("type switch on the response", "client.go QueryDomain, QueryAutnum, QueryIP"), ("error conversion", "client_error.go")], [], ["rdap.Client.QueryDomain/QueryAutnum/QueryIP"])
prop("C15", "Deadlines bound the whole request, bootstrap and failover included",
 "A request's context deadline or its Timeout, whichever is sooner, covers the bootstrap download and all server attempts together: once it expires the call returns a deadline error and starts no further attempt, while an attempt failing before the deadline still fails over. The request's context is the one every HTTP request carries, typed queries are bounded by 30 seconds, and a Timeout of zero adds no limit.",
 ["schedules", "fault_sequences"], "every placement of the deadline relative to the bootstrap download and each of several server attempts",
 "No test uses a deadline.",
 ["client.go", "request.go"], [("deadline check in the server loop", "client.go Do"), ("question and HTTP requests carry the context", "client.go Do, get; bootstrap/client.go Lookup")], [], ["rdap.Client.Do / Query*", "contexts of the HTTP requests seen by the RoundTrippers"])

prop("C16", "Request URLs confine the query text and preserve server and parameters",
 "The URL of a request is the server URL, a slash if needed, the path of the request type and the query text, escaped so that the server decodes exactly the given text from exactly that path position or search parameter: no query text can alter the host, other path segments (beyond an IP network's one slash), parameters or fragment. Server query parameters, the request's own parameters and the search parameter are all present, later ones replacing earlier ones of the same name, and the server's fragment is kept. Building it modifies neither the request, its parameters nor its server; a raw request's URL equals its server URL, and without a server there is no URL.",
 ["inputs"], "every request type, query byte string, server URL form and parameter set",
 "The tests sample about a dozen clean queries; hostile bytes, servers with queries or fragments, and reuse of the same request are not covered.",
 ["request.go"], [("escaping", "request.go escapePath, shouldPathEscape"), ("URL assembly", "request.go URL, pathAndValues")], [], ["rdap.Request.URL", "requests as parsed by an HTTP server"])
prop("C17", "Automatic query type detection follows one documented precedence",
 "An untyped query becomes: a raw URL request for an http or https URL with a path, a domain request for one without; otherwise an IP request for a valid IP address or CIDR network, otherwise an AS number request for a 32-bit decimal number with optional AS prefix in any case, otherwise a domain request if it contains a dot, otherwise an entity request. The request's query denotes the same object as the input text: the same address, the CIDR's network, the number, or the unchanged text.",
 ["inputs"], "every query text",
 "The tests sample about 25 strings.",
 ["request.go"], [("detection cascade", "request.go NewAutoRequest, parseAutnum")], [], ["rdap.NewAutoRequest"])

prop("C18", "Any JSON document decodes to exactly its documented object type or an error",
 "A decoded response is an Error object if it has an errorCode field, else the type named by its objectClassName (an unknown or non-string class is an error), else the search result type whose results field is present (domain, then entity, then nameserver), else Help. Bytes that are not a JSON object (or null) yield an error, and no input of any shape makes decoding, the client, or printing the result panic.",
 ["inputs"], "every byte string, and every JSON document with any combination of the discriminating fields",
 "The tests decode well-formed documents of each class.",
 ["decoder.go", "print.go"], [("target selection", "decoder.go decodeTopLevel")], [], ["rdap.Decoder.Decode", "rdap.Client.Do", "rdap.Printer.Print"])
prop("C19", "Each field decodes by its own type, and a bad value affects only itself",
 "Every known RDAP field of every object, at any nesting depth, is stored in its own Go field: values of the right JSON type unchanged, scalars of another type converted where the value is representable in the field's type, and anything else left unset, with array elements that cannot be decoded dropped and the rest kept in order. A conversion or failure is recorded as a note under that field's name in the enclosing object, a value of the right type produces no note (a number for an integer field excepted), and no field's value or notes depend on any other field.",
 ["inputs"], "every combination of field, enclosing class, nesting and JSON value, including numeric range limits",
 "The tests decode a few synthetic structs; the real classes' fields and their combinations are not enumerated.",
 ["decoder.go", "common.go", "domain.go", "entity.go", "autnum.go", "ipnetwork.go", "nameserver.go", "help.go", "error.go", "search_results.go"],
 [("per-kind decoders", "decoder.go decodeUint, decodeString, decodeBool, decodeSlice, decodePtr, decodeStruct"), ("field plan", "decoder.go structPlanFor, getFieldName")], [], ["rdap.Decoder.Decode result structs", "rdap.DecodeData.Notes"])
prop("C20", "All fields of a response stay retrievable, unknown ones included",
 "For every decoded object at any depth, the field list contains exactly the members of the JSON object it was decoded from, each retrievable with its original JSON value, and the unknown field list contains exactly those members that have no Go field in that object's type. This holds whatever the values' types and whether or not they decoded.",
 ["inputs"], "every document, any mix of known and unknown members at any depth",
 "The tests look at one or two unknown fields of a synthetic struct.",
 ["decode_data.go", "decoder.go"], [("snapshot of the source object", "decoder.go decodeStruct"), ("accessors", "decode_data.go Fields, UnknownFields, Value")], [], ["rdap.DecodeData.Fields/UnknownFields/Value"])
prop("C21", "jCards decode to exactly their properties, or fail as a whole",
 "Decoding a jCard yields its properties in order, each with its name, parameters (a single string as a list of one, non-strings dropped), type, and value: any nesting of arrays up to three levels and a property with several values as one array. If the structure or any property is invalid the whole decode fails - leaving an entity's vCard unset with a note and its other fields intact - unless invalid properties are to be ignored, when exactly the valid ones remain. Flattened values list every leaf in order as text.",
 ["inputs"], "every JSON value in place of a jCard",
 "The tests decode a few fixed jCards.",
 ["vcard.go", "decoder.go"], [("structure checks", "vcard.go newVCardImpl, decodeVCardProperty, readParameters, readValue")], [], ["rdap.NewVCard, NewVCardWithOptions, VCardProperty.Values", "Entity.VCard after decoding"])
prop("C22", "vCard accessors return the right property and address component",
 "The name, email and organization accessors return the flattened value of the first property of that name; the voice telephone is the first value of the first tel property that is untyped or typed voice, and the fax of the first one typed fax. Each address accessor returns its own component of the first address, by position, with a multi-valued component joined by spaces and never shifting the others. Getting by name returns exactly the properties of that name, in order. Anything missing gives an empty string, never a panic.",
 ["inputs"], "every vCard: property orders, repetitions, types, short, long and nested addresses",
 "The tests use one example card.",
 ["vcard.go"], [("accessors", "vcard.go getFirstPropertySingleString, getFirstAddressField, Tel, Fax")], [], ["rdap.VCard accessor methods"])

prop("C23", "Printed text shows every field of a response, in order, at its place",
 "Printing an object writes its heading and then one line per non-empty value and one indented block per nested object, for every field of every object type that the format defines (including unknown fields, sorted by name, recursively), in the documented fixed order and with indentation equal to nesting depth times the indent size. Nothing is printed that the object does not contain, and printing the same object again gives identical text.",
 ["inputs"], "every decoded object of every type at any nesting",
 "The tests compare three golden outputs.",
 ["print.go"], [("per-type print routines", "print.go")], [], ["rdap.Printer.Print output"])
prop("C24", "Printer options omit exactly what they name and nothing else",
 "OmitNotices removes exactly the notices and OmitRemarks exactly the remarks, wherever they are nested; BriefOutput removes exactly conformance, notices, remarks, events, port43, variants, secure DNS and an entity's nested networks, autnums and entities; BriefLinks replaces each link's block by its URL line. The indent character and size change only the indentation, and options combine independently.",
 ["inputs", "configurations"], "every combination of options on every object",
 "The tests set no omit or brief options.",
 ["print.go"], [("option checks in the print routines", "print.go")], [], ["rdap.Printer.Print output"])
prop("C25", "Server-supplied text can never break out of its output line",
 "Whatever strings a server response contains - in values, member names of unknown fields, vCards, links - each printed value occupies exactly one output line beginning with its indentation and label, in the text output as in the WHOIS output. Line feeds, carriage returns and NUL characters in them never reach the output, and all other characters are printed unchanged.",
 ["inputs"], "every response with control characters at any position of any string",
 "The tests' strings contain no control characters.",
 ["print.go", "cli.go"], [("text cleaning", "print.go cleanString; cli.go safePrint")], [], ["rdap.Printer.Print output", "RunCLI --whois output"])
prop("C26", "WHOIS-style output carries exactly the domain's mapped fields, in order",
 "The WHOIS-style form of a domain response lists, in fixed key order (event dates in the order the events first appear) and with repeated values in response order: name, handle, WHOIS server, the dates of last-changed, registration and expiration events, the first registrar's name and IANA id, each status, the contact fields of the first registrant, administrative, technical and abuse entities, and each name server. Empty values are left out, a role is matched wherever it stands in an entity's role list, and any other object type gives no fields.",
 ["inputs"], "every domain response: entity orders, multi-role entities, missing vCards, repeated events",
 "The tests convert one golden response.",
 ["response.go"], [("field mapping", "response.go ToWhoisStyleResponse, addEntityFields, findFirstEntity")], [], ["rdap.Response.ToWhoisStyleResponse", "RunCLI --whois output"])

prop("C27", "CLI exit codes and output streams tell success and failure apart",
 "The command line client exits 0 exactly when it printed a response (or the version), and then standard output carries only the requested formats, in the order text, raw, JSON, WHOIS, with text as default. On every error - bad or conflicting options, invalid query, bootstrap, network, server or decode failure - it exits 1 with a message on standard error and nothing on standard output except usage requested by help, and no request is sent when the options are in error; verbose messages go to standard error, and only with --verbose.",
 ["inputs", "configurations", "fault_sequences"], "every combination of options, query and server behaviour",
 "The golden tests run a dozen command lines.",
 ["cli.go"], [("option handling and exits", "cli.go RunCLI")], [], ["RunCLI exit code, stdout, stderr", "requests received by loopback servers"])
prop("C28", "Raw and JSON output reproduce the accepted server response exactly",
 "With --raw standard output is byte for byte the body of the response that was accepted, and with --json the same JSON document with only whitespace changed, whichever of several servers supplied it and whatever the earlier ones returned.",
 ["inputs", "fault_sequences"], "every response body and failover sequence",
 "The golden tests have one server and one body.",
 ["cli.go"], [("body selection and indenting", "cli.go RunCLI")], [], ["RunCLI stdout"])
prop("C29", "CLI options select the intended query, server and bootstrap service",
 "Each --type value (aliases included) produces the request type it names with the given query text, untyped queries the auto-detected one; --server sends it to that server (http assumed without a scheme, refused with a full URL query), otherwise the --bs-url service is asked. The resulting HTTP requests are exactly those of the equivalent library calls; RDAP requests carry the client's user agent and an Accept header for RDAP JSON.",
 ["inputs", "configurations"], "every type option, query form and server/bootstrap option combination",
 "The golden tests cover four or five of the types.",
 ["cli.go", "client.go"], [("type switch", "cli.go RunCLI"), ("request headers", "client.go get")], [], ["requests received by loopback servers"])
prop("C30", "Sandbox mode never touches a file the user names",
 "In sandbox mode (set by the caller or by --exp=sandbox) no option value makes the client read, create or write any file outside the default cache directory and the built-in sandbox certificates: --cache-dir is ignored (except that an empty one disables the disk cache), --cert and --key are ignored, --p12 accepts only the built-in names, and @file arguments are refused. Without sandbox mode these options use the named files.",
 ["inputs", "configurations"], "every value and combination of the file options, path tricks included",
 "No test enables sandbox mode.",
 ["cli.go", "sandbox/file.go"], [("sandbox checks", "cli.go RunCLI; sandbox/file.go IsFileInSandbox, LoadFile")], [], ["paths opened, created or written by RunCLI", "exit code"])
prop("C31", "Server certificates are verified unless --insecure is given",
 "HTTPS responses, from RDAP servers and from the bootstrap service alike, are accepted only from servers whose certificate verifies for the host name, unless --insecure is given, which affects only that run. A client certificate is presented exactly when a loadable --cert/--key pair or --p12 file was given, and an unloadable, incomplete or conflicting specification fails before any request is made.",
 ["configurations"], "every combination of certificate validity, --insecure, and client certificate options, for RDAP and bootstrap servers",
 "No test uses TLS.",
 ["cli.go"], [("tls.Config and transports", "cli.go RunCLI")], [], ["connections and peer certificates at loopback TLS servers", "RunCLI exit code"])
prop("C32", "Successive CLI runs share the cache exactly as the cache options say",
 "Runs with the same cache directory and bootstrap service share registry files across processes for the --bs-ttl period (default one hour): a run within the period makes no bootstrap request, a run after it makes one and renews the file. An empty --cache-dir keeps nothing on disk, the default directory is $XDG_CACHE_HOME/openrdap (if absolute) or $HOME/.cache/openrdap, missing directories are created, and an unusable one is an error.",
 ["histories", "configurations"], "every history of runs with differing cache, TTL and bootstrap options and clock advances",
 "The tests run the CLI once per cache directory and never advance time.",
 ["cli.go", "bootstrap/cache/disk_cache.go"], [("cache selection", "cli.go RunCLI"), ("default directory", "bootstrap/cache/disk_cache.go NewDiskCache")], [], ["bootstrap requests received", "files created", "RunCLI exit code"])
prop("C33", "Decoding is independent of history and safe to run concurrently",
 "The result of decoding and printing a document depends only on the document: decoding other documents before, or any number of documents at the same time in other goroutines, changes neither the objects, their notes and unknown fields, nor the printed text. Objects from different decodes share no modifiable state.",
 ["schedules", "histories"], "every order and interleaving of decodes of different and equal object types, including the first use of each type",
 "The tests decode sequentially and assert on one document at a time.",
 ["decoder.go", "print.go"], [("shared plan cache", "decoder.go structPlanFor, structPlanCache")], [("structPlanCache", "decode plans shared by all decodes", "decoder.go")], ["rdap.Decoder.Decode results from concurrent goroutines"])
prop("C34", "The timeout option bounds the whole run",
 "A run of the command line client ends within the --timeout period (30 s by default), counted over bootstrapping and all servers tried: when a bootstrap service or server has not answered by then the run fails with exit code 1, no further server is tried, and nothing is printed on standard output; answers that arrive within the period are used.",
 ["fault_sequences", "configurations"], "every placement of slow and hanging bootstrap services and servers, and every period",
 "The tests' servers answer at once.",
 ["cli.go", "client.go"], [("context deadline", "cli.go RunCLI"), ("context use", "client.go Do, get; bootstrap/client.go download")], [], ["RunCLI duration, exit code and requests"])
prop("C35", "Requests can be run again and results kept: use modifies neither",
 "Running a request - directly, bootstrapped over several servers, or through copies made by WithServer and WithContext - modifies neither the request, its parameters and server URL, nor a server URL or registry that other requests share. The same request run again in the same circumstances sends the same HTTP requests and gives the same result, its Timeout starting anew each time, and a response once returned is not changed by later requests.",
 ["histories"], "every sequence of running, re-running and deriving requests that share servers, parameters and a client",
 "The tests build each request once and run it once.",
 ["client.go", "request.go", "bootstrap/client.go"], [("Do on shared requests", "client.go Do, get"), ("copies", "request.go WithServer, WithContext"), ("URL construction", "request.go URL")],
 [("Request.Server", "URL objects shared with the registry and other requests", "request.go")], ["fields of rdap.Request before and after", "HTTP requests sent", "rdap.Response contents over time"])
prop("C36", "Registries answer alike however often, in any order and concurrently",
 "The answer to a lookup on a parsed registry depends only on the registry document and the question: earlier lookups, their order, and any number of lookups at the same time in other goroutines change neither the answers nor the registry's file, and need no locking.",
 ["schedules", "histories"], "every order and interleaving of lookups on one registry of each type",
 "The tests look up a fixed list of queries in one goroutine.",
 ["bootstrap/dns_registry.go", "bootstrap/asn_registry.go", "bootstrap/net_registry.go", "bootstrap/service_provider_registry.go"], [("lookups on shared registries", "bootstrap/*_registry.go Lookup")],
 [("registries", "parsed registry tables shared by all lookups", "bootstrap/*_registry.go")], ["bootstrap.Registry.Lookup answers", "bootstrap.Registry.File"])
prop("C37", "Every operation gives back the bodies, files and temporary files it used",
 "When a request, bootstrap lookup or download returns - successfully, or by failing at any point (connection, status, cut-off or malformed body, unusable cached file, full disk, name taken by a directory) - every HTTP response body it was handed has been closed, no file is still open, and nothing but the cache files themselves is in the cache directory.",
 ["fault_sequences", "histories"], "every placement of failures in bootstrap downloads, cache accesses and server attempts, in every history",
 "The tests' mock transport has nothing to leak and they do not look for leftovers.",
 ["client.go", "bootstrap/client.go", "bootstrap/cache/disk_cache.go"], [("response bodies", "client.go get; bootstrap/client.go download"), ("temporary files", "bootstrap/cache/disk_cache.go writeFile, Load")], [],
 ["Close of http.Response bodies", "open descriptors", "contents of the cache directory"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
