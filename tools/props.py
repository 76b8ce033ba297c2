#!/usr/bin/env python3
# Source of /verif/properties.jsonl (python3 tools/props.py rewrites it).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

p("C01", "IP bootstrap picks the most specific covering network",
  "For every IPv4 or IPv6 registry of distinct networks and every address or CIDR query of that family, the bootstrap answer is the entry with the longest prefix among the entries that contain the whole query network, with exactly that entry's service URLs in order, and it is empty when no entry contains it. The answer does not depend on the order of entries or services in the file. Text that is not an address or CIDR range of the registry's family is an error, never a wrong answer.",
  ["inputs"], "all registries (entry networks, masks, order, services) and all query texts of the family",
  "Four to five lookups in one IANA snapshot with no overlapping prefixes; nesting, equal prefix lengths, /0, /32 and range queries wider than an entry are never reached.",
  ["bootstrap/net_registry.go", "bootstrap/file.go"],
  [("NewNetRegistry", "bootstrap/net_registry.go"), ("NetRegistry.Lookup", "bootstrap/net_registry.go")],
  ["bootstrap.NewNetRegistry(json, 4|6) then Lookup(question)"])
p("C02", "ASN bootstrap returns the range that contains the number",
  "For every AS number registry with non-overlapping ranges (single numbers, ranges, either end first) and every query, the bootstrap answer is the one range containing the number with exactly its service URLs, and is empty if no range contains it. The query may be the decimal number or carry an 'AS' prefix in any letter case, leading zeros included; anything else, including numbers above 4294967295, is an error. Malformed ranges in the file are skipped without disturbing the others.",
  ["inputs"], "all registries with disjoint ranges, in any file order, and all query texts",
  "Five queries against one snapshot; range ends, gaps of one, numbers near 2^32 and malformed entries are not sampled.",
  ["bootstrap/asn_registry.go", "bootstrap/file.go"],
  [("NewASNRegistry, parseASNRange", "bootstrap/asn_registry.go"), ("ASNRegistry.Lookup, parseASN", "bootstrap/asn_registry.go")],
  ["bootstrap.NewASNRegistry(json) then Lookup(question)"])
p("C03", "Domain bootstrap picks the longest matching suffix of labels",
  "For every domain registry (entries in lower case, as published) and every domain name, the bootstrap answer is the entry equal to the longest whole-label suffix of the name, compared case-insensitively and ignoring one trailing dot, with exactly that entry's service URLs. A registry entry for the root matches names nothing else matches, and the answer is empty when nothing matches; an entry never matches in the middle of a label.",
  ["inputs"], "all registries with lower-case entries and all names",
  "A three-entry snapshot and one nested example; label boundaries, trailing dots, upper case and adjacent labels are sampled once or never.",
  ["bootstrap/dns_registry.go", "bootstrap/file.go"],
  [("DNSRegistry.Lookup", "bootstrap/dns_registry.go")],
  ["bootstrap.NewDNSRegistry(json) then Lookup(question)"])
p("C04", "Entity bootstrap uses the object tag after the last hyphen",
  "For every object tag registry and every entity handle, the bootstrap answer is the entry exactly equal to the text after the last hyphen of the handle, with exactly that entry's service URLs. A handle without a hyphen, with nothing after the last hyphen, or with an unknown tag gets an empty answer and no error.",
  ["inputs"], "all registries and all handles",
  "Five handles of one known tag; unknown tags, trailing hyphens and tags that are prefixes of others are not reached.",
  ["bootstrap/service_provider_registry.go", "bootstrap/file.go"],
  [("ServiceProviderRegistry.Lookup", "bootstrap/service_provider_registry.go")],
  ["bootstrap.NewServiceProviderRegistry(json) then Lookup(question)"])
p("C05", "Registry files are read faithfully or rejected",
  "Parsing a registry file yields its description, publication and version strings, its JSON unchanged, and maps every entry of every service (each entry listed once) to exactly that service's parsable URLs in file order; unparsable URLs are dropped, and entries of a service with no parsable URL are absent. Services may have two parts (entries, URLs) or three (contacts, entries, URLs); a file that is not such a JSON document, or has a service with any other number of parts, is an error. No file content makes parsing panic.",
  ["inputs"], "all registry documents: any number of services, entries and URLs of any text, any wrong JSON types",
  "One good snapshot and four malformed files; mixed service shapes, empty lists, duplicate entries and partly bad URLs are not covered together.",
  ["bootstrap/file.go"], [("NewFile", "bootstrap/file.go")],
  ["bootstrap.NewFile(json)", "the File() accessor of each registry"])
p("C06", "Bootstrap downloads only when missing, stale or unreadable",
  "A lookup fetches the registry file over HTTP exactly when the client has no copy in memory and none usable in its cache, or the cached copy has expired, or a newer cached copy cannot be read; otherwise it makes no HTTP request at all and uses the newest copy it has, including one that another process has since put in a shared cache. Each registry kind is kept, refreshed and fetched on its own. The fetch is one GET of the registry's file name under the configured base URL, carrying the caller's context, and the accessors of the client show that newest copy and never touch the network.",
  ["histories", "configurations"], "all sequences of lookups, downloads, clock advances and foreign cache writes, for all registry kinds, both caches and all timeouts",
  "The tests make single lookups with a fresh client and the real clock; no test lets time pass, shares a cache or counts requests.",
  ["bootstrap/client.go", "bootstrap/cache/memory_cache.go", "bootstrap/cache/disk_cache.go"],
  [("Client.Lookup, freshenFromCache, reloadFromCache", "bootstrap/client.go"), ("State/Load/Save", "bootstrap/cache")],
  ["bootstrap.Client{HTTP, Cache, BaseURL}.Lookup/Download and the requests its HTTP client receives"],
  state=[dict(name="registries", meaning="parsed in-memory copy per registry", where="bootstrap/client.go"), dict(name="cache", meaning="stored files and their times", where="bootstrap/cache")])
p("C07", "A failed or bad registry download never does damage",
  "When fetching a registry fails in any way (transport error, status other than 200, broken body, content that is not a valid registry file, cache that cannot be written), the call returns an error, nothing is stored in the cache, and the registry the client already had stays in use unchanged. A corrupt or truncated cached file is never used: the lookup that finds it replaces it by downloading.",
  ["fault_sequences", "histories", "crash_points"], "all sequences of lookups and downloads with any fault at any step and any initial cache contents",
  "Only one 404 on a fresh client is tested; failures after a success, parse failures, save failures and corrupt cache files are not.",
  ["bootstrap/client.go", "bootstrap/cache/disk_cache.go"],
  [("DownloadWithContext, download", "bootstrap/client.go"), ("Lookup force-download path", "bootstrap/client.go")],
  ["results of Lookup/Download/accessors, cache contents, HTTP requests"])
p("C08", "Memory cache returns what was saved and expires on time",
  "After any sequence of saves, loads, timeout changes and clock advances, loading a file from the memory cache returns exactly the bytes last saved under that name (never sharing storage with the caller or another file), or an error if none were. Its state is absent if never saved, good until the timeout (24 hours unless set) has elapsed since the last save, and expired after that.",
  ["histories", "inputs"], "all operation sequences, contents, names, timeouts and clock readings",
  "One file, one save, one load, and a zero timeout after a sleep.",
  ["bootstrap/cache/memory_cache.go"], [("MemoryCache.Save/Load/State/SetTimeout", "bootstrap/cache/memory_cache.go")],
  ["cache.NewMemoryCache() and its methods"])
p("C09", "Disk cache is shared correctly between processes",
  "After any sequence of saves, loads, expiries and foreign writes through any number of disk caches on one directory, loading returns exactly the bytes last saved under that name by anyone, or an error if there are none. The state reported is absent if there is no such file, expired once the file is at least the timeout (24 hours unless set) old, good if this cache has already loaded or saved the current version, and reload if another one has written a newer version. The directory (by default openrdap below $XDG_CACHE_HOME if that is absolute, else below $HOME/.cache) is created on demand, and files are only ever created inside it.",
  ["histories", "inputs", "configurations"], "all operation sequences over two caches sharing a directory, all contents, ages and timeouts",
  "One fixed sequence of two caches with a one second sleep.",
  ["bootstrap/cache/disk_cache.go"], [("DiskCache.InitDir/Save/Load/State/modTime", "bootstrap/cache/disk_cache.go")],
  ["cache.NewDiskCache() with Dir set, and its methods"])
p("C10", "The request URL carries the query text exactly and nothing else",
  "For every request type, server URL and query text, the request URL keeps the server's scheme, user, host and path prefix, and adds the documented path for that type with the query as one fully escaped path segment or as the value of the one documented query parameter, so that decoding the URL gives back exactly the query text; an IP request keeps the one slash of a CIDR range as a separator. No other query text can add path segments, parameters or a fragment, or change the server. Caller-supplied and server URL parameters are kept (of the same name, the documented one wins over the caller's and the caller's over the server's), and a raw request's URL is used unmodified.",
  ["inputs", "configurations"], "all request types, all query texts (any bytes), servers with or without trailing slash, path, query or fragment, and any extra parameters",
  "About a dozen example texts on servers without query strings; most bytes and all server parameters are untested.",
  ["request.go"], [("Request.URL, pathAndValues, escapePath", "request.go")],
  ["rdap.Request{...}.URL()"])
p("C11", "Building a request URL or copying a request changes nothing",
  "Computing a request's URL never modifies the request, its server URL or its parameters, and gives the same result every time. Copies made with a context or a server differ from the original only in that one thing and leave the original unchanged; running a request through the client leaves the caller's request and the registry's service URLs unchanged.",
  ["inputs", "histories"], "all requests, servers and parameter sets, and all sequences of these calls",
  "No test calls URL twice or looks at the server afterwards.",
  ["request.go", "client.go"], [("Request.URL, WithContext, WithServer", "request.go"), ("Client.Do", "client.go")],
  ["Request fields before and after URL()/WithServer()/WithContext()/Client.Do"])
p("C12", "Query auto-detection classifies every text as documented",
  "For every text, auto-detection gives a raw request for an http(s) URL with a path, a domain request for the host of an http(s) URL without one, an IP request in canonical form for an IP address or CIDR network, an autnum request with the plain number for a 32-bit number with or without an 'AS' prefix in any case, a domain request with the text unchanged if it contains a dot, and otherwise an entity request with the text unchanged. These rules apply in that order and no text makes it panic.",
  ["inputs"], "all texts",
  "Fourteen texts, of which only the resulting type is compared.",
  ["request.go"], [("NewAutoRequest, parseAutnum", "request.go")],
  ["rdap.NewAutoRequest(text)"])
p("C13", "The client tries servers in order until one answers",
  "For every sequence of server behaviours, a request visits the servers in the order given by bootstrapping (or only the server set on the request), stops at the first successful status (200-299) whose non-empty body decodes and returns that object, stops with a not-found error at a 404, stops on an expired deadline, and moves on after anything else, a 404 whose body cannot be read and a server URL that cannot be requested included. If every server fails, it returns the no-working-servers error and no object. The response records every attempt made, in order, with its URL, its body as far as it was received, and its error.",
  ["fault_sequences", "inputs"], "all sequences of per-server outcomes (transport error, any status, empty, undecodable or valid body, broken body) over any list of servers",
  "Four single-server cases; failover between servers is never exercised.",
  ["client.go"], [("Client.Do, get", "client.go")],
  ["rdap.Client.Do(req): response, error and the requests its HTTP client receives"])
p("C14", "Typed queries return that type or a faithful error",
  "The domain, autnum and IP query helpers return a non-nil object of their own type exactly when the server's answer decodes to it. An error object from the server becomes a server error whose text gives the server's numeric code, title and description; any other object becomes a wrong-type error; errors of the request itself are passed through. They never return both or neither of object and error.",
  ["inputs", "fault_sequences"], "all server answers and failures, for the three helpers",
  "Only the domain helper is tested, with four answers and no server error object.",
  ["client.go", "client_error.go"], [("QueryDomain, QueryAutnum, QueryIP", "client.go"), ("clientErrorFromRDAPError", "client_error.go")],
  ["rdap.Client.QueryDomain/QueryAutnum/QueryIP"])
p("C15", "Every HTTP exchange carries deadline and headers and is closed",
  "Every HTTP request the client or its bootstrapper makes is a GET that carries the caller's context, RDAP queries asking for RDAP JSON and using the configured user agent; a request timeout, if set, bounds all of them, and the query helpers bound theirs to 30 seconds. Every response body received is closed, whatever happens.",
  ["fault_sequences", "inputs"], "all request types, outcomes and failure points, with and without timeouts, contexts and user agents",
  "The mock transport used by the tests checks only URLs.",
  ["client.go", "bootstrap/client.go", "request.go"], [("Client.get, doQuickRequest, Do", "client.go"), ("download", "bootstrap/client.go")],
  ["requests and bodies seen by the HTTP client's transport"])
p("C16", "Response decoding is total and picks the documented type",
  "Every JSON object decodes without panicking to the documented result type: an error if it has an error code; else by its object class name; else domain, entity or nameserver search results by the array present; else help. Only text that is not a JSON object (null counts as an empty one), or an unrecognised or non-string class name, is an error; wrong JSON types anywhere inside never make decoding fail.",
  ["inputs"], "all JSON documents: any keys, any value types at any position, nested to any depth",
  "One real response and toy structs; wrong types at most positions and competing keys are never sampled.",
  ["decoder.go"], [("Decoder.Decode, decodeTopLevel", "decoder.go"), ("decode, decodeStruct, decodeSlice, decodePtr", "decoder.go")],
  ["rdap.NewDecoder(json).Decode()"])
p("C17", "Decoded scalars are exact or flagged, never silently wrong",
  "A JSON value decodes into a text, number or boolean field as the same value whenever it is representable there, converting between booleans, numbers, numeric strings and null only as documented and leaving a note on that field for every conversion. JSON numbers are taken as 64-bit floats, and fractions are cut off with a note. A number that does not fit the field (negative, or too large) or text that is not a number is never stored as some other number: it leaves a note that tells it from a mere conversion, and the field empty or zero. List elements that cannot be decoded are dropped with a note each and the rest kept in order.",
  ["inputs"], "all JSON scalars (any number, string, boolean, null) for every scalar field of the response types",
  "A handful of values into toy structs; limits of the 16, 32 and 64-bit fields used by real responses are not tested.",
  ["decoder.go", "decode_data.go"], [("decodeUint, decodeInt, decodeString, decodeBool, decodeSlice, addDecodeNote", "decoder.go")],
  ["fields and DecodeData notes of the decoded object"])
p("C18", "Decoding loses nothing: every field is readable, known or not",
  "For the top level object and every nested object of a response, the decode data lists exactly the field names that were in the JSON, returns each one's raw JSON value, and reports as unknown exactly those that have no documented field; every documented field is filled from its own JSON name at every nesting level. Decoding a response gives the same result whatever was decoded before.",
  ["inputs", "histories"], "all response documents, known and unknown field names at all nesting levels, after any earlier decodes",
  "One toy struct with four fields; nested objects, the real types and name collisions are not covered.",
  ["decoder.go", "decode_data.go", "domain.go", "entity.go", "common.go", "nameserver.go", "ipnetwork.go", "autnum.go", "error.go", "help.go", "search_results.go"],
  [("decodeStruct, structPlanFor, getFieldName", "decoder.go"), ("DecodeData.Fields/UnknownFields/Value/Notes", "decode_data.go")],
  ["decoded objects and their DecodeData"])
p("C19", "jCards parse exactly or fail, and values flatten in order",
  "A jCard is accepted exactly when it is a two-element array of 'vcard' and a list of properties that each have a name, a parameters object, a type and at least one value, with lists nested at most three levels deep (several values count as a list); names, types, text parameters and values are then kept exactly and in order. With invalid properties ignored, exactly the valid ones are kept. An entity whose card is not accepted is still decoded, without a card and with a note on that field. Flattening a value gives all its scalars as text, in order, and no document makes this panic.",
  ["inputs"], "all JSON documents and both option settings",
  "Ten error files and two good ones; each error is tried in one position.",
  ["vcard.go"], [("newVCardImpl, decodeVCardProperty, readParameters, readValue, Values", "vcard.go")],
  ["rdap.NewVCard, NewVCardWithOptions, Get, VCardProperty.Values"])
p("C20", "vCard accessors return the right property",
  "The vCard accessors return the first matching property's text: name, email and organisation the values of the first property of that name joined with spaces; the telephone number the first one usable for voice and the fax number the first one marked fax; each address accessor the first address's component at its own position, its values joined with spaces, even when other components have several values. Each returns an empty string when there is no such property.",
  ["inputs"], "all vCards: any properties, order, parameters and value shapes",
  "One example card with one address and no fax.",
  ["vcard.go"], [("Tel, Fax, getFirstAddressField, getFirstPropertySingleString, GetFirst", "vcard.go")],
  ["rdap.VCard accessors"])
p("C21", "Text output cannot be forged by response content",
  "Whatever strings a response contains, in known or unknown fields, names or vCards, text output prints every heading and value on exactly one line: no printed value contains a line break, carriage return or NUL, and every line is correctly indented for its nesting level. Nothing else of a value (valid UTF-8 text) is altered.",
  ["inputs"], "all response objects with any strings in any field",
  "The printer test discards its output and the golden test has clean values only.",
  ["print.go"], [("printValue, printHeading, cleanString, removeBadRunes, printUnknown", "print.go")],
  ["rdap.Printer{Writer}.Print(obj)"])
p("C22", "Text output is complete, deterministic and obeys its options",
  "Printing an object writes every non-empty documented value of it and of its nested objects (all but language tags and class names) under its own label, lists in response order, and every unknown field in sorted order, and writes the same bytes every time. The omit-notices and omit-remarks options remove exactly the notices or remarks; brief output removes exactly conformance, notices, remarks, events, port 43, variants, secure DNS and an entity's networks, autnums and sub-entities; brief links print exactly the link's address. They remove nothing else.",
  ["inputs", "configurations"], "all response objects, all option settings and all map orders",
  "One golden domain with default options.",
  ["print.go"], [("printDomain ... printUnknowns", "print.go")],
  ["rdap.Printer output"])
p("C23", "WHOIS output lists the right fields, one line each",
  "The WHOIS form of a domain response contains exactly its non-empty documented fields, in display order without duplicates: events by kind, registrar, contacts by role from the first entity having that role, status and name servers in response order. Responses of any other type give an empty result. When printed, each value takes exactly one line whatever it contains.",
  ["inputs"], "all domain responses: any events, entities, roles, contacts and strings",
  "One golden domain.",
  ["response.go", "cli.go"], [("ToWhoisStyleResponse, addEntityFields, findFirstEntity", "response.go"), ("safePrint", "cli.go")],
  ["Response.ToWhoisStyleResponse()", "rdap --whois output"])
p("C24", "The command line sends the query that was asked for",
  "For every documented query type (given or auto-detected) and query text, the command line client sends its HTTP request to the given server, or the bootstrapped one, with the documented path and parameter for that type and exactly that text. Invalid types, AS numbers, IP addresses, URLs, or a server given together with a URL query, are rejected with an error and exit status 1 before anything is sent.",
  ["inputs", "configurations"], "all type flags, query texts and server options",
  "Only an auto-detected domain and one bogus type are run.",
  ["cli.go", "request.go"], [("RunCLI", "cli.go")],
  ["rdap.RunCLI(args, ...): exit status, stderr and HTTP requests"])
p("C25", "Sandbox mode confines file access",
  "In sandbox mode, however enabled, no combination of command line options makes the client read, create or write any file or directory other than its default cache directory and the certificates shipped for the sandbox. Options naming other files are ignored or rejected. Outside sandbox mode these options take effect.",
  ["inputs", "configurations"], "all option combinations and file names",
  "No test uses sandbox mode.",
  ["cli.go", "sandbox/file.go"], [("RunCLI sandbox checks", "cli.go"), ("LoadFile, IsFileInSandbox", "sandbox/file.go")],
  ["file system calls made by rdap.RunCLI and sandbox.LoadFile"])
p("C26", "TLS certificates are verified unless explicitly disabled",
  "The command line client verifies TLS server certificates on every connection, to RDAP servers and the bootstrap service alike, unless the insecure option is given. It presents a client certificate exactly when one was given, and rejects incomplete or conflicting certificate options.",
  ["configurations", "inputs"], "all option combinations",
  "No test makes a TLS connection or passes these options.",
  ["cli.go"], [("RunCLI tlsConfig, transport", "cli.go")],
  ["TLS configuration of the HTTP clients RunCLI uses"])
p("C27", "Exit status and output match the answer that was used",
  "Given a query, the command line client exits 0 and writes the answer to standard output exactly when the query succeeded; otherwise it exits 1, writes a message to standard error and nothing to standard output. Raw output is byte for byte the body of the response that was accepted, JSON output is the same document re-indented, text and WHOIS output are of that same response, and text is the default.",
  ["fault_sequences", "inputs", "configurations"], "all server behaviours including failover, all bodies and all output options",
  "One success per format from one server; no failure or failover is run through the command line.",
  ["cli.go"], [("RunCLI output section", "cli.go")],
  ["rdap.RunCLI exit status, stdout, stderr"])
p("C28", "Bootstrap services never share cached files",
  "Registry files fetched from the default bootstrap service are cached under their published names, and those of any other base URL under names of their own, distinct per registry and per base URL, so (up to collisions of the 24-bit hash in the names) a client never answers from a file cached for a different service or a different registry kind. Every cache file name is a plain name inside the cache directory.",
  ["configurations", "histories"], "all base URLs and registry kinds, over any sequence of clients sharing a cache",
  "No test uses a custom base URL.",
  ["bootstrap/client.go"], [("filenameFor, Filename", "bootstrap/client.go")],
  ["names passed to the cache and answers given"])
p("C29", "Decoders can be used from several goroutines at once",
  "Decoding responses concurrently in several goroutines, and printing or converting the results, gives each goroutine what it would get on its own, without data races, whatever the schedule. Several goroutines may also read, print and convert one decoded response, or take the URL of one request, at the same time.",
  ["schedules", "inputs"], "all interleavings of concurrent decodes, from the first use of each type on",
  "Tests decode sequentially, and a race needs a particular schedule on first use.",
  ["decoder.go", "decode_data.go", "print.go", "response.go"], [("structPlanFor, structPlanCache", "decoder.go"), ("DecodeData", "decode_data.go")],
  ["rdap.NewDecoder(json).Decode(), Printer.Print and ToWhoisStyleResponse from several goroutines"])
p("C30", "The command line's time limits are honoured",
  "The command line's timeout (30 seconds unless given) bounds bootstrapping and query together: until then every request may go on, after it the client stops with an error and sends nothing more. The bootstrap cache time (3600 seconds unless given) decides how long later runs use a registry cached on disk without downloading it, after which they download it again.",
  ["histories", "inputs", "configurations"], "all option values, all delays of bootstrap service and servers, any sequence of runs",
  "No test passes these options or lets time pass through the command line.",
  ["cli.go", "bootstrap/cache/diskcache.go"], [("RunCLI timeout and bs-ttl", "cli.go"), ("DiskCache.State", "bootstrap/cache/diskcache.go")],
  ["rdap.RunCLI exit status and HTTP requests over time"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
