# Per-property runs, executed by gen.py.
chk("C01", [
    run("C01_v4", dict(NE=2, NL=3), dict(NE=3, NL=4), "NE IPv4 entries with symbolic address bytes and mask, NL query shapes", maporder=True),
    run("C01_v6", dict(NE=2, NL=4), dict(NE=3, NL=4), "NE IPv6 entries, symbolic bytes in the first and last groups and mask", maporder=True),
    run("C01_len", {}, {}, "every IPv4 and IPv6 prefix length with its neighbouring lengths as second entry and as query; addresses differing at the boundary bit or not"),
    run("C01_text", dict(LQ=3), dict(LQ=5), "arbitrary query text up to LQ characters, plus address-shaped templates"),
    run("C01_big", dict(N=24), dict(N=60), "one registry with N nested and disjoint entries, symbolic query"),
], "Every registry and query within the bounds, all map iteration orders.", "more than NE symbolic entries at once, entries naming one network twice.",
   ["registry entries are distinct networks after masking"])
chk("C02", [
    run("C02_ranges", dict(NE=2, ND=2), dict(NE=3, ND=3), "NE disjoint ranges with ND-digit symbolic ends in any order, symbolic number", maporder=True),
    run("C02_text", dict(LQ=3), dict(LQ=5), "arbitrary query text up to LQ characters, plus long-digit templates around 2^32, with each malformed range"),
    run("C02_edges", dict(NE=2, NX=3), dict(NE=3, NX=4), "up to NE disjoint ranges and a number whose ends lie around 0, 2^31 and 2^32 (and 2^16), last digits symbolic"),
    run("C02_big", dict(N=30), dict(N=60), "one registry of N ranges, symbolic three-digit number"),
], "Every registry and query within the bounds, all map iteration orders.", "longer symbolic numbers, more ranges.")
chk("C03", [
    run("C03_lookup", dict(NE=2, LE=3, LQ=5), dict(NE=3, LE=4, LQ=8), "NE entries up to LE characters, names up to LQ characters"),
    run("C03_long", dict(N=8), dict(N=40), "names up to 250 characters and 45 labels below entries of 1-5 labels, arbitrary characters at the label boundary and the end; registry of N+7 entries"),
], "Every registry and name within the bounds.", "longer names; labels beyond ASCII.", ["registry entries are lower case, as the IANA file publishes them"])
chk("C04", [
    run("C04_lookup", dict(NE=2, LE=2, LQ=5), dict(NE=3, LE=3, LQ=7), "NE tags up to LE characters, handles up to LQ characters"),
    run("C04_long", dict(N=8), dict(N=60), "tags of 1-60 characters among N+5, handles of up to 130 characters with many hyphens, an arbitrary character at the start or end of the tag"),
], "Every registry and handle within the bounds.", "longer handles.")
chk("C05", [
    run("C05_doc", dict(NS=2, NE=2), dict(NS=3, NE=1), "NS services of 0-4 parts, up to NE arbitrary entries each, four kinds of URL lists", tt=600),
    run("C05_many", dict(NS=6, NE=4, NU=6), dict(NS=12, NE=6, NU=9), "NS services of NE entries and NU URLs, one arbitrary entry, one unparsable URL anywhere", maporder=False),
    run("C05_url", dict(L=3), dict(L=4), "an arbitrary URL text up to L characters, alone and after http://h"),
    run("C05_types", {}, {}, "a value of every JSON type at every position"),
    run("C05_file", {}, {}, "every registry kind: three entries, one of any text up to two characters, documents of four shapes, lookups between two looks at File()"),
    run("C05_raw", dict(L=3), dict(L=5), "truncation at every point, any byte changed, any two bytes appended, any text up to L bytes"),
], "Every document within the bounds.", "larger documents; entries repeated in several services; JSON null and duplicate keys (what encoding/json makes of them is accepted).",
   ["net/url.Parse decides what is parsable"])
chk("C06", [
    run("C06_mem", dict(K=4), dict(K=5), "any K operations out of lookup, download, accessor, clock advance (symbolic seconds)"),
    run("C06_disk", dict(K=4), dict(K=5), "any K operations with a shared disk cache: lookup, accessor, clock advance, foreign save, foreign truncated file, foreign removal"),
    run("C06_fail", dict(K=2), dict(K=4), "K fetches in a row that fail with a transport error, any other status or a bad body, or succeed, on a fresh or an expired registry"),
    run("C06_kinds", dict(K=3), dict(K=4), "any two registry kinds side by side in one client: any K lookups, accessors, downloads, expiries and (disk cache) foreign saves"),
    run("C06_size", dict(MAX=1100000), dict(MAX=4400000), "registry files padded to sizes up to MAX bytes, arriving in pieces of several sizes, the end with or after the last"),
    run("C06_long", dict(N=40), dict(N=120), "N lookups of every kind by one client, a minute apart, the clock moving once by up to three days (symbolic), memory and disk cache"),
    run("C06_url", {}, {}, "base URLs with symbolic path, escapes, user info or query, with and without trailing slash, every registry kind"),
], "Every operation sequence within the bounds.", "one cache object shared by several clients; foreign writes within the clock's resolution.",
   ["model of the file system and clock in harness/model, validated by native replay"])
chk("C07", [
    run("C07_fault", {}, {}, "every failure kind, symbolic status, every truncation point, arbitrary JSON type, unwritable cache; with and without earlier registry"),
    run("C07_base", {}, {}, "a base URL with any byte in its host, scheme or path, or opaque; download and lookup"),
    run("C07_corrupt", {}, {}, "cached file truncated at every point, damaged, with trailing bytes or replaced by a directory; network up or down"),
], "Every fault within the bounds.", "faults in the middle of a single write call.",
   ["model of the file system and clock in harness/model, validated by native replay"])
chk("C08", [
    run("C08_seq", dict(K=3), {}, "any K operations over two symbolic names, data up to 2 symbolic bytes, symbolic timeouts and clock"),
    run("C08_seq", dict(K=4, NF=2, DL=1, NL=1), dict(K=5), "as above, longer, shorter data"),
    run("C08_seq", dict(K=3, NF=1, DL=1, NL=0, SUB=3), dict(K=4, NF=1, DL=1, NL=0, SUB=4), "as above, one name, timeouts and clock steps with parts of 0, 500, 999 and 1 ms (the first SUB of them)", tt=600),
    run("C08_many", dict(N=20), dict(N=80), "N files of up to about 600 bytes, any one saved again with an arbitrary byte, timeouts up to 2^32 s, arbitrary clock steps"),
], "Every operation sequence within the bounds.", "longer sequences and data; other parts of a second.")
chk("C09", [
    run("C09_seq", dict(K=3), {}, "any K operations of two caches and a foreign writer over two files: save, load, write, remove, timeout, clock"),
    run("C09_seq", dict(K=3, NF=1, SUB=2), dict(K=4, NF=1), "as above over one file, with parts of a second (SUB)", tt=800),
    run("C09_dir", {}, {}, "directory missing, present, obstructed at each level"),
    run("C09_home", {}, {}, "XDG_CACHE_HOME empty, relative, absolute with symbolic tail"),
    run("C09_many", dict(N=12), dict(N=60), "N files of up to about 600 bytes written by one cache and read by another, any one saved again shorter, timeouts up to 2^32 s, arbitrary clock step"),
], "Every operation sequence within the bounds.", "longer sequences; rewrites within the clock's resolution; file names that are not plain names.",
   ["model of the file system and clock in harness/model, validated by native replay"])
chk("C28", [
    run("C28_pair", dict(NT=2, PL=1), dict(NT=3, PL=1), "two base URLs with symbolic user, host, port, path, query; registry kinds", tq=120),
    run("C28_many", {}, {}, "2300 concrete services"),
    run("C28_near", {}, {}, "base URLs one or two characters away from the default, other ports, users, paths, queries"),
], "Every pair of base URLs within the bounds.", "collisions of the 24-bit hash prefix the names use.",
   ["the first 24 bits of SHA-256 differ for different symbolic base URLs"])
chk("C10", [
    run("C10_query", dict(L=2), dict(L=3), "every request type, query text of up to L arbitrary bytes", tq=150),
    run("C10_server", {}, {}, "servers with and without user, port, path, escapes, trailing slash, parameters, fragment; caller parameters; symbolic query byte"),
    run("C10_raw", {}, {}, "raw requests with symbolic path"),
    run("C10_new", {}, {}, "every constructor with symbolic arguments", tt=300),
    run("C10_long", dict(LENS=4, NP=12), dict(LENS=5, NP=40), "every request type, query texts of up to 300 bytes with an arbitrary byte at five places, up to NP parameters"),
], "Every request within the bounds.", "longer texts; server URLs that are opaque or have no host.",
   ["the oracle splits the URL text itself (RFC 3986), it does not use net/url"])
chk("C11", [
    run("C11_url", {}, {}, "every request type, servers with user, path, parameters, fragment, symbolic query and parameter bytes"),
    run("C11_copy", dict(K=3), dict(K=4), "any K calls out of WithContext, WithServer, URL"),
    run("C11_do", {}, {}, "requests run through the client, with and without server, twice"),
], "Every request and call sequence within the bounds.", "parameter maps shared by the caller between goroutines.")
chk("C12", [
    run("C12_text", dict(L=3), dict(L=4), "arbitrary text up to L bytes", tt=600),
    run("C12_forms", dict(N=2), dict(N=3), "each documented form with N arbitrary characters in it"),
    run("C12_long", {}, {}, "texts of up to 260 bytes of every documented form with arbitrary characters in them"),
], "Every text within the bounds.", "longer texts; the Unicode letter U+017F, which Go's upper-casing turns into S.",
   ["net/url.Parse, net.ParseIP and net.ParseCIDR decide what is a URL, address or network"])
chk("C13", [
    run("C13_url", {}, {}, "a server URL made by hand, with any byte in its host, scheme or path, or without a host; domain and raw requests"),
    run("C13_servers", dict(NS=2), dict(NS=3, NU=5), "up to NS servers, each with a symbolic behaviour (transport error, answer, undecodable, empty, broken body, deadline passing before or during the body) and symbolic status 200-599"),
    run("C13_servers", dict(NS=3, RD=0), dict(NS=4, RD=0), "as above with more servers and fewer status codes"),
    run("C13_many", dict(N=12), dict(N=40), "N servers that fail in every way, one of which answers with any status"),
    run("C13_default", {}, {}, "a client nobody configured, over the default transport; redirects of every kind"),
    run("C13_anyurl", dict(L=2), dict(L=3), "a registry URL of any text up to L characters after eight prefixes"),
    run("C13_status", {}, {}, "two servers, every status, every undecodable body"),
    run("C13_size", dict(MAX=1100000), dict(MAX=2200000), "answers padded to sizes up to MAX bytes, arriving in pieces of several sizes, the end with or after the last"),
    run("C13_again", dict(N=20), dict(N=60), "N queries through one client, each with its own outcome, any one with any status"),
    run("C13_boot", {}, {}, "every request type without server, matching or not, with bootstrap failures"),
], "Every sequence of server behaviours within the bounds.", "more than two redirects; more servers; a 404 whose body cannot be read (treated as a failed attempt).",
   ["HTTP transport replaced by a scripted RoundTripper; net/http.Client itself is executed"])
chk("C14", [
    run("C14_answer", {}, {}, "three helpers, every answer type, symbolic handle and class name, every failure"),
    run("C14_error", dict(ND=2), dict(ND=4), "error objects with symbolic code, title and description"),
], "Every answer within the bounds.", "longer titles and descriptions.",
   ["HTTP transport replaced by a scripted RoundTripper"])
chk("C15", [
    run("C15_http", {}, {}, "two servers with symbolic behaviour and status; bootstrap outcomes; symbolic timeouts, contexts, user agents"),
    run("C15_query", {}, {}, "three helpers, six outcomes"),
    run("C15_again", dict(N=12), dict(N=40), "N queries through one client, each with its own context, limit and user agent, any one limit symbolic"),
], "Every exchange within the bounds.", "redirects followed by net/http.",
   ["HTTP transport replaced by a scripted RoundTripper"])
chk("C16", [
    run("C16_type", {}, {}, "every subset of the selecting keys with values of every JSON type; class names known, one character off, or any two characters"),
    run("C16_nested", dict(D=1), dict(D=3), "every field of every type with a value tree of any JSON types, D levels deep", maporder=False),
    run("C16_raw", dict(L=3), dict(L=4), "any text up to L bytes, a document cut at every point, with any byte changed, with any two bytes appended"),
], "Every document within the bounds.", "deeper value trees; several wrong fields at once; duplicate keys.",
   ["encoding/json is executed for raw text and replaced by an equivalent reader for documents built from nodes, validated by native replay"])
chk("C17", [
    run("C17_scalar", dict(L=1), dict(L=2), "every scalar field of every type; null, booleans, 18 boundary numbers, symbolic text, lists, objects"),
    run("C17_number", {}, {}, "any 64-bit float into each width of number field and booleans", tq=150),
    run("C17_list", dict(N=2), dict(N=3), "every list field, up to N elements of every JSON type"),
    run("C17_long", dict(N=20), dict(N=60), "every list field, N elements of which any one cannot be decoded"),
], "Every value within the bounds.", "longer numeric text beyond the listed boundary values; magnitudes of 1e308 and more.",
   ["JSON numbers are 64-bit floats, as encoding/json reads them"])
chk("C18", [
    run("C18_fields", {}, {}, "every field of every type beside an unknown field of arbitrary or near-miss name"),
    run("C18_edges", {}, {}, "every type in every place that may contain it"),
    run("C18_history", {}, {}, "every type after decoding any other type, failing documents, and scribbling over earlier results"),
    run("C18_many", dict(N=16), dict(N=60), "every type with N unknown fields and two lists of N objects"),
    run("C18_deep", dict(D=12), dict(D=40), "entities, networks and autnums nested D deep, an arbitrary field at any level"),
], "Every document within the bounds.", "longer histories.")
chk("C19", [
    run("C19_doc", dict(NP=1), dict(NP=2), "up to NP properties of any shape and a good one before or after, both options and inside an entity", tt=600),
    run("C19_value", dict(D=2, W=2), dict(D=2, W=2), "value trees D deep, W wide"),
    run("C19_value", dict(D=5, W=1), dict(D=7, W=1), "value chains D deep"),
    run("C19_top", {}, {}, "any top level shape, tag text one character off"),
    run("C19_many", dict(N=30), dict(N=80), "N properties of which any one is odd, values and parameter lists of N elements"),
    run("C19_raw", dict(L=3), dict(L=4), "any text up to L bytes, a card cut at every point, with any byte changed, with any two bytes appended"),
], "Every card within the bounds.", "wider and larger cards.")
chk("C20", [
    run("C20_text", dict(NP=2), dict(NP=2), "up to NP properties of arbitrary name, eight value shapes"),
    run("C20_tel", dict(NP=2), dict(NP=2), "up to NP telephone properties with any type parameters"),
    run("C20_tel", dict(NP=3, FEW=1), dict(NP=4, FEW=1), "up to NP telephone properties, fewer shapes"),
    run("C20_adr", dict(K=2), dict(K=3), "addresses of up to 8 components, K of them of any shape; further addresses around", tq=150),
    run("C20_many", dict(N=16), dict(N=40), "two properties that count among N, at any two places"),
], "Every card within the bounds.", "more properties.")

chk("C21", [
    run("C21_value", dict(L=2), dict(L=3), "every value field of every type, L arbitrary bytes"),
    run("C21_unknown", dict(L=1), dict(L=2), "unknown fields of arbitrary name and value at every nesting", tq=150),
    run("C21_card", {}, {}, "vCard values and nested lists"),
    run("C21_long", {}, {}, "values and unknown names of up to 300 bytes, clean, full of bad characters or non-ASCII, with an arbitrary byte at three places"),
], "Every object within the bounds.", "longer texts; invalid UTF-8.")
chk("C22", [
    run("C22_full", dict(D=1), dict(D=2), "every type with every field filled, D levels deep, every option setting", tq=150),
    run("C22_part", {}, {}, "every type with any one field missing or alone, every option setting"),
    run("C22_unknown", dict(N=2, K=2), dict(N=2, K=2), "up to N unknown fields of arbitrary names, all map orders", maporder=True, tq=200),
    run("C22_unknown", dict(N=2), dict(N=3), "N unknown fields of arbitrary names, of every JSON type"),
    run("C22_manual", {}, {}, "objects built by hand: nil pointers, empty lists"),
    run("C22_wide", dict(W=12), dict(W=40), "every type with every field filled and lists of W elements, values distinct or all alike, every option setting"),
    run("C22_many", dict(N=24), dict(N=80), "N unknown fields in every type"),
    run("C22_deep", dict(D=14), dict(D=40), "objects and unknown fields nested D deep, every option setting"),
    run("C22_again", dict(N=2), dict(N=3), "N objects printed by one printer, options changing in between", tt=800),
    run("C22_links", {}, {}, "links with arbitrary addresses at the top, in notices and in remarks, every option setting"),
], "Every object and option setting within the bounds.", "more than W list elements or N unknown fields.")
chk("C23", [
    run("C23_fields", {}, dict(N=3, NE=4), "domain fields, events and lists with symbolic text"),
    run("C23_roles", {}, dict(NE=3, NR=2), "two entities with two roles each, of arbitrary last letter"),
    run("C23_roles", dict(NE=3, NR=1), dict(NE=4, NR=1), "three entities with one role each"),
    run("C23_card", {}, {}, "every contact field, empty or not"),
    run("C23_other", {}, {}, "every other type"),
    run("C23_many", dict(N=14), dict(N=25), "N events, states, name servers or entities, any one arbitrary or with the role"),
    run("C23_decoded", {}, {}, "a decoded response with every field filled, the roles in twelve orders"),
    run("C23_print", dict(L=2), dict(L=4), "printed values of up to L arbitrary characters"),
], "Every domain within the bounds.", "more entities and roles.")
chk("C24", [
    run("C24_type", dict(L=1, LA=2, LI=2, LU=1), dict(L=2, LA=3, LI=2, LU=2), "every type and alias, query text of up to L arbitrary bytes; AS numbers, IP addresses and URLs of several shapes with arbitrary bytes", tt=900),
    run("C24_auto", dict(L=1, LF=1), dict(L=2, LF=2), "auto-detected queries of every form with arbitrary bytes"),
    run("C24_form", {}, dict(ALL=1), "every form and order of the options, six forms of server URL, other options around", tt=900),
    run("C24_boot", {}, {}, "bootstrapped queries of five kinds, four bootstrap services"),
    run("C24_bad", {}, {}, "every type name with a character added, dropped or replaced; missing queries, conflicting and malformed options"),
    run("C24_long", {}, {}, "query texts of up to 300 bytes with an arbitrary byte at five places, five query types"),
    run("C24_again", dict(N=2), dict(N=3), "N runs in one process, of any types and texts"),
], "Every command line within the bounds.", "longer texts (C10 and C12 go further on the same code); a second query argument, which is ignored.",
   ["HTTP transport replaced by a scripted one; kingpin itself is executed"])
chk("C25", [
    run("C25_options", {}, {}, "every combination of sandbox switch, cache directory, certificate, key, P12, @file and verbose options"),
    run("C25_p12", dict(L=2), dict(L=3), "certificate names equal to a shipped one, one character off, with directories in front, or arbitrary"),
    run("C25_api", dict(L=3), dict(L=4), "names one character off at every position, or arbitrary"),
    run("C25_effect", {}, {}, "the same options outside sandbox mode"),
], "Every option combination within the bounds.", "symbolic links; file access inside the Go runtime and net packages.",
   ["model of the file system in harness/model, validated by native replay; certificate contents are opaque"])
chk("C26", [
    run("C26_verify", {}, {}, "every kind of query, with and without bootstrap, other options around"),
    run("C26_again", dict(N=4), dict(N=6), "N runs in one process, with and without -k, bootstrapped or not"),
    run("C26_cert", dict(L=2), dict(L=3), "every combination of certificate options with good, mismatched, damaged and missing files, arbitrary passwords"),
], "Every option combination within the bounds.", "crypto/tls itself: the check is of the configuration it is given.",
   ["crypto/tls and pkcs12 readers replaced by a model of two fixed key pairs, validated by native replay"])
chk("C27", [
    run("C27_out", dict(NB=2), dict(NB=6), "every combination of output options, several bodies with arbitrary bytes"),
    run("C27_json", {}, {}, "every type of answer in every format"),
    run("C27_servers", dict(NS=2), dict(NS=3), "up to NS servers with symbolic behaviour and status"),
    run("C27_boot", {}, {}, "every failure of bootstrapping"),
    run("C27_bytes", {}, {}, "a body with any one byte replaced by any other"),
    run("C27_size", dict(MAX=33000), dict(MAX=300000), "answers with values of up to MAX bytes, every single output format"),
    run("C27_again", dict(N=2), dict(N=3), "N runs in one process, any formats, successful and not"),
], "Every sequence of server behaviours within the bounds.", "redirects; failing standard output; order of several formats.",
   ["the text of the expected output comes from Printer and ToWhoisStyleResponse, which C21-C23 check"])
chk("C30", [
    run("C30_timeout", dict(ND=3), dict(ND=4), "limits of up to ND arbitrary digits with several delays; several limits with arbitrary delays below 65536 s"),
    run("C30_ttl", dict(ND=3, K=3), dict(ND=4, K=4), "cache times of up to ND arbitrary digits with several delays; several times with arbitrary delays, K runs"),
], "Every value and delay within the bounds.", "delays of a fraction of a second; the exact instant of expiry.",
   ["model of the clock and file system, validated by native replay in a synctest bubble"])
chk("C29", [
    run("C29_decode", dict(OTHER=2), dict(OTHER=30), "two goroutines decoding documents of every type with arbitrary field texts, the same or another type (OTHER others), also the same document in the same memory; the second runs to its end before any one of the first's synchronisation operations (a symbolic schedule) or after it"),
    run("C29_unfit", dict(OTHER=1), dict(OTHER=5), "the same with every field holding a value that does not fit or an empty object, six kinds each"),
    run("C29_use", dict(OTHER=2), dict(OTHER=30), "two goroutines decoding and printing, fixed texts"),
    run("C29_readers", {}, {}, "two goroutines printing, converting and inspecting the same decoded response and request"),
], "Every schedule of two goroutines in which the second runs as one block, data races decided by happens-before.",
   "three or more goroutines; schedules that alternate more than twice, or in which the second goroutine would block on a mutex held by the first; plain reads made inside library functions.",
   ["happens-before is that of the Go memory model: mutexes, sync.Map, sync.Once, sync.Pool and atomics synchronise as documented",
    "memory reachable from package variables, and what is stored there, is what goroutines share"])
