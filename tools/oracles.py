O["C01"] = "The oracle compares address bits directly: among the entries whose prefix bits equal the query's and whose length is at most the query's, the longest one must be answered with its URLs; if none, the answer is empty. Text is judged by net.ParseIP and net.ParseCIDR."
O["C02"] = "The oracle is the numeric definition: lo <= number <= hi on 64-bit values computed in the harness from the digits; texts are read by an independent reader."
O["C03"] = "The oracle compares label by label from the right in the harness."
O["C04"] = "The oracle takes the text after the last hyphen, found by scanning from the end."
O["C05"] = "The harness builds the document, so it knows every entry, URL list and part count; for raw bytes it compares with what encoding/json makes of the text."
O["C06"] = "A reference machine in the harness tracks what is in memory, in the cache and how old it is, and predicts for every step whether a request is made and which version of the registry answers; requests are counted and their URL and context compared."
O["C07"] = "After each fault the call must fail, the cache must hold what it held, and a later lookup without network must still answer from the earlier registry."
O["C08"] = "A reference machine holds bytes and times per name; returned and given slices are overwritten afterwards to expose sharing."
O["C09"] = "A reference machine of the directory: content, modification time and, per cache object, the version last seen. After each step state, content and the list of files anywhere below the scratch root are compared."
O["C10"] = "The oracle splits the URL text by RFC 3986 itself, decodes each part and compares with the request; it does not use net/url to take it apart."
O["C11"] = "Deep copies of request, server URL, parameters and registry URLs from before are compared with those after, and results of repeated calls with each other."
O["C12"] = "A reference classifier in the harness applies the documented rules in order, using net/url, net.ParseIP and net.ParseCIDR for what a URL, address or network is."
O["C13"] = "The scripted servers know what each of them did; the harness predicts where the client stops, what it returns, and every field of every recorded attempt."
O["C14"] = "The answers are built by the harness, so their type, code, title and description are known; exactly one of object and error must be non-nil."
O["C15"] = "The transport records method, headers, context deadline and cancellation of each request, and each body records its closing."
O["C16"] = "The oracle chooses the type from the keys present as documented; decoding must not fail for any value tree in any field; for raw text encoding/json decides what is a JSON object."
O["C17"] = "For each field kind the oracle computes the exact value, or the set of acceptable outcomes (empty with an error note), from the JSON value; notes must be present exactly for conversions and distinguish errors from conversions. Wordings of the notes are not compared."
O["C18"] = "A schema of the RDAP response types (JSON name, Go field, kind, nested type), written from RFC 7483 and the documentation and not derived from the code, says where each value must arrive; field lists are compared as sets."
O["C19"] = "The harness builds the card, so it knows which properties are valid; an independent flattener gives the expected values."
O["C20"] = "The first matching property is found by scanning the constructed card."
O["C21"] = "The output is split into lines; every line must be one expected heading or label with the cleaned value at its nesting depth."
O["C22"] = "From the schema of C18 and a table of labels, the harness predicts for each value the lines that must appear, counts them, and requires everything else to be a heading; removing options must remove exactly the listed kinds; two prints must be equal."
O["C23"] = "The expected list of key and value pairs is computed from the constructed domain; the printed form must be one line per pair."
O["C24"] = "The request recorded by the transport is compared with the documented path and parameter, taken apart by the splitter of C10; rejected command lines must send nothing."
O["C25"] = "The file model logs every open, stat of content, creation and write; natively the directory tree before and after is compared and a canary file must not influence the result."
O["C26"] = "Every request's transport is asked for its tls.Config: InsecureSkipVerify must equal the option, no verification callbacks or foreign roots may be set, certificates must be exactly the given one."
O["C27"] = "The scripted servers say which body was accepted; the output is compared byte for byte (raw), after re-indenting (JSON), or with Printer and ToWhoisStyleResponse on a decoded copy."
O["C28"] = "Pairs of base URLs and registries: files saved by one must not be used by the other, and names must be the published ones for the default service. Base URLs that differ must differ in name (up to the hash)."
O["C29"] = "Each goroutine's observations must equal those of a run on its own, and no conflicting accesses may be unordered (see Goroutines)."
O["C30"] = "Delays are played on the model clock; the harness computes for each request whether the limit has passed, and for each run whether the cached file is still valid."
