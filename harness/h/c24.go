package h

import (
	"bytes"
	"net"
	"net/http"
	"net/url"
	"strings"

	"github.com/openrdap/rdap"

	"verifharness/sym"
)

func init() {
	All["C24_type"] = Spec{F: C24_type}
	All["C24_auto"] = Spec{F: C24_auto}
	All["C24_form"] = Spec{F: C24_form}
	All["C24_boot"] = Spec{F: C24_boot}
	All["C24_bad"] = Spec{F: C24_bad}
}

type cliRun struct {
	code     int
	out, err string
	w        *transport
	trs      []*http.Transport
}

// runCLI runs the command line client, its HTTP requests being answered by reply.
func runCLI(opt rdap.CLIOptions, reply func(t *transport, r *http.Request) (*http.Response, error), args ...string) *cliRun {
	c := &cliRun{w: &transport{reply: reply}}
	sym.HTTP = func(t *http.Transport, r *http.Request) (*http.Response, error) {
		c.trs = append(c.trs, t)
		return c.w.RoundTrip(r)
	}
	var o, e bytes.Buffer
	c.code = rdap.RunCLI(args, &o, &e, opt)
	c.out, c.err = o.String(), e.String()
	sym.HTTP = nil
	return c
}

func okReply(t *transport, r *http.Request) (*http.Response, error) {
	return t.resp(200, []byte(`{"objectClassName":"domain","handle":"h"}`), nil), nil
}

// refused: the command line is rejected before anything is sent.
func (c *cliRun) refused(why string) {
	sym.Assert(len(c.w.reqs) == 0, why+": something was sent")
	sym.Assert(c.code == 1, why+": exit status is not 1")
	sym.Assert(c.out == "" && c.err != "", why+": no message on standard error, or output")
}

var cliTypes = []struct {
	name string
	typ  rdap.RequestType
}{
	{"domain", rdap.DomainRequest}, {"dns", rdap.DomainRequest},
	{"nameserver", rdap.NameserverRequest}, {"ns", rdap.NameserverRequest},
	{"entity", rdap.EntityRequest},
	{"domain-search", rdap.DomainSearchRequest},
	{"domain-search-by-nameserver", rdap.DomainSearchByNameserverRequest},
	{"domain-search-by-nameserver-ip", rdap.DomainSearchByNameserverIPRequest},
	{"nameserver-search", rdap.NameserverSearchRequest},
	{"nameserver-search-by-ip", rdap.NameserverSearchByNameserverIPRequest},
	{"entity-search", rdap.EntitySearchRequest},
	{"entity-search-by-handle", rdap.EntitySearchByHandleRequest},
	{"autnum-search", rdap.AutnumSearchRequest},
	{"autnum", rdap.AutnumRequest}, {"as", rdap.AutnumRequest}, {"asn", rdap.AutnumRequest},
	{"ip", rdap.IPRequest},
	{"help", rdap.HelpRequest},
	{"url", rdap.RawRequest},
}

func docOf(t rdap.RequestType) docReq {
	for _, d := range docReqs {
		if d.typ == t {
			return d
		}
	}
	return rawDoc
}

// sentOne: one request, of the documented form for what was asked.
func (c *cliRun) sentOne(i int, want autoWant, scheme, auth, prefix string) {
	sym.Assert(len(c.w.reqs) == i+1, "not exactly one query was sent")
	r := c.w.reqs[i]
	sym.Assert(r.method == "GET" && r.bodyLen == 0, "not a plain GET")
	if want.typ == rdap.RawRequest {
		sym.Assert(r.url == want.url.String(), "another URL was fetched")
		return
	}
	d := docOf(want.typ)
	if want.typ == rdap.AutnumRequest {
		full := scheme + "://" + auth + prefix + d.path
		sym.Assert(strings.HasPrefix(r.url, full), "not the documented URL of an AS number")
		sym.Assert(isNumber(r.url[len(full):], want.num), "another AS number was asked for")
		return
	}
	checkWire(d, r.url, want.text, scheme, auth, prefix, "", nil)
}

// C24_type: every documented query type with arbitrary text.
func C24_type() {
	ct := cliTypes[sym.Choice("type", len(cliTypes))]
	var q string
	args := []string{"-s", "https://rdap.example/v1", "-t", ct.name, "--"}
	want := autoWant{typ: ct.typ}
	ok := true
	switch ct.typ {
	case rdap.AutnumRequest:
		q = []string{"", "AS", "as", "4294967", "AS429496729"}[sym.Choice("shape", 5)] + bytesN("q", upTo("qlen", sym.Param("LA", 1)))
		noLongS(q)
		want.num, ok = asNumber(q)
	case rdap.IPRequest:
		q = []string{"", "192.0.2.", "2001:db8:", "::ffff:192.0.2.", "10.0.0.0/"}[sym.Choice("shape", 5)] + bytesN("q", upTo("qlen", sym.Param("LI", 1)))
		ip := net.ParseIP(q)
		ok = ip != nil
		want.text = ip.String()
	case rdap.RawRequest:
		args = []string{"-t", ct.name, "--"}
		q = []string{"http://h", "https://h/", "http://h/%4"}[sym.Choice("shape", 3)] + bytesN("q", upTo("qlen", sym.Param("LU", 1)))
		u, err := url.Parse(q)
		want.url, ok = u, err == nil
		if ok {
			// a URL no HTTP request can be made of
			hr, err := http.NewRequest("GET", u.String(), nil)
			if err != nil {
				return
			}
			want.url = hr.URL
		}
	case rdap.HelpRequest:
		if sym.Choice("noquery", 2) == 1 {
			args = args[:4]
		}
		q = bytesN("q", 1)
	default:
		q = bytesN("q", upTo("qlen", sym.Param("L", 1)))
		want.text = q
	}
	if len(args) != 4 {
		args = append(args, q)
	}
	c := runCLI(rdap.CLIOptions{}, okReply, args...)
	if !ok {
		sym.Cover("refused")
		c.refused("invalid " + ct.name)
		return
	}
	sym.Assert(c.code == 0, "exit status")
	c.sentOne(0, want, "https", "rdap.example", "/v1/")
}

// C24_auto: the type is detected.
func C24_auto() {
	var q string
	switch sym.Choice("form", 8) {
	case 0:
		q = bytesN("q", upTo("qlen", sym.Param("L", 1)))
	case 1:
		q = "http://h" + bytesN("q", sym.Param("LF", 1))
	case 2:
		q = "https://h.example/p" + bytesN("q", 1)
	case 3:
		q = []string{"as", "As"}[sym.Choice("as", 2)] + bytesN("q", sym.Param("LF", 1))
	case 4:
		q = "192.0.2." + bytesN("q", sym.Param("LF", 1))
	case 5:
		q = "10.1.2.3/2" + bytesN("q", 1)
	case 6:
		q = "2001:db8:" + bytesN("q", sym.Param("LF", 1))
	case 7:
		q = "@" + bytesN("q", sym.Param("LF", 1))
	}
	noLongS(q)
	want := autoRule(q)
	srv := sym.Choice("server", 2) == 1
	if want.typ == rdap.RawRequest {
		if srv {
			sym.Cover("conflict")
			runCLI(rdap.CLIOptions{}, okReply, "-s", "https://rdap.example/v1", "--", q).refused("server and URL")
			return
		}
		hr, err := http.NewRequest("GET", want.url.String(), nil)
		if err != nil {
			return
		}
		want.url = hr.URL
		c := runCLI(rdap.CLIOptions{}, okReply, "--", q)
		sym.Assert(c.code == 0, "exit status")
		c.sentOne(0, want, "", "", "")
		return
	}
	if !srv {
		return
	}
	c := runCLI(rdap.CLIOptions{}, okReply, "-s", "https://rdap.example/v1", "--", q)
	sym.Assert(c.code == 0, "exit status")
	c.sentOne(0, want, "https", "rdap.example", "/v1/")
}

// C24_form: forms and order of the options, and of the server's URL.
func C24_form() {
	srvs := []struct{ text, scheme, auth, prefix string }{
		{"https://rdap.example", "https", "rdap.example", "/"},
		{"http://rdap.example:8080/v1/", "http", "rdap.example:8080", "/v1/"},
		{"//rdap.example/v1", "http", "rdap.example", "/v1/"},
		{"https://u:p@rdap.example/a%2Fb", "https", "u:p@rdap.example", "/a%2Fb/"},
		{"https://[2001:db8::1]/", "https", "[2001:db8::1]", "/"},
		{"rdap.example/v1", "http", "rdap.example", "/v1/"},
		{"https://rdap.example/v1?key=1&k=%26", "https", "rdap.example", "/v1/"},
	}
	// either the server or the form of the options varies, or both
	all := sym.Param("ALL", 0) == 1
	aspect := sym.Choice("aspect", 2)
	vary := func(name string, a, n int) int {
		if all || aspect == a {
			return sym.Choice(name, n)
		}
		return 0
	}
	srv := srvs[vary("srv", 0, len(srvs))]
	ct := cliTypes[[]int{0, 2, 5, 10, 12}[vary("type", 0, 5)]]
	s := [][]string{{"-s", srv.text}, {"-s" + srv.text}, {"--server=" + srv.text}, {"--server", srv.text}}[vary("sform", 1, 4)]
	t := [][]string{{"-t", ct.name}, {"-t" + ct.name}, {"--type=" + ct.name}, {"--type", ct.name}}[vary("tform", 1, 4)]
	extra := [][]string{nil, {"-v"}, {"-vk"}, {"--json", "--timeout=5"}, {"-T", "7"}, {"-rw"}, {"--cache-dir="}, {"-e"}, {"--exp=object_tag"}}[vary("extra", 1, 9)]
	q := "q" + text("q", 1) + "-t"
	var args []string
	switch vary("order", 1, 3) {
	case 0:
		args = append(append(append(append(args, s...), t...), extra...), q)
	case 1:
		args = append(append(append(append(args, q), extra...), t...), s...)
	case 2:
		args = append(append(append(append(append(args, t...), extra...), q), s...), "ignored")
	}
	c := runCLI(rdap.CLIOptions{}, okReply, args...)
	sym.Assert(c.code == 0, "exit status")
	var kept []pair
	if strings.Contains(srv.text, "?") {
		kept = []pair{{"key", "1"}, {"k", "&"}}
	}
	sym.Assert(len(c.w.reqs) == 1 && c.w.reqs[0].method == "GET" && c.w.reqs[0].bodyLen == 0, "not exactly one query was sent")
	checkWire(docOf(ct.typ), c.w.reqs[0].url, q, srv.scheme, srv.auth, srv.prefix, "", kept)
}

func bootReply(base string) func(t *transport, r *http.Request) (*http.Response, error) {
	return func(t *transport, r *http.Request) (*http.Response, error) {
		if len(t.reqs) > 1 {
			return okReply(t, r)
		}
		return t.resp(200, sym.JSON(sym.Obj().Set("services", sym.Arr(
			sym.Arr(sym.Strs("com", "192.0.0.0/8", "64496-64511", "2001:db8::/32", "ONE"), sym.Strs("https://one.example/v1", "https://other.example/")),
			sym.Arr(sym.Strs("org", "10.0.0.0/8", "1-2", "2001:db9::/32", "TWO"), sym.Strs("https://two.example/v2/"))))), nil), nil
	}
}

// C24_boot: the server is found by bootstrapping.
func C24_boot() {
	two := sym.Choice("second", 2)
	auth := []string{"one.example", "two.example"}[two]
	prefix := []string{"/v1/", "/v2/"}[two]
	typed := sym.Choice("typed", 2) == 1
	var want autoWant
	var q, file, tn string
	switch sym.Choice("kind", 5) {
	case 4:
		q = "OPS" + textIn("q", 1, "1-@.x/") + []string{"-ONE", "-TWO"}[two]
		want = autoRule(q)
		if want.typ != rdap.EntityRequest {
			return
		}
		file, tn = "object-tags.json", "entity"
	case 0:
		q = "a" + textIn("q", 2, "az-.0") + []string{".com", ".org"}[two]
		want = autoWant{typ: rdap.DomainRequest, text: q}
		file, tn = "dns.json", "domain"
		if net.ParseIP(q) != nil {
			return
		}
	case 1:
		d := textIn("q", 1, "0123456789")
		q = []string{"192.0.2.", "10.0.2."}[two] + d
		want = autoWant{typ: rdap.IPRequest, text: q}
		file, tn = "ipv4.json", "ip"
	case 2:
		d := textIn("q", 1, "123456789abcdef")
		q = []string{"2001:db8::", "2001:db9::"}[two] + d
		want = autoWant{typ: rdap.IPRequest, text: q}
		file, tn = "ipv6.json", "ip"
	case 3:
		n := []string{"6450", ""}[two] + textIn("q", 1, []string{"0123456789", "12"}[two])
		q = "AS" + n
		want = autoWant{typ: rdap.AutnumRequest}
		want.num, _ = asNumber(q)
		file, tn = "asn.json", "autnum"
	}
	args := []string{q}
	if typed {
		args = append(args, "-t", tn)
	}
	base := "https://data.iana.org/rdap/"
	switch sym.Choice("bs", 4) {
	case 1:
		base = "http://bs.example:81/x/"
		args = append(args, "--bs-url=http://bs.example:81/x/")
	case 2:
		base = "https://bs.example/"
		args = append(args, "--bs-url", "https://bs.example/", "-e")
	case 3:
		base = "https://test.rdap.net/rdap/"
		args = append(args, "--exp=test_rdap_net")
	}
	args = append(args, "--cache-dir=")
	c := runCLI(rdap.CLIOptions{}, bootReply(base), args...)
	sym.Assert(c.code == 0, "exit status")
	sym.Assert(len(c.w.reqs) == 2 && c.w.reqs[0].url == base+file, "not bootstrapped from the right registry")
	c.sentOne(1, want, "https", auth, prefix)
}

// C24_bad: command lines that are rejected.
func C24_bad() {
	var args []string
	why := ""
	switch sym.Choice("kind", 9) {
	case 0:
		n := cliTypes[sym.Choice("type", len(cliTypes))].name
		switch sym.Choice("how", 4) {
		case 0:
			n += text("tail", 1)
		case 1:
			n = n[:len(n)-1]
		case 2:
			n = n[:len(n)-1] + text("tail", 1)
		case 3:
			n = text("head", 1) + n[1:]
		}
		for _, ct := range cliTypes {
			sym.Assume(ct.name != n)
		}
		sym.Assume(n != "")
		args = []string{"-s", "http://h", "--type=" + n, "q.example"}
		why = "unknown type"
	case 1:
		args = []string{"-s", "http://h"}
		if k := sym.Choice("t", len(cliTypes)); cliTypes[k].name != "help" {
			args = append(args, "-t", cliTypes[k].name)
		}
		why = "no query"
	case 2:
		args = []string{"-s", []string{"http://h", "h"}[sym.Choice("srv", 2)], []string{"http://h/domain/x", "https://x.example/domain/" + text("q", 1) + "x"}[sym.Choice("q", 2)]}
		if _, err := url.Parse(args[2]); err != nil {
			return
		}
		if sym.Choice("typed", 2) == 1 {
			args = append(args, "-t", "url")
		}
		why = "server and URL"
	case 3:
		args = []string{"-s", "http://h/%zz", "q.example"}
		why = "bad server"
	case 4:
		args = []string{[]string{"--nosuch", "-x", "--server", "-T", "--timeout=x", "--timeout=65536", "--bs-ttl=-1", "--exp=nosuch"}[sym.Choice("opt", 8)]}
		args = append([]string{"-t", "domain", "q.example"}, args...)
		why = "bad option"
	case 5:
		args = []string{"--bs-url=http://h/%zz", "--cache-dir=", "q.com"}
		why = "bad bootstrap URL"
	case 6:
		// not bootstrapped
		ct := cliTypes[sym.Choice("t", len(cliTypes))]
		switch ct.typ {
		case rdap.DomainRequest, rdap.AutnumRequest, rdap.IPRequest, rdap.RawRequest, rdap.EntityRequest:
			return
		}
		args = []string{"-t", ct.name, "--cache-dir=", "q.example"}
		why = "no server for the type"
	case 7:
		args = []string{"-t", []string{"autnum", "as", "asn"}[sym.Choice("t", 3)], "-s", "http://h", "--",
			[]string{"", "AS", "4294967296", "AS-1", "+1", "1.1", "ASAS1", "0x1", "1_0"}[sym.Choice("q", 9)]}
		why = "bad AS number"
	case 8:
		args = []string{"-t", "ip", "-s", "http://h", "--", []string{"", "1.2.3", "1.2.3.4/8", "1.2.3.4.", "::g", "[::1]", "256.1.1.1", " 1.2.3.4", "fe80::1%eth0"}[sym.Choice("q", 9)]}
		why = "bad IP address"
	}
	sym.Cover(why)
	runCLI(rdap.CLIOptions{}, okReply, args...).refused(why)
}
