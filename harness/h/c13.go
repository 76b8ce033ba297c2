package h

import (
	"context"
	"errors"
	"io"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"time"

	"github.com/openrdap/rdap"
	"github.com/openrdap/rdap/bootstrap"

	"verifharness/sym"
)

func init() {
	All["C11_do"] = Spec{F: C11_do}
	All["C13_servers"] = Spec{F: C13_servers, Clock: true}
	All["C13_many"] = Spec{F: C13_many, Clock: true}
	All["C13_default"] = Spec{F: C13_default}
	All["C13_anyurl"] = Spec{F: C13_anyurl}
	All["C13_status"] = Spec{F: C13_status}
	All["C13_boot"] = Spec{F: C13_boot}
	All["C14_answer"] = Spec{F: C14_answer, Clock: true}
	All["C14_error"] = Spec{F: C14_error, Clock: true}
	All["C15_http"] = Spec{F: C15_http, Clock: true}
	All["C15_query"] = Spec{F: C15_query, Clock: true}
}

// bootTransport serves registry files whose entries match everything.
func bootTransport(urls ...string) *transport {
	tr := &transport{}
	tr.reply = func(t *transport, r *http.Request) (*http.Response, error) {
		if err := r.Context().Err(); err != nil {
			return nil, err
		}
		return t.resp(200, sym.JSON(sym.Obj().Set("services", sym.Arr(
			sym.Arr(sym.Strs("com", "0.0.0.0/1", "0-4294967290", "::/1", "TAG"), sym.Strs(urls...))))), nil), nil
	}
	return tr
}

func serverURLs(n int) []string {
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, "https://s"+strconv.Itoa(i)+".example/r"+strconv.Itoa(i)+[]string{"/", ""}[i%2])
	}
	return out
}

func isClientErr(err error, t rdap.ClientErrorType) bool {
	var ce *rdap.ClientError
	return errors.As(err, &ce) && ce.Type == t
}

// domDoc is a domain answer with a handle naming the server.
func domDoc(h string) []byte {
	return sym.JSON(sym.Obj().Set("objectClassName", sym.Str("domain")).Set("handle", sym.Str(h)).Set("ldhName", sym.Str("example.com")))
}

var undecodable = [][]byte{[]byte("{"), []byte("[]"), []byte("\"x\""), []byte("{\"objectClassName\":\"thing\"}"), []byte("{\"objectClassName\":1}")}

// script is what one server does.
type script struct {
	kind   int // 0 transport error, 1 answer, 2 undecodable, 3 empty, 4 broken body, 5 deadline passes, 6 deadline passes while reading, 7 a timeout of its own
	status int
	body   []byte
	draw   func(*script)
}

// dialTimeout is what net.Dialer reports when its own timeout passes.
type dialTimeout struct{}

func (dialTimeout) Error() string        { return "i/o timeout" }
func (dialTimeout) Timeout() bool        { return true }
func (dialTimeout) Temporary() bool      { return true }
func (dialTimeout) Is(target error) bool { return target == context.DeadlineExceeded }

var errDial error = dialTimeout{}

// pick draws 0..n-1 as a symbolic value.
func pick(name string, n int) int {
	b := sym.Byte(name)
	sym.Assume(int(b) < n)
	return int(b)
}

type slowBody struct {
	body
	ctx context.Context
}

func (b *slowBody) Read(p []byte) (int, error) {
	if len(b.data) > 0 {
		return b.body.Read(p)
	}
	sym.AdvanceSec(60)
	if err := b.ctx.Err(); err != nil {
		return 0, err
	}
	return 0, errWire
}

func scriptedTransport(ss []script) *transport {
	tr := &transport{}
	tr.reply = func(t *transport, r *http.Request) (*http.Response, error) {
		i := len(t.reqs) - 1
		sym.Assert(i < len(ss), "more requests than servers")
		s := &ss[i]
		if s.draw != nil {
			s.draw(s)
		}
		if err := r.Context().Err(); err != nil {
			return nil, err
		}
		switch s.kind {
		case 0:
			return nil, errWire
		case 4:
			return t.resp(s.status, []byte("{\"part"), errWire), nil
		case 7: // a timeout of the transport's own, while there is time left
			return nil, errDial
		case 5:
			sym.AdvanceSec(60)
			if err := r.Context().Err(); err != nil {
				return nil, err
			}
			return nil, errWire
		case 6:
			p := t.resp(s.status, nil, nil)
			p.Body = &slowBody{body: body{data: []byte("{"), closed: &t.closed}, ctx: r.Context()}
			return p, nil
		}
		return t.resp(s.status, s.body, nil), nil
	}
	return tr
}

// anyStatus draws a status code.
func anyStatus(name string) int {
	v := sym.U16(name)
	sym.Assume(sym.And(v >= 200, v < 600))
	return int(v)
}

// runServers runs one request over scripted servers and checks everything
// the client reports about it.
func runServers(ss []script, fixed bool, deadline bool) {
	n := len(ss)
	urls := serverURLs(n)
	tr := scriptedTransport(ss)
	btr := bootTransport(urls...)
	c := &rdap.Client{HTTP: &http.Client{Transport: tr}, Bootstrap: &bootstrap.Client{HTTP: &http.Client{Transport: btr}}}
	req := rdap.NewDomainRequest("example.com")
	ctx := context.WithValue(context.Background(), ctxKey{}, "mine")
	if deadline {
		c2, cancel := context.WithTimeout(ctx, 30*time.Second)
		defer cancel()
		ctx = c2
	}
	req = req.WithContext(ctx)
	want := make([]string, n)
	for i, u := range urls {
		want[i] = u
		if want[i][len(want[i])-1] != '/' {
			want[i] += "/"
		}
		want[i] += "domain/example.com"
	}
	if fixed {
		u, _ := url.Parse("https://fixed.example/base")
		req.Server = u
		want = []string{"https://fixed.example/base/domain/example.com"}
		n = 1
	}
	resp, err := c.Do(req)
	sym.Assert(resp != nil, "no response")

	// reference
	tried, ok, notFound, expired := 0, -1, false, false
	for i := 0; i < n && ok < 0 && !notFound && !expired; i++ {
		s := ss[i]
		tried++
		switch s.kind {
		case 1, 2, 3:
			good := sym.Fork(sym.And(s.status >= 200, s.status <= 299))
			if good && s.kind == 1 {
				ok = i
			} else if !(good && s.kind == 2) && sym.Fork(s.status == 404) {
				notFound = true
			}
		case 5, 6:
			expired = deadline
		}
	}
	sym.Assert(len(tr.reqs) == tried, "wrong number of servers tried")
	for i := 0; i < tried; i++ {
		sym.Assert(tr.reqs[i].url == want[i], "servers not visited in order")
		sym.Assert(tr.reqs[i].method == "GET" && tr.reqs[i].bodyLen == 0, "not a plain GET")
		sym.Assert(tr.reqs[i].ctx.Value(ctxKey{}) == "mine", "the caller's context is not used")
	}
	sym.Assert(len(resp.HTTP) == tried, "an attempt is missing from the response")
	for i := 0; i < tried; i++ {
		h, s := resp.HTTP[i], ss[i]
		sym.Assert(h != nil && h.URL == want[i], "attempt recorded with another URL")
		bad := s.kind == 0 || s.kind >= 4
		if s.kind == 2 {
			bad = sym.Fork(sym.And(s.status >= 200, s.status <= 299))
		}
		sym.Assert((h.Error != nil) == bad, "attempt recorded with the wrong error")
		if s.kind >= 1 && s.kind <= 3 {
			sym.Assert(string(h.Body) == string(s.body), "attempt recorded with another body")
		}
		if s.kind >= 1 && s.kind <= 4 {
			sym.Assert(h.Response != nil && h.Response.StatusCode == s.status, "attempt recorded with another status")
		}
		if s.kind == 4 {
			sym.Assert(string(h.Body) == "{\"part", "attempt recorded without the part of the body received")
		}
		if s.kind == 0 {
			sym.Assert(errors.Is(h.Error, errWire), "transport error lost")
		}
		if s.kind == 7 {
			sym.Assert(errors.Is(h.Error, errDial), "transport error lost")
		}
	}
	sym.Assert(tr.closed == tr.opened, "response body left open or closed twice")
	if fixed {
		sym.Assert(len(btr.reqs) == 0, "bootstrapped although the server is given")
	} else {
		sym.Assert(len(btr.reqs) == 1, "not bootstrapped once")
		sym.Assert(resp.BootstrapAnswer != nil && len(resp.BootstrapAnswer.URLs) == n, "bootstrap answer missing")
		sym.Assert(btr.closed == btr.opened, "bootstrap response body left open")
	}
	switch {
	case ok >= 0:
		sym.Cover("answered")
		sym.Assert(err == nil, "error although a server answered")
		d, isDom := resp.Object.(*rdap.Domain)
		sym.Assert(isDom && d != nil && d.Handle == "S"+strconv.Itoa(ok), "not the object of the server that answered")
	case notFound:
		sym.Cover("notfound")
		sym.Assert(isClientErr(err, rdap.ObjectDoesNotExist), "404 is not reported as not found")
		sym.Assert(resp.Object == nil, "object although not found")
	case expired:
		sym.Cover("expired")
		sym.Assert(err != nil && resp.Object == nil, "no error although the deadline passed")
		sym.Assert(!isClientErr(err, rdap.NoWorkingServers) && !isClientErr(err, rdap.ObjectDoesNotExist), "expired deadline reported as something else")
	default:
		sym.Cover("failed")
		sym.Assert(isClientErr(err, rdap.NoWorkingServers), "not the no-working-servers error")
		sym.Assert(resp.Object == nil, "object although every server failed")
	}
}

// C13_servers: any sequence of server behaviours, each drawn when the server
// is reached.
func C13_servers() {
	n := 1 + sym.Choice("n", sym.Param("NS", 2))
	fixed := n == 1 && sym.Choice("fixed", 2) == 1
	deadline := sym.Choice("deadline", 2) == 1
	ss := make([]script, n)
	for i := range ss {
		i := i
		ss[i].draw = func(s *script) {
			kinds := 6
			if deadline {
				kinds = 8
			}
			s.kind = pick("kind", kinds)
			if s.kind >= 5 {
				s.kind = []int{7, 5, 6}[s.kind-5]
			}
			s.status = anyStatus("status")
			if sym.Param("RD", 1) == 0 {
				sym.Assume(sym.Or(s.status < 300, s.status == 404, s.status == 500))
			}
			switch s.kind {
			case 1:
				s.body = domDoc("S" + strconv.Itoa(i))
			case 2:
				s.body = undecodable[sym.Choice("bad", sym.Param("NU", 2))]
			}
		}
	}
	runServers(ss, fixed, deadline)
}

// C13_many: a long list of servers fails in every position's own way, and the
// last one decides; servers may repeat.
func C13_many() {
	n := sym.Param("N", 12)
	ss := make([]script, n)
	shift := sym.Choice("shift", 3)
	for i := range ss {
		ss[i] = script{kind: []int{0, 2, 3, 4, 3, 1}[(i+shift)%6], status: []int{200, 299, 500, 200, 429, 503}[(i+shift)%6]}
		switch ss[i].kind {
		case 1:
			ss[i].body = domDoc("S" + strconv.Itoa(i))
		case 2:
			ss[i].body = undecodable[i%len(undecodable)]
		}
	}
	k := sym.Choice("at", n+1)
	if k < n {
		ss[k] = script{kind: 1, status: anyStatus("status"), body: domDoc("S" + strconv.Itoa(k))}
	}
	runServers(ss, false, false)
}

// C13_default: a client nobody configured, over the default transport:
// bootstrap service, server order and redirects.
func C13_default() {
	tr := &transport{}
	hop := sym.Choice("redirect", 3)
	code := []int{301, 302, 303, 307, 308}[sym.Choice("code", 5)]
	fails := sym.Choice("fails", 3)
	q := textIn("q", 1, "ab") + ".com"
	tr.reply = func(t *transport, r *http.Request) (*http.Response, error) {
		switch r.URL.Host {
		case "data.iana.org":
			return t.resp(200, sym.JSON(sym.Obj().Set("services", sym.Arr(sym.Arr(sym.Strs("com"), sym.Strs(serverURLs(3)...))))), nil), nil
		case "moved.example":
			if r.URL.Path == "/next" {
				p := t.resp(code, nil, nil)
				p.Header.Set("Location", "/last")
				return p, nil
			}
			return t.resp(200, domDoc("M"), nil), nil
		}
		for i := 0; i < fails; i++ {
			if r.URL.Host == "s"+strconv.Itoa(i)+".example" {
				return nil, errWire
			}
		}
		if hop > 0 {
			p := t.resp(code, nil, nil)
			p.Header.Set("Location", []string{"", "https://moved.example/last", "https://moved.example/next"}[hop])
			return p, nil
		}
		return t.resp(200, domDoc("S"+strconv.Itoa(fails)), nil), nil
	}
	old := http.DefaultTransport
	http.DefaultTransport = tr
	c := &rdap.Client{}
	n := 1 + sym.Choice("again", 2)
	for k := 0; k < n; k++ {
		tr.reqs = nil
		resp, err := c.Do(rdap.NewDomainRequest(q))
		sym.Assert(err == nil && resp != nil, "query failed")
		d, ok := resp.Object.(*rdap.Domain)
		want := "S" + strconv.Itoa(fails)
		if hop > 0 {
			want = "M"
		}
		sym.Assert(ok && d.Handle == want, "not the object of the server that answered")
		var urls []string
		if k == 0 {
			urls = append(urls, "https://data.iana.org/rdap/dns.json")
		}
		for i := 0; i <= fails; i++ {
			urls = append(urls, "https://s"+strconv.Itoa(i)+".example/r"+strconv.Itoa(i)+"/domain/"+q)
		}
		if hop == 2 {
			urls = append(urls, "https://moved.example/next")
		}
		if hop > 0 {
			urls = append(urls, "https://moved.example/last")
		}
		var got []string
		for _, r := range tr.reqs {
			got = append(got, r.url)
			sym.Assert(r.method == "GET", "not a GET")
		}
		sym.Assert(sameStrs(got, urls), "not the exchanges expected")
		sym.Assert(len(resp.HTTP) == fails+1, "an attempt is missing from the response")
	}
	http.DefaultTransport = old
	sym.Assert(tr.closed == tr.opened, "response body left open")
}

// C13_anyurl: whatever URLs a registry publishes, the client asks each in
// turn and reports the outcome.
func C13_anyurl() {
	odd := []string{"", "http://h", "http:", "//", "http://[::1", "http://u@", "a/b", "http://h/%2"}[sym.Choice("form", 8)] +
		text("odd", upTo("len", sym.Param("L", 2)))
	for i := range odd {
		sym.Assume(odd[i] < 0x80)
	}
	u, perr := url.Parse(odd)
	sym.Assume(perr == nil)
	tr := &transport{}
	tr.reply = func(t *transport, r *http.Request) (*http.Response, error) {
		if r.URL.Host == "good.example" {
			return t.resp(200, domDoc("G"), nil), nil
		}
		return nil, errWire
	}
	btr := bootTransport(odd, "https://good.example/")
	last := sym.Choice("last", 2) == 1
	if last {
		btr = bootTransport(odd)
	}
	c := &rdap.Client{HTTP: &http.Client{Transport: tr}, Bootstrap: &bootstrap.Client{HTTP: &http.Client{Transport: btr}}}
	resp, err := c.Do(rdap.NewDomainRequest("x.com"))
	sym.Assert(resp != nil && resp.BootstrapAnswer != nil, "no response")
	us := resp.BootstrapAnswer.URLs
	sym.Assert(len(us) > 0 && sameURL(us[0], u), "not the registry's URL")
	if u.Host == "good.example" {
		return
	}
	if last {
		sym.Cover("alone")
		sym.Assert(isClientErr(err, rdap.NoWorkingServers), "not the no-working-servers error")
		sym.Assert(len(resp.HTTP) == 1 && resp.HTTP[0].Error != nil, "attempt not recorded with its error")
		return
	}
	sym.Cover("next")
	sym.Assert(err == nil, "the next server was not asked")
	d, ok := resp.Object.(*rdap.Domain)
	sym.Assert(ok && d.Handle == "G", "not the object of the server that answered")
	sym.Assert(len(resp.HTTP) == 2 && resp.HTTP[0].Error != nil, "attempt not recorded with its error")
}

// C13_status: every status code, for every kind of body.
func C13_status() {
	var ss []script
	for i := 0; i < 2; i++ {
		s := script{kind: 1 + sym.Choice("kind", 3), status: anyStatus("status")}
		s.body = domDoc("S" + strconv.Itoa(i))
		if s.kind == 2 {
			s.body = undecodable[sym.Choice("bad", len(undecodable))]
		} else if s.kind == 3 {
			s.body = nil
		}
		ss = append(ss, s)
	}
	runServers(ss, false, false)
}

// C13_boot: which requests are bootstrapped, with which registry, and failures of it.
func C13_boot() {
	tr := &transport{}
	tr.reply = func(t *transport, r *http.Request) (*http.Response, error) { return t.resp(200, domDoc("H"), nil), nil }
	btr := bootTransport(serverURLs(2)...)
	fail := sym.Choice("fail", 3)
	if fail == 1 {
		btr.reply = func(t *transport, r *http.Request) (*http.Response, error) { return nil, errWire }
	} else if fail == 2 {
		btr.reply = func(t *transport, r *http.Request) (*http.Response, error) { return t.resp(404, nil, nil), nil }
	}
	verbose := 0
	c := &rdap.Client{HTTP: &http.Client{Transport: tr}, Bootstrap: &bootstrap.Client{HTTP: &http.Client{Transport: btr}}}
	if sym.Choice("verbose", 2) == 1 {
		c.Verbose = func(string) { verbose++ }
	}
	typ := sym.Choice("type", 16)
	if typ == 0 {
		resp, err := c.Do(nil)
		sym.Assert(err != nil && isClientErr(err, rdap.InputError), "nil request accepted")
		sym.Assert(resp == nil || resp.Object == nil, "object from a nil request")
		sym.Assert(len(tr.reqs)+len(btr.reqs) == 0, "HTTP for a nil request")
		return
	}
	rt := rdap.RequestType(typ)
	q, file, match := "x", "", true
	switch rt {
	case rdap.DomainRequest:
		file = "dns.json"
		q = textIn("q", 1, "ab.") + ".co" + textIn("q", 1, "mn")
		match = q[len(q)-1] == 'm'
	case rdap.AutnumRequest:
		file = "asn.json"
		q = "429496729" + textIn("q", 1, "015")
		match = q[len(q)-1] == '0'
	case rdap.EntityRequest:
		file = "object-tags.json"
		q = textIn("q", 1, "-a") + "-TA" + textIn("q", 1, "GH")
		match = q[len(q)-1] == 'G'
	case rdap.IPRequest:
		if sym.Choice("v6", 2) == 1 {
			file = "ipv6.json"
			q = textIn("q", 1, "18f") + "001:db8::1"
			match = q[0] == '1'
		} else {
			file = "ipv4.json"
			q = textIn("q", 1, "12") + "20.0.0.0/24"
			match = q[0] == '1'
		}
	}
	if sym.Choice("constructor", 2) == 1 && rt != rdap.RawRequest {
		q = strings.ToUpper(strings.ToLower(q))
	}
	resp, err := c.Do(rdap.NewRequest(rt, q))
	switch {
	case file == "":
		sym.Cover("unsupported")
		sym.Assert(isClientErr(err, rdap.BootstrapNotSupported), "request type that needs a server is not rejected")
		sym.Assert(len(tr.reqs)+len(btr.reqs) == 0, "HTTP for a request that needs a server")
		sym.Assert(resp == nil || resp.Object == nil, "object without an answer")
	case fail != 0:
		sym.Cover("bootstrap failed")
		sym.Assert(err != nil && len(tr.reqs) == 0, "bootstrap failure ignored")
		sym.Assert(resp == nil || resp.Object == nil, "object without an answer")
	case !sym.Fork(match) && rt != rdap.DomainRequest && rt != rdap.EntityRequest, !match:
		sym.Cover("no match")
		sym.Assert(isClientErr(err, rdap.BootstrapNoMatch), "no error although no server is known")
		sym.Assert(len(tr.reqs) == 0, "RDAP query without a server")
	default:
		sym.Cover("match")
		sym.Assert(err == nil && resp.Object != nil, "query failed")
		sym.Assert(len(tr.reqs) == 1, "not one query")
		sym.Assert(strings.HasPrefix(tr.reqs[0].url, "https://s0.example/r0/"), "not the first server")
	}
	if file != "" {
		sym.Assert(len(btr.reqs) == 1 && btr.reqs[0].url == bootstrap.DefaultBaseURL+file, "wrong registry consulted")
		sym.Assert(btr.reqs[0].method == "GET", "not a GET")
	}
	sym.Assert(tr.closed == tr.opened && btr.closed == btr.opened, "body left open")
	sym.Assert(c.Bootstrap.Verbose == nil, "bootstrap client's callback replaced")
}

// C11_do: running a request leaves it and the registry unchanged.
func C11_do() {
	tr := &transport{}
	n := sym.Choice("fails", 5)
	tr.reply = func(t *transport, r *http.Request) (*http.Response, error) {
		if len(t.reqs) <= n {
			return t.resp(500, nil, nil), nil
		}
		return t.resp(200, domDoc("H"), nil), nil
	}
	urls := []string{"https://s0.example/r?p=1&q", "https://u:p@s1.example#f", "https://s2.example/x%2Fy/?", "//s3.example/n"}
	btr := bootTransport(urls...)
	bc := &bootstrap.Client{HTTP: &http.Client{Transport: btr}}
	c := &rdap.Client{HTTP: &http.Client{Transport: tr}, Bootstrap: bc}
	d := []docReq{docReqs[1], docReqs[6], rawDoc}[sym.Choice("type", 3)]
	r := someRequest(d, 3)
	if d.typ == rdap.DomainRequest {
		if sym.Choice("boot", 2) == 1 {
			r.Server = nil
			r.Query = textIn("dom", 1, "ab") + ".com"
		}
	}
	if sym.Choice("ctx", 2) == 1 {
		r = r.WithContext(context.WithValue(context.Background(), ctxKey{}, 7))
	}
	s := snap(r)
	var first []string
	for k := 0; k < 2; k++ {
		tr.reqs = nil
		c.Do(r)
		s.same(r, "running the request")
		var got []string
		for _, x := range tr.reqs {
			got = append(got, x.url)
		}
		sym.Assert(len(got) > 0, "no query")
		if k == 0 {
			first = got
		} else {
			sym.Assert(sameStrs(got, first), "the same request gives other queries the second time")
		}
	}
	if r.Server == nil {
		sym.Cover("bootstrapped")
		us := bc.DNS().File().Entries["com"]
		sym.Assert(len(us) == len(urls), "registry lost URLs")
		for i := range us {
			w, _ := url.Parse(urls[i])
			sym.Assert(sameURL(us[i], w), "registry URL changed")
		}
		ans, err := bc.Lookup(&bootstrap.Question{RegistryType: bootstrap.DNS, Query: "x.com"})
		sym.Assert(err == nil && sameStrs(urlStrs(ans.URLs), urlStrs(us)), "answers changed")
	}
}

// quick runs one of the three helpers and reports what it returned.
func quick(c *rdap.Client, which int) (obj bool, handle string, err error) {
	switch which {
	case 0:
		d, err := c.QueryDomain("example.com")
		if d != nil {
			return true, d.Handle, err
		}
		return false, "", err
	case 1:
		d, err := c.QueryAutnum("AS5400")
		if d != nil {
			return true, d.Handle, err
		}
		return false, "", err
	}
	d, err := c.QueryIP("2001:db8::1")
	if d != nil {
		return true, d.Handle, err
	}
	return false, "", err
}

var classes = []string{"domain", "autnum", "ip network", "entity", "nameserver"}
var quickPaths = []string{"domain/example.com", "autnum/AS5400", "ip/2001:db8::1"}

func quickClient(tr *transport) (*rdap.Client, *transport) {
	btr := bootTransport("https://s0.example/", "https://s1.example/")
	return &rdap.Client{HTTP: &http.Client{Transport: tr}, Bootstrap: &bootstrap.Client{HTTP: &http.Client{Transport: btr}}}, btr
}

// fillRich adds what real answers carry besides the class.
func fillRich(doc *sym.Node) {
	note := sym.Arr(sym.Obj().Set("title", sym.Str("t")).Set("description", sym.Strs("a", "b")))
	doc.Set("rdapConformance", sym.Strs("rdap_level_0", "x")).Set("notices", note).Set("remarks", note).
		Set("lang", sym.Str("en")).Set("status", sym.Strs("active", "locked")).Set("port43", sym.Str("w.example")).
		Set("ldhName", sym.Str("example.com")).Set("startAddress", sym.Str("192.0.2.0")).Set("endAddress", sym.Str("192.0.2.255")).
		Set("startAutnum", sym.Num(5400)).Set("endAutnum", sym.Num(5400)).
		Set("links", sym.Arr(sym.Obj().Set("href", sym.Str("https://x/")))).
		Set("events", sym.Arr(sym.Obj().Set("eventAction", sym.Str("registration")).Set("eventDate", sym.Str("2020")))).
		Set("entities", sym.Arr(sym.Obj().Set("objectClassName", sym.Str("entity")).Set("handle", sym.Str("E")))).
		Set("x_unknown", sym.Num(1))
}

// C14_answer: every kind of answer and failure, for each helper.
func C14_answer() {
	which := sym.Choice("helper", 3)
	kind := sym.Choice("answer", 15)
	rich := sym.Choice("rich", 2) == 1
	handle := "h" + text("handle", 1)
	doc := sym.Obj().Set("handle", sym.Str(handle))
	status := 200
	var fail error
	var raw []byte
	switch kind {
	case 0, 1, 2, 3, 4:
		doc = doc.Set("objectClassName", sym.Str(classes[kind]))
	case 5:
		doc = doc.Set("objectClassName", sym.Str(text("class", upTo("clen", 2))))
	case 6:
		doc = doc.Set("domainSearchResults", sym.Arr(sym.Obj().Set("objectClassName", sym.Str("domain"))))
	case 7:
		doc = doc.Set("entitySearchResults", sym.Arr()).Set("nameserverSearchResults", sym.Arr())
	case 8: // help
	case 9:
		doc = doc.Set("errorCode", sym.Num(418)).Set("objectClassName", sym.Str(classes[which]))
	case 10:
		status = 404
	case 11:
		fail = errWire
	case 12:
		raw = []byte("{]")
	case 13:
		status = 500
	case 14: // nothing but the type
		handle = ""
		doc = sym.Obj().Set("objectClassName", sym.Str(classes[which]))
		if rich {
			doc.Set("handle", sym.Nul())
		}
	}
	if rich && kind < 10 {
		fillRich(doc)
	}
	tr := &transport{}
	tr.reply = func(t *transport, r *http.Request) (*http.Response, error) {
		if fail != nil {
			return nil, fail
		}
		if raw != nil {
			return t.resp(status, raw, nil), nil
		}
		return t.resp(status, sym.JSON(doc), nil), nil
	}
	c, btr := quickClient(tr)
	bootFail := sym.Choice("bootfail", 2) == 1
	if bootFail {
		btr.reply = func(t *transport, r *http.Request) (*http.Response, error) { return nil, errWire }
	}
	obj, h, err := quick(c, which)
	sym.Assert(obj == (err == nil), "both or neither of object and error")
	if bootFail {
		sym.Assert(err != nil && errors.Is(err, errWire), "bootstrap error lost")
		return
	}
	sym.Assert(len(tr.reqs) > 0 && tr.reqs[0].url == "https://s0.example/"+quickPaths[which], "not the query asked for")
	switch {
	case kind <= 4, kind == 14:
		if kind == which || kind == 14 {
			sym.Cover("object")
			sym.Assert(obj && h == handle, "not the object the server sent")
		} else {
			sym.Cover("wrong type")
			sym.Assert(isClientErr(err, rdap.WrongResponseType), "answer of another type is not a wrong-type error")
		}
	case kind == 6 || kind == 7 || kind == 8:
		sym.Assert(isClientErr(err, rdap.WrongResponseType), "answer of another type is not a wrong-type error")
	case kind == 9:
		sym.Assert(isClientErr(err, rdap.RDAPServerError), "error object is not a server error")
	case kind == 10:
		sym.Assert(isClientErr(err, rdap.ObjectDoesNotExist), "404 is not a not-found error")
	default:
		sym.Assert(isClientErr(err, rdap.NoWorkingServers), "failure is not a no-working-servers error")
		sym.Assert(len(tr.reqs) == 2, "not every server tried")
	}
}

// C14_error: the text of a server error.
func C14_error() {
	which := sym.Choice("helper", 3)
	ds, dv := "", uint64(0)
	doc := sym.Obj()
	title, desc := "t", []string{"d"}
	codeOK := true
	form := sym.Choice("form", 5)
	if form == 2 {
		title, desc = text("title", upTo("tlen", 2)), nil
		for i := upTo("nd", sym.Param("NL", 3)); i > 0; i-- {
			desc = append(desc, text("desc", 1)+"d")
		}
	}
	if form < 2 {
		ds, dv = decimal("code", 1+upTo("digits", sym.Param("ND", 2)))
	}
	switch form {
	case 0:
		doc.Set("errorCode", sym.Num(float64(uint16(dv))))
		for len(ds) > 1 && ds[0] == '0' {
			ds = ds[1:]
		}
	case 1:
		doc.Set("errorCode", sym.Str(ds))
		for len(ds) > 1 && ds[0] == '0' {
			ds = ds[1:]
		}
	case 2:
		ds = "65535"
		doc.Set("errorCode", sym.Num(65535))
	case 3:
		codeOK = false
		doc.Set("errorCode", value("odd"))
	case 4:
		codeOK = false
		doc.Set("errorCode", sym.Num(65536))
	}
	doc.Set("title", sym.Str(title)).Set("description", sym.Strs(desc...)).Set("objectClassName", sym.Str(classes[which]))
	tr := &transport{}
	tr.reply = func(t *transport, r *http.Request) (*http.Response, error) {
		return t.resp(200, sym.JSON(doc), nil), nil
	}
	c, _ := quickClient(tr)
	obj, _, err := quick(c, which)
	sym.Assert(!obj && err != nil, "object although the server sent an error")
	sym.Assert(isClientErr(err, rdap.RDAPServerError), "error object is not a server error")
	msg := err.Error()
	if codeOK {
		sym.Assert(strings.Contains(msg, "code "+ds), "the server's code is not in the text")
		sym.Observe("msg", msg)
	}
	sym.Assert(strings.Contains(msg, "'"+title+"'"), "the server's title is not in the text")
	sym.Assert(strings.Contains(msg, "'"+strings.Join(desc, " ")+"'"), "the server's description is not in the text")
}

// C15_http: method, headers, context, deadline and closing for every exchange.
func C15_http() {
	n := 2
	faults := sym.Choice("aspect", 2) == 0
	ss := make([]script, n)
	for i := range ss {
		ss[i].draw = func(s *script) {
			s.kind, s.status, s.body = 3, 500, nil
			if faults {
				s.kind, s.status = pick("kind", 5), anyStatus("status")
			}
			switch s.kind {
			case 1:
				s.body = domDoc("S")
			case 2:
				s.body = []byte("{")
			}
		}
	}
	tr := scriptedTransport(ss)
	btr := bootTransport(serverURLs(n)...)
	bk := sym.Choice("boot", 4)
	if bk > 0 {
		btr.reply = func(t *transport, r *http.Request) (*http.Response, error) {
			switch bk {
			case 1:
				return t.resp(404, []byte("x"), nil), nil
			case 2:
				return t.resp(200, []byte("{"), nil), nil
			}
			return t.resp(200, []byte("{"), errWire), nil
		}
	}
	c := &rdap.Client{HTTP: &http.Client{Transport: tr}, Bootstrap: &bootstrap.Client{HTTP: &http.Client{Transport: btr}}}
	if sym.Choice("ua", 2) == 1 {
		c.UserAgent = "ua" + textIn("uac", 1, "abc/ ")
	}
	req := rdap.NewRequest(rdap.DomainRequest, "example.com")
	server := sym.Choice("server", 4)
	switch server {
	case 2: // a request for the URL itself
		u, _ := url.Parse("https://raw.example/x?y=z")
		req = rdap.NewRawRequest(u)
	case 3: // neither HTTP client configured
		old := http.DefaultTransport
		http.DefaultTransport = &hostTransport{tr, btr}
		defer func() { http.DefaultTransport = old }()
		c.HTTP, c.Bootstrap = nil, nil
	case 1:
		req.Server, _ = url.Parse("https://fixed.example/")
	}
	start := time.Now()
	limit := int64(-1) // seconds; -1: none
	ctx := context.WithValue(context.Background(), ctxKey{}, "mine")
	if faults {
		req = req.WithContext(ctx)
		c.Do(req)
		checkExchanges(c, tr, btr, ctx, start, limit)
		return
	}
	if sym.Choice("ctxdl", 2) == 1 {
		limit = secs("ctxlimit", 9) + 1
		c2, cancel := context.WithTimeout(ctx, time.Duration(limit)*time.Second)
		defer cancel()
		ctx = c2
	}
	if limit >= 0 || sym.Choice("setctx", 2) == 1 {
		req = req.WithContext(ctx)
	} else {
		ctx = nil
	}
	if sym.Choice("timeout", 2) == 1 {
		t := secs("limit", 9) + 1
		req.Timeout = time.Duration(t) * time.Second
		if limit < 0 || sym.Fork(t < limit) {
			limit = t
		}
	}
	c.Do(req)
	checkExchanges(c, tr, btr, ctx, start, limit)
}

// hostTransport sends requests for the registry one way and others another.
type hostTransport struct{ servers, registry *transport }

func (h *hostTransport) RoundTrip(r *http.Request) (*http.Response, error) {
	if r.URL.Host == "data.iana.org" {
		return h.registry.RoundTrip(r)
	}
	return h.servers.RoundTrip(r)
}

func checkExchanges(c *rdap.Client, tr, btr *transport, ctx context.Context, start time.Time, limit int64) {
	all := append(append([]reqRec(nil), btr.reqs...), tr.reqs...)
	sym.Assert(len(all) > 0, "nothing sent")
	for i, r := range all {
		sym.Assert(r.method == "GET" && r.bodyLen == 0, "not a plain GET")
		if ctx != nil {
			sym.Assert(r.ctx.Value(ctxKey{}) == "mine", "the caller's context is not used")
		}
		dl, has := r.ctx.Deadline()
		if limit >= 0 {
			sym.Assert(has, "no deadline on a request")
			sym.Assert(dl.Sub(start) == time.Duration(limit)*time.Second, "wrong deadline on a request")
		} else {
			sym.Assert(!has, "deadline nobody asked for")
		}
		if i >= len(btr.reqs) {
			sym.Assert(strings.Contains(r.accept, "application/rdap+json"), "RDAP JSON not asked for")
			sym.Assert(r.ua == c.UserAgent, "wrong user agent")
		}
	}
	sym.Assert(tr.closed == tr.opened && btr.closed == btr.opened, "response body left open")
}

// C15_query: the helpers bound their requests to 30 seconds.
func C15_query() {
	which := sym.Choice("helper", 3)
	k := sym.Choice("kind", 6)
	tr := scriptedTransport([]script{{kind: []int{0, 1, 2, 3, 4, 1}[k], status: []int{200, 200, 200, 200, 200, 404}[k], body: domDoc("S")}, {kind: 5}})
	c, btr := quickClient(tr)
	if sym.Choice("ua", 2) == 1 {
		c.UserAgent = "agent"
	}
	start := time.Now()
	quick(c, which)
	checkExchanges(c, tr, btr, nil, start, 30)
}

var _ = io.EOF
