package h

import (
	"context"
	"net"
	"net/url"
	"strconv"
	"strings"
	"time"

	"github.com/openrdap/rdap"

	"verifharness/sym"
)

func init() {
	All["C10_query"] = Spec{F: C10_query}
	All["C10_server"] = Spec{F: C10_server}
	All["C10_raw"] = Spec{F: C10_raw}
	All["C10_new"] = Spec{F: C10_new}
	All["C11_url"] = Spec{F: C11_url}
	All["C11_copy"] = Spec{F: C11_copy}
	All["C12_text"] = Spec{F: C12_text}
	All["C12_forms"] = Spec{F: C12_forms}
}

// docReq is one documented kind of request.
type docReq struct {
	typ   rdap.RequestType
	path  string
	seg   bool   // the query is a path segment
	param string // or the value of this parameter
}

var docReqs = []docReq{
	{rdap.AutnumRequest, "autnum/", true, ""},
	{rdap.DomainRequest, "domain/", true, ""},
	{rdap.EntityRequest, "entity/", true, ""},
	{rdap.NameserverRequest, "nameserver/", true, ""},
	{rdap.IPRequest, "ip/", true, ""},
	{rdap.HelpRequest, "help", false, ""},
	{rdap.DomainSearchRequest, "domains", false, "name"},
	{rdap.DomainSearchByNameserverRequest, "domains", false, "nsLdhName"},
	{rdap.DomainSearchByNameserverIPRequest, "domains", false, "nsIp"},
	{rdap.NameserverSearchRequest, "nameservers", false, "name"},
	{rdap.NameserverSearchByNameserverIPRequest, "nameservers", false, "ip"},
	{rdap.EntitySearchRequest, "entities", false, "fn"},
	{rdap.EntitySearchByHandleRequest, "entities", false, "handle"},
	{rdap.AutnumSearchRequest, "autnums", false, "handle"},
}

func unhex(b byte) (byte, bool) {
	dig, up, low := sym.And(b >= '0', b <= '9'), sym.And(b >= 'A', b <= 'F'), sym.And(b >= 'a', b <= 'f')
	return sym.Ite8(dig, b-'0', sym.Ite8(up, b-'A'+10, b-'a'+10)), sym.Or(dig, up, low)
}

// unescape decodes percent escapes; plus is what '+' means.
func unescape(s string, plus byte) (string, bool) {
	var out []byte
	valid := true
	for i := 0; i < len(s); i++ {
		if s[i] == '%' {
			if i+2 >= len(s) {
				return "", false
			}
			a, ok1 := unhex(s[i+1])
			b, ok2 := unhex(s[i+2])
			valid = sym.And(valid, ok1, ok2)
			out = append(out, a<<4|b)
			i += 2
			continue
		}
		out = append(out, sym.Ite8(s[i] == '+', plus, s[i]))
	}
	return string(out), valid
}

// pair is one URL parameter.
type pair struct{ k, v string }

func splitOn(s string, c byte) []string {
	var out []string
	last := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			out = append(out, s[last:i])
			last = i + 1
		}
	}
	return append(out, s[last:])
}

func params(raw string) []pair {
	if raw == "" {
		return nil
	}
	var out []pair
	for _, p := range splitOn(raw, '&') {
		k, v := p, ""
		for i := 0; i < len(p); i++ {
			if p[i] == '=' {
				k, v = p[:i], p[i+1:]
				break
			}
		}
		k, ok1 := unescape(k, ' ')
		v, ok2 := unescape(v, ' ')
		sym.Assert(sym.And(ok1, ok2), "bad escape in the URL's parameters")
		out = append(out, pair{k, v})
	}
	return out
}

// wire splits a URL text as RFC 3986 does.
func wire(s string) (scheme, auth, path, query, frag string, hasQ, hasF bool) {
	for i := 0; i < len(s); i++ {
		if s[i] == ':' {
			scheme, s = s[:i], s[i+1:]
			break
		}
	}
	for i := 0; i < len(s); i++ {
		if s[i] == '#' {
			s, frag, hasF = s[:i], s[i+1:], true
			break
		}
	}
	for i := 0; i < len(s); i++ {
		if s[i] == '?' {
			s, query, hasQ = s[:i], s[i+1:], true
			break
		}
	}
	if len(s) >= 2 && s[0] == '/' && s[1] == '/' {
		s = s[2:]
		n := len(s)
		for i := 0; i < len(s); i++ {
			if s[i] == '/' {
				n = i
				break
			}
		}
		auth, s = s[:n], s[n:]
	}
	return scheme, auth, s, query, frag, hasQ, hasF
}

// samePairs: the same values, in order, per name.
func samePairs(got, want []pair) bool {
	if len(got) != len(want) {
		return false
	}
	for _, w := range want {
		var a, b []string
		for _, x := range want {
			if x.k == w.k {
				a = append(a, x.v)
			}
		}
		for _, x := range got {
			if x.k == w.k {
				b = append(b, x.v)
			}
		}
		if !sameStrs(a, b) {
			return false
		}
	}
	return true
}

// checkSegment: enc is q as one path segment (two for a CIDR range).
func checkSegment(d docReq, enc, q string) {
	dec, ok := unescape(enc, '+')
	sym.Assert(ok, "bad escape in the path")
	sym.Assert(dec == q, "the path segment does not decode to the query text")
	slashes := 0
	for i := 0; i < len(enc); i++ {
		if enc[i] == '/' {
			slashes++
		}
		sym.Assert(sym.And(enc[i] > ' ', enc[i] < 0x7f, enc[i] != '\\', enc[i] != '"'), "raw byte in the URL")
	}
	want := 0
	if d.typ == rdap.IPRequest && strings.IndexByte(q, '/') >= 0 {
		want = 1
	}
	sym.Assert(slashes <= want, "the query text adds path segments")
}

func checkURL(d docReq, u *url.URL, q, scheme, auth, prefix, frag string, kept []pair) {
	sym.Assert(u != nil, "no URL")
	s := u.String()
	checkWire(d, s, q, scheme, auth, prefix, frag, kept)
	// the URL also says the same when used as a value
	if d.seg {
		sym.Assert(u.Path == mustUnescape(prefix)+d.path+q, "decoded path differs")
	}
	sym.Observe("url", s)
}

// checkWire: the URL text s is the documented one.
func checkWire(d docReq, s, q, scheme, auth, prefix, frag string, kept []pair) {
	gs, ga, gp, gq, gf, _, _ := wire(s)
	sym.Assert(gs == scheme && ga == auth, "the server was changed")
	full := prefix + d.path
	sym.Assert(len(gp) >= len(full) && gp[:len(full)] == full, "not the documented path for the type")
	if d.seg {
		checkSegment(d, gp[len(full):], q)
	} else {
		sym.Assert(len(gp) == len(full), "path added")
	}
	want := kept
	if d.param != "" {
		want = nil
		for _, p := range kept {
			if p.k != d.param {
				want = append(want, p)
			}
		}
		want = append(want, pair{d.param, q})
	}
	sym.Assert(samePairs(params(gq), want), "wrong parameters")
	sym.Assert(gf == frag, "fragment added or lost")
}

func mustUnescape(s string) string { d, _ := unescape(s, '+'); return d }

// C10_query: arbitrary query text for every type.
func C10_query() {
	d := docReqs[sym.Choice("type", len(docReqs))]
	q := bytesN("q", upTo("qlen", sym.Param("L", 3)))
	server, err := url.Parse("https://rdap.example/v1")
	sym.Assert(err == nil, "server")
	u := rdap.NewRequest(d.typ, string(q)).WithServer(server).URL()
	checkURL(d, u, string(q), "https", "rdap.example", "/v1/", "", nil)
}

// C10_server: every kind of server URL and caller parameters.
func C10_server() {
	d := docReqs[[]int{1, 4, 5, 6, 13}[sym.Choice("type", 5)]]
	scheme, auth, path, qs, frag, withParams := "https", "rdap.example", "/v1", "", "", 0
	if sym.Choice("aspect", 2) == 0 {
		scheme = []string{"https", "http"}[sym.Choice("scheme", 2)]
		auth = []string{"rdap.example", "u:p%40x@rdap.example:8443", "[2001:db8::1]:80"}[sym.Choice("auth", 3)]
		path = []string{"", "/", "/v1", "/v1/", "/a%2Fb", "/a%20b/", "//x", "/a%2F", "/v1//", "//"}[sym.Choice("path", 10)]
		if sym.Choice("tail", 2) == 1 {
			path += "/" + textIn("seg", 1, "az09-_.~!$&'()*+,;=:@") + "x"
		}
	} else {
		qs = []string{"", "?", "?s=1", "?s=1&s=2%26&t=", "?name=old&handle=h", "?k=server"}[sym.Choice("query", 6)]
		frag = []string{"", "#f"}[sym.Choice("frag", 2)]
		withParams = sym.Choice("params", 3)
	}
	var kept []pair
	switch qs {
	case "?s=1":
		kept = []pair{{"s", "1"}}
	case "?s=1&s=2%26&t=":
		kept = []pair{{"s", "1"}, {"s", "2&"}, {"t", ""}}
	case "?name=old&handle=h":
		kept = []pair{{"name", "old"}, {"handle", "h"}}
	case "?k=server":
		kept = []pair{{"k", "server"}}
	}
	server, err := url.Parse(scheme + "://" + auth + path + qs + frag)
	sym.Assert(err == nil, "server")
	q := "x" + string(bytesN("q", 1)) + "y/z"
	if d.typ == rdap.IPRequest {
		q = "192.0.2." + textIn("q", 1, "0123456789") + "/24"
	}
	req := rdap.NewRequest(d.typ, q)
	v := ""
	switch withParams {
	case 1:
		v = string(bytesN("v", 1))
		req.Params = url.Values{"k": {v, "2"}}
	case 2:
		v = "p"
		req.Params = url.Values{"name": {"caller"}, "k": {}}
	}
	if req.Params != nil {
		var rest []pair
		for _, p := range kept {
			if _, dup := req.Params[p.k]; !dup {
				rest = append(rest, p)
			}
		}
		for k, vs := range req.Params {
			for _, x := range vs {
				rest = append(rest, pair{k, x})
			}
		}
		kept = rest
	}
	req.Server = server
	prefix := path
	if prefix == "" || prefix[len(prefix)-1] != '/' {
		prefix += "/"
	}
	if len(frag) > 0 {
		frag = frag[1:]
	}
	checkURL(d, req.URL(), q, scheme, auth, prefix, frag, kept)
}

// C10_raw: a raw request's URL is the server URL.
func C10_raw() {
	s := "https://rdap.example/" + textIn("path", upTo("plen", 2), "ab/.%2F~") + []string{"", "?", "?x=1&y", "?a=b#f"}[sym.Choice("rest", 4)]
	server, err := url.Parse(s)
	sym.Assume(err == nil)
	want := *server
	req := rdap.NewRawRequest(server)
	if sym.Choice("form", 2) == 1 {
		req = &rdap.Request{Type: rdap.RawRequest, Server: server, Query: string(bytesN("q", 1)), Params: url.Values{"k": {"v"}}}
	}
	u := req.URL()
	sym.Assert(u != nil && sameURL(u, &want), "a raw request's URL is not the one given")
	sym.Assert(u.String() == want.String(), "a raw request's URL is not the one given")
	sym.Assert((&rdap.Request{Type: rdap.RawRequest}).URL() == nil, "URL without a server")
	sym.Assert(rdap.NewDomainRequest("x").URL() == nil, "URL without a server")
	sym.Observe("url", u.String())
}

// C10_new: the constructors name the object asked for.
func C10_new() {
	server, _ := url.Parse("https://rdap.example/")
	var r *rdap.Request
	var want string
	switch sym.Choice("kind", 8) {
	case 0:
		d, v := decimal("asn", upTo("digits", sym.Param("ASN", 3))+1)
		sym.Assume(sym.Or(len(d) == 1, d[0] != '0'))
		if sym.Choice("top", 2) == 1 {
			v = uint64(4294967290 + sym.Choice("last", 6))
			d = ""
		}
		r, want = rdap.NewAutnumRequest(uint32(v)), "autnum/"
		if d != "" {
			checkNew(r, rdap.AutnumRequest, d)
		} else {
			g, err := strconv.ParseUint(r.Query, 10, 32)
			sym.Assert(err == nil && g == v, "wrong AS number")
		}
	case 1:
		q := string(bytesN("q", 2))
		r, want = rdap.NewDomainRequest(q), "domain/"
		checkNew(r, rdap.DomainRequest, q)
	case 2:
		q := string(bytesN("q", 2))
		r, want = rdap.NewEntityRequest(q), "entity/"
		checkNew(r, rdap.EntityRequest, q)
	case 3:
		q := string(bytesN("q", 2))
		r, want = rdap.NewNameserverRequest(q), "nameserver/"
		checkNew(r, rdap.NameserverRequest, q)
	case 4:
		r, want = rdap.NewHelpRequest(), "help"
		checkNew(r, rdap.HelpRequest, "")
	case 5:
		ip := net.IP{sym.Byte("a"), 0, 2, sym.Byte("b")}
		r, want = rdap.NewIPRequest(ip), "ip/"
		checkNew(r, rdap.IPRequest, ip.String())
	case 6:
		ip := net.IP{0x20, 1, 0xd, 0xb8, 0, 0, sym.Byte("a"), 0, 0, 0, 0, 0, 0, 0, 0, sym.Byte("b")}
		r, want = rdap.NewIPRequest(ip), "ip/"
		checkNew(r, rdap.IPRequest, ip.String())
	case 7:
		n := &net.IPNet{IP: net.IP{sym.Byte("a"), 0, 0, 0}, Mask: net.CIDRMask(sym.Choice("len", 33), 32)}
		r, want = rdap.NewIPNetRequest(n), "ip/"
		checkNew(r, rdap.IPRequest, n.String())
	}
	r = r.WithServer(server)
	p := r.URL().Path
	sym.Assert(p == "/"+want+r.Query, "not the documented path")
}

func checkNew(r *rdap.Request, t rdap.RequestType, q string) {
	sym.Assert(r != nil && r.Type == t, "wrong request type")
	sym.Assert(r.Query == q, "wrong query text")
	sym.Assert(r.Server == nil && r.Params == nil && r.Timeout == 0, "request with options nobody gave")
}

func sameURL(a, b *url.URL) bool {
	au, bu := "", ""
	if a.User != nil {
		au = a.User.String()
	}
	if b.User != nil {
		bu = b.User.String()
	}
	return sym.And(a.Scheme == b.Scheme, a.Opaque == b.Opaque, au == bu, a.Host == b.Host, a.Path == b.Path, a.RawPath == b.RawPath,
		a.OmitHost == b.OmitHost, a.ForceQuery == b.ForceQuery, a.RawQuery == b.RawQuery, a.Fragment == b.Fragment, a.RawFragment == b.RawFragment)
}

func sameValues(a, b url.Values) bool {
	if (a == nil) != (b == nil) || len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || !sameStrs(v, w) {
			return false
		}
	}
	return true
}

func cloneValues(v url.Values) url.Values {
	if v == nil {
		return nil
	}
	out := url.Values{}
	for k, x := range v {
		out[k] = append([]string(nil), x...)
	}
	return out
}

func someRequest(d docReq, n int) *rdap.Request {
	qs := []string{"", "?", "?s=1&name=n", "#f", "?k=1#f%20g"}[sym.Choice("sq", n)]
	path := []string{"", "/", "/v%2F1", "/v1/"}[sym.Choice("path", n-1)]
	server, err := url.Parse("https://" + []string{"", "u:p@"}[sym.Choice("user", 2)] + "rdap.example" + path + qs)
	sym.Assert(err == nil, "server")
	r := &rdap.Request{Type: d.typ, Query: "q" + string(bytesN("q", 1)), Server: server, Timeout: 3 * time.Second, FetchRoles: []string{"all", "x"}}
	if sym.Choice("params", 2) == 1 {
		r.Params = url.Values{"k": {"v", textIn("pv", 1, "ab &")}, "name": {"z"}}
	}
	return r
}

type reqSnap struct {
	r   rdap.Request
	srv *url.URL
	u   url.URL
	pv  url.Values
	fr  []string
}

func snap(r *rdap.Request) reqSnap {
	s := reqSnap{r: *r, srv: r.Server, pv: cloneValues(r.Params), fr: append([]string(nil), r.FetchRoles...)}
	if r.Server != nil {
		s.u = *r.Server
	}
	return s
}

func (s *reqSnap) same(r *rdap.Request, what string) {
	sym.Assert(r.Type == s.r.Type && r.Query == s.r.Query && r.Timeout == s.r.Timeout && r.Context() == s.r.Context(), what+" changed the request")
	sym.Assert(r.Server == s.srv, what+" replaced the server")
	if s.srv != nil {
		sym.Assert(sameURL(s.srv, &s.u), what+" changed the server URL")
	}
	sym.Assert(sameValues(r.Params, s.pv), what+" changed the parameters")
	sym.Assert(sameStrs(r.FetchRoles, s.fr), what+" changed the roles")
}

var rawDoc = docReq{typ: rdap.RawRequest}

// C11_url: computing the URL changes nothing and is repeatable.
func C11_url() {
	ds := append(append([]docReq(nil), docReqs...), rawDoc)
	d := ds[sym.Choice("type", len(ds))]
	r := someRequest(d, 5)
	s := snap(r)
	u1 := r.URL()
	s.same(r, "URL")
	sym.Assert(u1 != nil, "no URL")
	sym.Assert(u1 != r.Server, "URL returns the server itself")
	c1 := *u1
	u2 := r.URL()
	s.same(r, "URL")
	sym.Assert(u2 != nil && sameURL(u2, &c1), "a second URL differs from the first")
	sym.Assert(sameURL(u1, &c1), "a second URL changes the first")
	// using the result up does not change the request
	u2.Path, u2.RawQuery, u2.Host = "/other", "x=y", "other.example"
	s.same(r, "changing the returned URL")
	u3 := r.URL()
	sym.Assert(sameURL(u3, &c1), "a later URL differs from the first")
	sym.Observe("url", c1.String())
}

// C11_copy: copies differ only in what was asked for.
func C11_copy() {
	ds := append([]docReq{rawDoc}, docReqs[1], docReqs[6], docReqs[4])
	d := ds[sym.Choice("type", len(ds))]
	r := someRequest(d, 2)
	if sym.Choice("noserver", 2) == 1 {
		r.Server = nil
	}
	if sym.Choice("ctx", 2) == 1 {
		r = r.WithContext(context.WithValue(context.Background(), ctxKey{}, 1))
	}
	s := snap(r)
	cur := r
	wantCtx, wantSrv := r.Context(), r.Server
	other, _ := url.Parse("http://other.example/p?z=1")
	for k := 0; k < sym.Param("K", 3); k++ {
		switch sym.Choice("op", 4) {
		case 0:
			ctx := context.WithValue(context.Background(), ctxKey{}, k+2)
			cur2 := cur.WithContext(ctx)
			sym.Assert(cur2 != cur, "WithContext did not copy")
			sym.Assert(cur.Context() == wantCtx, "WithContext changed the original")
			cur, wantCtx = cur2, ctx
		case 1:
			srv := other
			if sym.Choice("nilserver", 2) == 1 {
				srv = nil
			}
			cur2 := cur.WithServer(srv)
			sym.Assert(cur2 != cur, "WithServer did not copy")
			sym.Assert(cur.Server == wantSrv, "WithServer changed the original")
			cur, wantSrv = cur2, srv
		case 2:
			cur.URL()
		case 3:
			cur = cur.WithServer(other)
			cur.Query = "changed"
			sym.Assert(r.Query != "changed", "copy shares the query")
			cur.Query = s.r.Query
			wantSrv = other
		}
		sym.Assert(cur.Context() == wantCtx, "context lost")
		sym.Assert(cur.Server == wantSrv, "server lost")
		sym.Assert(cur.Type == s.r.Type && cur.Query == s.r.Query && cur.Timeout == s.r.Timeout, "copy differs in another field")
		sym.Assert(sameValues(cur.Params, s.pv) && sameStrs(cur.FetchRoles, s.fr), "copy differs in another field")
		s.same(r, "copying")
		sym.Assert(other.String() == "http://other.example/p?z=1", "server URL changed")
	}
}

// autoWant is what a query text means by the documented rules.
type autoWant struct {
	typ  rdap.RequestType
	text string   // the query, if not an AS number
	num  uint64   // the AS number
	url  *url.URL // of a raw request
}

func autoRule(q string) autoWant {
	if u, err := url.Parse(q); err == nil && (u.Scheme == "http" || u.Scheme == "https") {
		if u.Path == "" || u.Path == "/" {
			sym.Cover("url-domain")
			return autoWant{typ: rdap.DomainRequest, text: u.Host}
		}
		sym.Cover("raw")
		return autoWant{typ: rdap.RawRequest, url: u}
	}
	if ip := net.ParseIP(q); ip != nil {
		sym.Cover("ip")
		return autoWant{typ: rdap.IPRequest, text: ip.String()}
	}
	if _, n, err := net.ParseCIDR(q); err == nil {
		sym.Cover("cidr")
		return autoWant{typ: rdap.IPRequest, text: n.String()}
	}
	if v, ok := asNumber(q); ok {
		sym.Cover("autnum")
		return autoWant{typ: rdap.AutnumRequest, num: v}
	}
	for i := 0; i < len(q); i++ {
		if q[i] == '.' {
			sym.Cover("domain")
			return autoWant{typ: rdap.DomainRequest, text: q}
		}
	}
	sym.Cover("entity")
	return autoWant{typ: rdap.EntityRequest, text: q}
}

// asNumber reads an AS number, with or without AS in front.
func asNumber(d string) (uint64, bool) {
	if len(d) >= 2 && (d[0] == 'A' || d[0] == 'a') && (d[1] == 'S' || d[1] == 's') {
		d = d[2:]
	}
	v := uint64(0)
	for i := 0; i < len(d); i++ {
		if d[i] < '0' || d[i] > '9' {
			return 0, false
		}
		if v <= 1<<32 {
			v = v*10 + uint64(d[i]-'0')
		}
	}
	return v, len(d) > 0 && v <= 4294967295
}

// isNumber: s is the plain decimal form of v.
func isNumber(s string, v uint64) bool {
	if len(s) == 0 || len(s) > 10 || (s[0] == '0' && len(s) > 1) {
		return false
	}
	g, ok := uint64(0), true
	for i := 0; i < len(s); i++ {
		ok = sym.And(ok, s[i] >= '0', s[i] <= '9')
		g = g*10 + uint64(s[i]-'0')
	}
	return sym.And(ok, g == v)
}

// autoCheck compares NewAutoRequest with the documented rules.
func autoCheck(q string) {
	r := rdap.NewAutoRequest(q)
	sym.Assert(r != nil, "no request")
	w := autoRule(q)
	sym.Assert(r.Type == w.typ, "the query is misread: not a "+w.typ.String()+" query")
	switch w.typ {
	case rdap.RawRequest:
		sym.Assert(r.Server != nil && sameURL(r.Server, w.url), "raw request for another URL")
		ru := r.URL()
		sym.Assert(ru != nil && sameURL(ru, w.url), "raw request for another URL")
		return
	case rdap.AutnumRequest:
		sym.Assert(isNumber(r.Query, w.num), "another AS number")
	default:
		sym.Assert(r.Query == w.text, "another query text")
	}
	sym.Assert(r.Server == nil && r.Params == nil && r.Timeout == 0, "request with options nobody gave")
}

func noLongS(q string) {
	for i := 0; i+1 < len(q); i++ {
		sym.Assume(!sym.And(q[i] == 0xc5, q[i+1] == 0xbf))
	}
}

// C12_text: arbitrary text.
func C12_text() {
	q := bytesN("q", upTo("qlen", sym.Param("L", 3)))
	noLongS(q)
	autoCheck(string(q))
}

// C12_forms: texts of every documented form with arbitrary parts.
func C12_forms() {
	n := sym.Param("N", 2)
	any := func(k int) string { return text("t", k) }
	var q string
	switch sym.Choice("form", 12) {
	case 0:
		q = []string{"http", "HTTPS", "httpx", "ftp", " http"}[sym.Choice("scheme", 5)] + any(1) + "//h"
	case 1:
		q = "http://h" + any(n)
	case 2:
		q = "https://h.example/" + any(n)
	case 3:
		q = "http://" + any(n) + "/"
	case 4:
		q = "AS" + any(n)
	case 5:
		q = any(2) + textIn("d", n, "0123456789")
	case 6:
		q = []string{"", "as", "aS"}[sym.Choice("as", 3)] + "429496729" + textIn("d", 1, "0123456789") + any(1)
	case 7:
		q = "192.0.2." + any(n)
	case 8:
		q = "10.1.2.3/" + any(n)
	case 9:
		q = "2001:db8:" + any(n)
	case 10:
		q = "2001:db8::1/12" + any(1)
	case 11:
		q = []string{"", "AS"}[sym.Choice("as", 2)] + textIn("d", sym.Param("D", 3), "0123456789")
	}
	autoCheck(q)
}
