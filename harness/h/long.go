package h

import (
	"io"
	"net/http"
	"net/url"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/openrdap/rdap"
	"github.com/openrdap/rdap/bootstrap"
	"github.com/openrdap/rdap/bootstrap/cache"

	"verifharness/sym"
)

// Harnesses with large inputs, of which a few parts are arbitrary.

func init() {
	All["C06_size"] = Spec{F: C06_size}
	All["C08_many"] = Spec{F: C08_many, Clock: true}
	All["C09_many"] = Spec{F: C09_many, Clock: true}
	All["C10_long"] = Spec{F: C10_long}
	All["C12_long"] = Spec{F: C12_long}
	All["C13_size"] = Spec{F: C13_size}
	All["C21_long"] = Spec{F: C21_long}
	All["C22_deep"] = Spec{F: C22_deep}
	All["C22_links"] = Spec{F: C22_links}
	All["C24_long"] = Spec{F: C24_long}
	All["C27_size"] = Spec{F: C27_size}
}

// chunked delivers a body in pieces of at most n bytes, the end on its own or with the last piece.
type chunked struct {
	body
	n    int
	with bool
}

func (c *chunked) Read(p []byte) (int, error) {
	if len(p) > c.n {
		p = p[:c.n]
	}
	n, err := c.body.Read(p)
	if c.with && err == nil && len(c.data) == 0 && c.body.err == nil {
		return n, io.EOF
	}
	return n, err
}

// sized draws a size up to the parameter's.
func sized(param string, def int) int {
	max := sym.Param(param, def)
	all := []int{0, 511, 4096, 33000, 70000, 300000, 1100000, 4400000}
	n := 0
	for n < len(all) && all[n] <= max {
		n++
	}
	return all[sym.Choice("size", n)]
}

// padded is the document with size bytes of white space somewhere.
func padded(parts []string, size int) []byte {
	k := 1
	if size > 0 && size < 300000 {
		k = sym.Choice("padat", len(parts)+1)
	}
	s := ""
	for i, p := range parts {
		if i == k {
			s += strings.Repeat(" \n", size/2)
		}
		s += p
	}
	if k == len(parts) {
		s += strings.Repeat("\t ", size/2)
	}
	return []byte(s)
}

func (t *transport) chunks(data []byte) *http.Response {
	r := t.resp(200, nil, nil)
	n, with := 60000, false
	if len(data) < 300000 {
		n = []int{1 << 30, 1000, 7}[sym.Choice("chunk", 3)]
		if n < len(data)/1000 {
			n = len(data) / 1000
		}
		with = sym.Choice("endwith", 2) == 1
		if sym.Choice("known", 2) == 1 {
			r.ContentLength = int64(len(data))
		}
	}
	r.Body = &chunked{body: body{data: data, closed: &t.closed}, n: n, with: with}
	return r
}

// C06_size: registry files of any size, arriving in any pieces, are downloaded whole and used.
func C06_size() {
	data := padded([]string{`{"services":[[["com"],["https://v1.example/"]]`, `,[["net"],["https://v2.example/"]]]`, `}`}, sized("MAX", 70000))
	tr := &transport{}
	tr.reply = func(t *transport, r *http.Request) (*http.Response, error) { return t.chunks(data), nil }
	c := &bootstrap.Client{HTTP: &http.Client{Transport: tr}}
	tld := sym.Choice("tld", 2)
	q := &bootstrap.Question{RegistryType: bootstrap.DNS, Query: textIn("q", 1, "ab") + []string{".com", ".net"}[tld]}
	for i := 0; i < 2; i++ {
		ans, err := c.Lookup(q)
		sym.Assert(err == nil && ans != nil && verOf(ans) == tld+1, "lookup with a large registry file")
		sym.Assert(len(tr.reqs) == 1, "not downloaded exactly once")
	}
	b, err := c.Cache.Load("dns.json")
	sym.Assert(err == nil && string(b) == string(data), "the cached file is not the one downloaded")
	sym.Assert(tr.closed == 1, "response body left open")
}

// C13_size: answers of any size, arriving in any pieces, are accepted whole.
func C13_size() {
	size := sized("MAX", 70000)
	h := "H"
	if size < 70000 {
		h = textIn("h", 1, "ab")
	}
	data := padded([]string{`{"objectClassName":"domain"`, `,"handle":"` + h + `","status":["a","b"]`, `}`}, size)
	tr := &transport{}
	tr.reply = func(t *transport, r *http.Request) (*http.Response, error) { return t.chunks(data), nil }
	c := &rdap.Client{HTTP: &http.Client{Transport: tr}}
	u, _ := url.Parse("https://s0.example/")
	resp, err := c.Do(rdap.NewDomainRequest("q").WithServer(u))
	sym.Assert(err == nil && resp != nil, "a complete answer was not accepted")
	sym.Assert(len(resp.HTTP) == 1 && string(resp.HTTP[0].Body) == string(data), "the recorded body is not the one received")
	d, ok := resp.Object.(*rdap.Domain)
	sym.Assert(ok && d.Handle == h && sameStrs(d.Status, []string{"a", "b"}), "the answer is not the one received")
	sym.Assert(tr.closed == 1, "response body left open")
}

// C27_size: answers of any size are printed whole.
func C27_size() {
	f, args := oneFormat()
	size := sized("MAX", 33000)
	body := []byte(`{"objectClassName":"domain","handle":"h","port43":"` + strings.Repeat("0123456789", size/10) + `","status":["` + plain("c") + `"],"x-s":"` + strings.Repeat("a b-", size/16) + `"}`)
	args = append(args, "-s", "https://h.example", "-t", "domain", "q")
	c := runCLI(rdap.CLIOptions{}, func(t *transport, r *http.Request) (*http.Response, error) {
		return t.resp(200, body, nil), nil
	}, args...)
	c.outputs(f, body)
	sym.Assert(c.err == "", "message although the query succeeded")
}

// C08_many: many files, large contents and long timeouts.
func C08_many() {
	m := cache.NewMemoryCache()
	n := sym.Param("N", 20)
	name := func(i int) string { return strings.Repeat("x", i%7) + strconv.Itoa(i) + ".json" }
	data := func(i, gen int) string { return strings.Repeat(strconv.Itoa(i)+"/"+strconv.Itoa(gen)+";", i*i%97) }
	timeout := []int64{24 * 3600, 1, 3600, 1 << 31, 1<<32 - 1, 90 * 24 * 3600}[sym.Choice("timeout", 6)]
	if timeout != 24*3600 {
		m.SetTimeout(time.Duration(timeout) * time.Second)
	}
	for i := 0; i < n; i++ {
		sym.Assert(m.Save(name(i), []byte(data(i, 0))) == nil, "save failed")
	}
	d := 4 * int64(sym.U16("adv"))
	sym.AdvanceSec(d)
	again := sym.Choice("again", n)
	tail := bytesN("tail", 1)
	sym.Assert(m.Save(name(again), []byte(data(again, 1)+tail)) == nil, "save failed")
	d2 := int64(sym.U16("adv2"))
	sym.AdvanceSec(d2)
	for i := n - 1; i >= 0; i-- {
		want, age := data(i, 0), d+d2
		if i == again {
			want, age = data(again, 1)+tail, d2
		}
		b, err := m.Load(name(i))
		sym.Assert(err == nil && string(b) == want, "loaded bytes are not those last saved")
		if sym.Fork(age > timeout) {
			sym.Assert(m.State(name(i)) == cache.Expired, "state not expired although the timeout has elapsed")
		} else {
			sym.Assert(m.State(name(i)) == cache.Good, "state not good although the timeout has not elapsed")
		}
	}
	_, err := m.Load(name(n))
	sym.Assert(err != nil && m.State(name(n)) == cache.Absent, "a file nobody saved")
}

// C09_many: many files and large contents on disk, by two caches.
func C09_many() {
	dir := filepath.Join(sym.Dir(), "cache")
	a, b := cache.NewDiskCache(), cache.NewDiskCache()
	a.Dir, b.Dir = dir, dir
	n := sym.Param("N", 12)
	name := func(i int) string { return strings.Repeat("x", i%5) + strconv.Itoa(i) + ".json" }
	data := func(i, gen int) string { return strings.Repeat(strconv.Itoa(i)+"/"+strconv.Itoa(gen)+";", i*i%97) }
	timeout := []int64{24 * 3600, 1 << 31, 1<<32 - 1, 90 * 24 * 3600}[sym.Choice("timeout", 4)]
	if timeout != 24*3600 {
		a.SetTimeout(time.Duration(timeout) * time.Second)
		b.SetTimeout(time.Duration(timeout) * time.Second)
	}
	for i := 0; i < n; i++ {
		sym.Assert(a.Save(name(i), []byte(data(i, 0))) == nil, "save failed")
	}
	sym.SyncFS()
	for i := 0; i < n; i++ {
		sym.Assert(b.State(name(i)) == cache.ShouldReload, "a file of another cache is not reported")
		x, err := b.Load(name(i))
		sym.Assert(err == nil && string(x) == data(i, 0), "loaded bytes are not those last saved")
	}
	d := 1 + 4*int64(sym.U16("adv"))
	sym.AdvanceSec(d)
	again := sym.Choice("again", n)
	shorter := strconv.Itoa(again) + bytesN("tail", 1)
	sym.Assert(b.Save(name(again), []byte(shorter)) == nil, "save failed")
	sym.SyncFS()
	for i := n - 1; i >= 0; i-- {
		want, age := data(i, 0), d
		if i == again {
			want, age = shorter, 0
		}
		sa, sb := a.State(name(i)), b.State(name(i))
		switch {
		case sym.Fork(age >= timeout):
			sym.Assert(sa == cache.Expired && sb == cache.Expired, "a file as old as the timeout is not expired")
		case i == again:
			sym.Assert(sa == cache.ShouldReload && sb == cache.Good, "wrong state of the file saved again")
		default:
			sym.Assert(sa == cache.Good && sb == cache.Good, "wrong state of a file both have seen")
		}
		x, err := a.Load(name(i))
		sym.Assert(err == nil && string(x) == want, "loaded bytes are not those last saved")
	}
	sym.Assert(a.State(name(n)) == cache.Absent, "a file nobody saved")
}

// spot is a long text with arbitrary bytes at one place.
func spot(n int, fill string, any string) string {
	s := strings.Repeat(fill, n/len(fill)+1)[:n]
	k := []int{0, 1, n / 2, n - 1, n}[sym.Choice("spot", 5)]
	return s[:k] + any + s[k:]
}

// C10_long: long query texts and many parameters.
func C10_long() {
	d := docReqs[sym.Choice("type", len(docReqs))]
	n := []int{15, 33, 64, 130, 300}[sym.Choice("len", sym.Param("LENS", 5))]
	q := spot(n, []string{"example.", "a b/%41+~\u00e9"}[sym.Choice("fill", 2)], bytesN("q", 1))
	if d.typ == rdap.IPRequest {
		q = strings.ReplaceAll(q[:len(q)-3], "/", "-") + "/24"
	}
	server, err := url.Parse("https://rdap.example/v1")
	sym.Assert(err == nil, "server")
	req := rdap.NewRequest(d.typ, q)
	var kept []pair
	if sym.Choice("params", 2) == 1 {
		req.Params = url.Values{}
		for i := 0; i < sym.Param("NP", 12); i++ {
			k := "p" + strconv.Itoa(i)
			v := strings.Repeat("v&=", i) + "%2"
			req.Params[k] = []string{v, "", "w"}
			kept = append(kept, pair{k, v}, pair{k, ""}, pair{k, "w"})
		}
	}
	checkURL(d, req.WithServer(server).URL(), q, "https", "rdap.example", "/v1/", "", kept)
}

// C12_long: long texts of every form.
func C12_long() {
	any := func(k int) string { return text("t", k) }
	n := []int{20, 40, 70, 260}[sym.Choice("len", 4)]
	var q string
	switch sym.Choice("form", 9) {
	case 0:
		q = strings.Repeat("label.", n/6) + any(2)
	case 1:
		q = strings.Repeat("a", n) + any(1) + "com"
	case 2:
		q = strings.Repeat("HANDLE-", n/7) + any(2)
	case 3:
		q = []string{"", "AS", "as"}[sym.Choice("as", 3)] + strings.Repeat("0", n) + textIn("d", 1, "0123456789") + any(1)
	case 4:
		q = "AS" + strings.Repeat("7", n) + any(1)
	case 5:
		q = []string{"2001:0db8:0000:1111:2222:3333:4444:55", "2001:db8:0:1111:2222:3333:192.0.2.2", "FFFF:ffff:ffff:ffff:ffff:ffff:ffff:fff", "::ffff:255.255.255.2"}[sym.Choice("ip", 4)] + any(2)
	case 6:
		q = "https://rdap.example/" + strings.Repeat("path/", n/5) + any(1) + "?q=" + strings.Repeat("x", n)
	case 7:
		q = "http://" + strings.Repeat("sub.", n/4) + "example" + any(1)
	case 8:
		q = strings.Repeat("1", n) + "." + any(2)
	}
	autoCheck(q)
}

// C21_long: long texts with arbitrary bytes somewhere, many bad characters, long names.
func C21_long() {
	t := typeNamed([]string{"Domain", "Notice", "Link", "VariantName"}[sym.Choice("type", 4)])
	p := somePrinter()
	if p.BriefLinks && t.name == "Link" {
		return
	}
	n := []int{40, 80, 140, 300}[sym.Choice("len", 4)]
	fill := []string{"text: ", "a\nb\r\x00", "\u00e9\u4e16"}[sym.Choice("fill", 3)]
	n = n / len(fill) * len(fill)
	s := strings.Repeat(fill, n/len(fill))
	k := []int{0, n / 2 / len(fill) * len(fill), n}[sym.Choice("at", 3)]
	s = s[:k] + text("s", 1) + s[k:]
	lv := levelOf(t)
	var o *sym.Node
	want := ""
	if sym.Choice("unknown", 2) == 1 {
		o = sym.Obj().Set("x"+s, sym.Str("v"))
		want = ind(p, lv) + "x" + clean(s) + ": v"
	} else {
		js := map[string]string{"Domain": "handle", "Notice": "title", "Link": "href", "VariantName": "ldhName"}[t.name]
		o = sym.Obj().Set(js, sym.Str(s))
		want = ind(p, lv) + label(t, js) + ": " + clean(s)
	}
	ls := linesOf(printed(p, decoded(wrap(t, o))))
	sym.Assert(len(ls) == lv+1, "wrong number of lines")
	sym.Assert(ls[lv] == want, "value altered, indented wrongly or not cleaned")
}

// C22_deep: deep nesting of objects and of unknown fields.
func C22_deep() {
	d := sym.Param("D", 14)
	p := optionsPrinter()
	f := &filler{num: 100}
	via := sym.Choice("via", 4)
	t := typeNamed("Entity")
	if via == 3 {
		t = typeNamed("Domain")
	}
	top := sym.Obj()
	o := top
	for i := 0; i < d; i++ {
		o.Set("handle", f.mark()).Set("x-a", f.mark())
		c := sym.Obj()
		switch via {
		case 0, 3:
			o.Set("entities", sym.Arr(c))
		case 1:
			o.Set("x-u", c)
		case 2:
			if i%2 == 0 {
				o.Set("networks", sym.Arr(c))
			} else {
				o.Set("entities", sym.Arr(c))
			}
		}
		o = c
	}
	o.Set("handle", sym.Str("deep"+textIn("h", 1, "ab")))
	if classOf[t.name] != "" {
		top.Set("objectClassName", sym.Str(classOf[t.name]))
	}
	checkFull(t, top, p, f)
}

// C24_long: long query texts on the command line.
func C24_long() {
	cts := []int{0, 3, 4, 5, 12}
	ct := cliTypes[cts[sym.Choice("type", len(cts))]]
	q := spot([]int{40, 130, 300}[sym.Choice("len", 3)], []string{"example.", "a b/%41+~\u00e9"}[sym.Choice("fill", 2)], bytesN("q", 1))
	args := []string{"-s", "https://rdap.example/v1", "-t", ct.name, "--", q}
	c := runCLI(rdap.CLIOptions{}, okReply, args...)
	sym.Assert(c.code == 0, "exit status")
	c.sentOne(0, autoWant{typ: ct.typ, text: q}, "https", "rdap.example", "/v1/")
}

// C22_links: any address in a link, at the top, in a notice and in a remark.
func C22_links() {
	p := optionsPrinter()
	f := &filler{num: 100}
	link := func(s string) *sym.Node {
		l := sym.Obj().Set("href", sym.Str("h"+s+textIn("end", 1, "a/ .#?:")))
		if sym.Choice("more", 2) == 1 {
			l.Set("title", f.mark()).Set("rel", f.mark())
		}
		return l
	}
	at := sym.Choice("at", 3)
	o := sym.Obj().Set("objectClassName", sym.Str("domain"))
	two := sym.Arr(link("1"), link("2"))
	switch at {
	case 0:
		o.Set("links", two)
	case 1:
		o.Set("notices", sym.Arr(sym.Obj().Set("title", f.mark()).Set("links", two)))
	case 2:
		o.Set("entities", sym.Arr(sym.Obj().Set("remarks", sym.Arr(sym.Obj().Set("links", two)))))
	}
	checkFull(typeNamed("Domain"), o, p, f)
}
