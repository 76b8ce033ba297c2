package h

import (
	"context"
	"errors"
	"io"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strconv"
	"time"

	"github.com/openrdap/rdap/bootstrap"
	"github.com/openrdap/rdap/bootstrap/cache"

	"verifharness/sym"
)

func init() {
	All["C06_mem"] = Spec{F: C06_mem, Clock: true}
	All["C06_disk"] = Spec{F: C06_disk, Clock: true}
	All["C06_url"] = Spec{F: C06_url}
	All["C06_fail"] = Spec{F: C06_fail, Clock: true}
	All["C06_kinds"] = Spec{F: C06_kinds, Clock: true}
	All["C07_fault"] = Spec{F: C07_fault, Clock: true}
	All["C07_corrupt"] = Spec{F: C07_corrupt, Clock: true}
}

// body is a response body that records being closed and may fail.
type body struct {
	data   []byte
	err    error // reported after data
	closed *int
	reads  int
}

func (b *body) Read(p []byte) (int, error) {
	b.reads++
	if len(b.data) == 0 {
		if b.err != nil {
			return 0, b.err
		}
		return 0, io.EOF
	}
	n := copy(p, b.data)
	b.data = b.data[n:]
	return n, nil
}

func (b *body) Close() error { *b.closed++; return nil }

// reqRec is one request seen by the transport.
type reqRec struct {
	method, url, ua, accept, host string
	ctx                           context.Context
	bodyLen                       int
}

// transport is a scripted http.RoundTripper.
type transport struct {
	reqs   []reqRec
	opened int
	closed int
	reply  func(t *transport, r *http.Request) (*http.Response, error)
}

func (t *transport) RoundTrip(r *http.Request) (*http.Response, error) {
	rec := reqRec{method: r.Method, url: r.URL.String(), ua: r.Header.Get("User-Agent"), accept: r.Header.Get("Accept"), host: r.Host, ctx: r.Context()}
	if r.Body != nil && r.Body != http.NoBody {
		rec.bodyLen = 1
	}
	t.reqs = append(t.reqs, rec)
	return t.reply(t, r)
}

func (t *transport) resp(status int, data []byte, err error) *http.Response {
	t.opened++
	return &http.Response{StatusCode: status, Status: strconv.Itoa(status) + " status", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Body: &body{data: data, err: err, closed: &t.closed}, ContentLength: -1}
}

var errWire = errors.New("wire broken")

// regDoc is version v of a domain registry.
func regDoc(v int) []byte {
	return sym.JSON(sym.Obj().Set("version", sym.Str("1.0")).Set("services",
		sym.Arr(sym.Arr(sym.Strs("com"), sym.Strs("https://v"+strconv.Itoa(v)+".example/")))))
}

func verOf(ans *bootstrap.Answer) int {
	if len(ans.URLs) != 1 {
		return -1
	}
	h := ans.URLs[0].Host
	for v := 0; v < 12; v++ {
		if h == "v"+strconv.Itoa(v)+".example" {
			return v
		}
	}
	return -1
}

func regVer(f *bootstrap.File) int {
	us := f.Entries["com"]
	if len(us) != 1 {
		return -1
	}
	return verOf(&bootstrap.Answer{URLs: us})
}

type ctxKey struct{}

func dnsQ() *bootstrap.Question {
	q := &bootstrap.Question{RegistryType: bootstrap.DNS, Query: "example.com"}
	return q.WithContext(context.WithValue(context.Background(), ctxKey{}, "mine"))
}

// checkFetch: the i-th request is the one GET of dns.json with the caller's context.
func checkFetch(r reqRec, base string) {
	sym.Assert(r.method == "GET", "not a GET")
	sym.Assert(r.url == base+"dns.json", "not the registry file under the base URL")
	sym.Assert(r.ctx.Value(ctxKey{}) == "mine", "the caller's context is not used")
	sym.Assert(r.bodyLen == 0, "request has a body")
}

// C06_mem: lookups, downloads, accessors and time with a memory cache.
func C06_mem() {
	ver, base := 0, "https://boot.example/rdap/"
	tr := &transport{}
	tr.reply = func(t *transport, r *http.Request) (*http.Response, error) {
		ver++
		return t.resp(200, regDoc(ver), nil), nil
	}
	c := &bootstrap.Client{HTTP: &http.Client{Transport: tr}}
	timeout := int64(24 * 3600)
	if sym.Choice("default", 2) == 1 {
		base = bootstrap.DefaultBaseURL
		if sym.Choice("cache", 2) == 1 {
			c.Cache = cache.NewMemoryCache()
			timeout = secs("timeout", 8)
			c.Cache.SetTimeout(time.Duration(timeout) * time.Second)
		}
	} else {
		c.BaseURL, _ = url.Parse(base)
	}
	have, at, now := 0, int64(0), int64(0)
	k := sym.Param("K", 3)
	for i := 0; i < k; i++ {
		n := len(tr.reqs)
		switch sym.Choice("op", 4) {
		case 0:
			want := have == 0 || now-at > timeout
			ans, err := c.Lookup(dnsQ())
			sym.Assert(err == nil && ans != nil, "lookup failed")
			if want {
				sym.Cover("fetched")
				sym.Assert(len(tr.reqs) == n+1, "the registry was not downloaded once although missing or expired")
				checkFetch(tr.reqs[n], base)
				have, at = ver, now
			} else {
				sym.Cover("cached")
				sym.Assert(len(tr.reqs) == n, "HTTP request although a fresh copy is held")
			}
			sym.Assert(verOf(ans) == have, "answer from another version than the newest held")
		case 1:
			d := secs("adv", 9)
			if sym.Choice("long", 2) == 1 {
				d = d + 24*3600 - 4
			}
			sym.AdvanceSec(d)
			now += d
		case 2:
			err := c.DownloadWithContext(dnsQ().Context(), bootstrap.DNS)
			sym.Assert(err == nil, "download failed")
			sym.Assert(len(tr.reqs) == n+1, "download makes one request")
			checkFetch(tr.reqs[n], base)
			have, at = ver, now
		case 3:
			d := c.DNS()
			if have == 0 {
				sym.Assert(d == nil, "accessor returns a registry nobody downloaded")
			} else {
				sym.Assert(d != nil && regVer(d.File()) == have, "accessor returns another version")
			}
			sym.Assert(c.ASN() == nil && c.IPv4() == nil && c.IPv6() == nil && c.ServiceProvider() == nil, "registry of another kind appeared")
			sym.Assert(len(tr.reqs) == n, "accessor used the network")
		}
	}
	sym.Assert(tr.closed >= tr.opened, "response body left open")
}

// C06_disk: with a disk cache that another process shares.
func C06_disk() {
	ver, base := 0, bootstrap.DefaultBaseURL
	tr := &transport{}
	tr.reply = func(t *transport, r *http.Request) (*http.Response, error) {
		ver++
		return t.resp(200, regDoc(ver), nil), nil
	}
	dir := filepath.Join(sym.Dir(), "cache")
	file := filepath.Join(dir, "dns.json")
	dc := cache.NewDiskCache()
	dc.Dir = dir
	timeout := int64(24 * 3600)
	if sym.Choice("timeout", 2) == 1 {
		timeout = secs("timeout", 8)
		dc.SetTimeout(time.Duration(timeout) * time.Second)
	}
	c := &bootstrap.Client{HTTP: &http.Client{Transport: tr}, Cache: dc}
	other := cache.NewDiskCache()
	other.Dir = dir
	now := int64(0)
	have := 0                             // version in the client's memory
	fver, fbad, fat := 0, false, int64(0) // the file: version (0: none), unreadable, time
	seen, seenAt := 0, int64(0)           // version the client's cache has seen last
	k := sym.Param("K", 3)
	if sym.Choice("start", 2) == 1 { // a file from an earlier run
		ver++
		sym.Assert(other.Save("dns.json", regDoc(ver)) == nil, "setup")
		sym.SyncFS()
		fver, fat = ver, now
	}
	for i := 0; i < k; i++ {
		n := len(tr.reqs)
		op := sym.Choice("op", 6)
		if op >= 3 {
			// foreign writes are distinguishable only by a later time
			sym.AdvanceSec(1)
			now++
		}
		switch op {
		case 0, 2:
			expired := now-fat >= timeout
			fetch := false
			switch {
			case fver == 0:
				fetch = have == 0
			case expired:
				fetch = true
			case seen != fver:
				seen, seenAt = fver, fat
				if fbad {
					fetch = true
				} else {
					have = fver
				}
			default:
				fetch = have == 0
			}
			if op == 2 { // accessor
				d := c.DNS()
				sym.Assert(len(tr.reqs) == n, "accessor used the network")
				if fver != 0 && expired {
					// whether a stale file is shown before a download is not specified
					if d != nil {
						v := regVer(d.File())
						sym.Assert(v == have || v == fver, "accessor returns a version that was never current")
						return
					}
					sym.Assert(have == 0, "registry lost")
					break
				}
				if have == 0 {
					sym.Assert(d == nil, "accessor returns a registry nobody downloaded")
				} else {
					sym.Assert(d != nil && regVer(d.File()) == have, "accessor does not return the newest copy")
				}
				break
			}
			ans, err := c.Lookup(dnsQ())
			sym.Assert(err == nil && ans != nil, "lookup failed")
			if fetch {
				sym.Cover("fetched")
				sym.Assert(len(tr.reqs) == n+1, "not downloaded once although missing, expired or unreadable")
				checkFetch(tr.reqs[n], base)
				have, fver, fbad, fat = ver, ver, false, now
				seen, seenAt = ver, now
			} else {
				sym.Cover("cached")
				sym.Assert(len(tr.reqs) == n, "HTTP request although a fresh copy is held")
			}
			sym.Assert(verOf(ans) == have, "answer from another version than the newest held")
			_ = seenAt
		case 1:
			d := secs("adv", 9)
			if sym.Choice("long", 2) == 1 {
				d = d + 24*3600 - 4
			}
			sym.AdvanceSec(d)
			now += d
		case 3: // another process downloads
			ver++
			sym.Assert(other.Save("dns.json", regDoc(ver)) == nil, "foreign save")
			sym.SyncFS()
			fver, fbad, fat = ver, false, now
		case 4: // another process leaves a truncated file
			ver++
			sym.Assert(os.MkdirAll(dir, 0o700) == nil && os.WriteFile(file, []byte(`{"services":[[["com"],["https://trunc`), 0o600) == nil, "foreign write")
			sym.SyncFS()
			fver, fbad, fat = ver, true, now
		case 5: // another process removes the file
			sym.Assume(fver != 0)
			sym.Assert(os.Remove(file) == nil, "foreign removal")
			fver = 0
		}
	}
	sym.Assert(tr.closed >= tr.opened, "response body left open")
}

// C06_url: the fetched URL for base URLs of every shape and every registry.
func C06_url() {
	tr := &transport{}
	tr.reply = func(t *transport, r *http.Request) (*http.Response, error) {
		return t.resp(200, sym.JSON(sym.Obj().Set("services", sym.Arr())), nil), nil
	}
	c := &bootstrap.Client{HTTP: &http.Client{Transport: tr}}
	seg := textIn("seg", upTo("len", 2), "ab-_~0/")
	slash := ""
	if sym.Choice("slash", 2) == 1 {
		slash = "/"
	}
	path := "/r" + seg
	for i := 1; i < len(path+slash); i++ {
		sym.Assume(!((path + slash)[i] == '/' && path[i-1] == '/'))
	}
	base := "http://boot.example:8080" + path + slash
	if sym.Choice("root", 2) == 1 {
		base = "http://boot.example:8080" + slash
		path = ""
	}
	srv := "http://boot.example:8080"
	tail := "" // a query in the base URL may be sent along or not
	switch sym.Choice("extra", 4) {
	case 1:
		srv = "https://us:pw@[2001:db8::1]"
		base = srv + base[len("http://boot.example:8080"):]
	case 2:
		tail = "?k=v"
		base += tail
	case 3:
		sym.Assume(path != "")
		path += "%2F" + seg
		base = srv + path + slash
		for i := 1; i < len(path+slash); i++ {
			sym.Assume(!((path + slash)[i] == '/' && path[i-1] == '/'))
		}
	}
	var err error
	c.BaseURL, err = url.Parse(base)
	sym.Assert(err == nil, "setup")
	rt := bootstrap.RegistryType(sym.Choice("type", 5))
	fn := []string{"dns.json", "ipv4.json", "ipv6.json", "asn.json", "object-tags.json"}[rt]
	if sym.Choice("how", 2) == 0 {
		q := []string{"x.example", "192.0.2.0", "2001:db8::", "AS5", "x-TAG"}[rt]
		_, err = c.Lookup(&bootstrap.Question{RegistryType: rt, Query: q})
	} else {
		err = c.Download(rt)
	}
	sym.Assert(err == nil, "failed")
	sym.Assert(len(tr.reqs) == 1, "one request")
	want := srv + path
	if len(want) == 0 || want[len(want)-1] != '/' {
		want += "/"
	}
	sym.Assert(sym.Or(tr.reqs[0].url == want+fn, tr.reqs[0].url == want+fn+tail), "not the registry file name under the base URL")
	sym.Assert(c.BaseURL.String() == base, "base URL changed")
	got := []bool{c.DNS() != nil, c.IPv4() != nil, c.IPv6() != nil, c.ASN() != nil, c.ServiceProvider() != nil}
	for i, g := range got {
		sym.Assert(g == (i == int(rt)), "accessor of another kind")
	}
	sym.Assert(len(tr.reqs) == 1, "accessor used the network")
	sym.Observe("url", tr.reqs[0].url)
}

// C06_fail: a lookup or download whose fetch fails makes that one request and no other, and the next one tries again.
func C06_fail() {
	ver, mode, status := 0, 0, 200
	tr := &transport{}
	tr.reply = func(t *transport, r *http.Request) (*http.Response, error) {
		ver++
		switch mode {
		case 1:
			return nil, errWire
		case 2:
			return t.resp(status, regDoc(ver), nil), nil
		case 3:
			return t.resp(200, []byte("no"), nil), nil
		}
		return t.resp(200, regDoc(ver), nil), nil
	}
	base := bootstrap.DefaultBaseURL
	c := &bootstrap.Client{HTTP: &http.Client{Transport: tr}}
	have := 0
	if sym.Choice("before", 2) == 1 {
		_, err := c.Lookup(dnsQ())
		sym.Assert(err == nil && len(tr.reqs) == 1, "first lookup")
		have = 1
		sym.AdvanceSec(24*3600 + 1)
	}
	k := sym.Param("K", 2)
	for i := 0; i < k; i++ {
		mode = sym.Choice("mode", 4)
		if mode == 2 {
			status = 200 + int(sym.U16("status"))
			sym.Assume(sym.And(status != 200, status < 600, sym.Or(status < 300, status >= 400)))
		}
		n := len(tr.reqs)
		var err error
		down := sym.Choice("op", 2) == 1
		if down {
			err = c.DownloadWithContext(dnsQ().Context(), bootstrap.DNS)
		} else {
			var ans *bootstrap.Answer
			ans, err = c.Lookup(dnsQ())
			if err == nil {
				sym.Assert(ans != nil && verOf(ans) == ver, "not the downloaded version")
			}
		}
		sym.Assert((err == nil) == (mode == 0), "wrong outcome")
		sym.Assert(len(tr.reqs) == n+1, "not exactly one request per fetch")
		checkFetch(tr.reqs[n], base)
		if err == nil {
			have = ver
			break
		}
	}
	n := len(tr.reqs)
	d := c.DNS()
	sym.Assert((d != nil) == (have != 0), "accessor")
	if d != nil {
		sym.Assert(regVer(d.File()) == have, "accessor version")
	}
	sym.Assert(len(tr.reqs) == n, "accessor used the network")
}

var (
	kindFile  = []string{"dns.json", "ipv4.json", "ipv6.json", "asn.json", "object-tags.json"}
	kindEntry = []string{"com", "192.0.2.0/24", "2001:db8::/32", "5-9", "TAG"}
	kindQuery = []string{"example.com", "192.0.2.7", "2001:db8::1", "AS7", "x-TAG"}
)

// kindDoc is version v of a registry of any kind.
func kindDoc(k, v int) []byte {
	e := sym.Strs(kindEntry[k])
	u := sym.Strs("https://v" + strconv.Itoa(v) + ".example/")
	svc := sym.Arr(e, u)
	if k == 4 {
		svc = sym.Arr(sym.Strs("x@example.com"), e, u)
	}
	return sym.JSON(sym.Obj().Set("version", sym.Str("1.0")).Set("services", sym.Arr(svc)))
}

// kindVer is the version a lookup-free accessor shows for kind k, or 0.
func kindVer(c *bootstrap.Client, k int) int {
	var r bootstrap.Registry
	switch k {
	case 0:
		if x := c.DNS(); x != nil {
			r = x
		}
	case 1:
		if x := c.IPv4(); x != nil {
			r = x
		}
	case 2:
		if x := c.IPv6(); x != nil {
			r = x
		}
	case 3:
		if x := c.ASN(); x != nil {
			r = x
		}
	case 4:
		if x := c.ServiceProvider(); x != nil {
			r = x
		}
	}
	if r == nil {
		return 0
	}
	a, err := r.Lookup(&bootstrap.Question{RegistryType: bootstrap.RegistryType(k), Query: kindQuery[k]})
	if err != nil {
		return -1
	}
	return verOf(a)
}

// C06_kinds: two kinds of registry side by side in one client and one shared
// disk cache (or the memory cache): each is fetched, kept and refreshed on its own.
func C06_kinds() {
	ver := 0
	tr := &transport{}
	base := bootstrap.DefaultBaseURL
	tr.reply = func(t *transport, r *http.Request) (*http.Response, error) {
		ver++
		for k := range kindFile {
			if r.URL.String() == base+kindFile[k] {
				return t.resp(200, kindDoc(k, ver), nil), nil
			}
		}
		return t.resp(404, nil, nil), nil
	}
	c := &bootstrap.Client{HTTP: &http.Client{Transport: tr}}
	var other *cache.DiskCache
	if sym.Choice("disk", 2) == 1 {
		dc := cache.NewDiskCache()
		dc.Dir = filepath.Join(sym.Dir(), "cache")
		c.Cache = dc
		other = cache.NewDiskCache()
		other.Dir = dc.Dir
	}
	a := sym.Choice("a", 5)
	ks := [2]int{a, (a + 1 + sym.Choice("b", 4)) % 5}
	var have [2]int
	var at [2]int64
	now := int64(0)
	stale := func(w int) bool {
		age := now - at[w]
		return have[w] != 0 && (age > 24*3600 || other != nil && age == 24*3600)
	}
	for i := 0; i < sym.Param("K", 4); i++ {
		n := len(tr.reqs)
		w := sym.Choice("which", 2)
		k := ks[w]
		switch sym.Choice("op", 4) {
		case 0:
			q := (&bootstrap.Question{RegistryType: bootstrap.RegistryType(k), Query: kindQuery[k]}).WithContext(dnsQ().Context())
			ans, err := c.Lookup(q)
			sym.Assert(err == nil && ans != nil, "lookup failed")
			if have[w] == 0 || stale(w) {
				sym.Assert(len(tr.reqs) == n+1, "not fetched once although missing or expired")
				sym.Assert(tr.reqs[n].url == base+kindFile[k], "another registry was fetched")
				sym.Assert(tr.reqs[n].ctx.Value(ctxKey{}) == "mine", "the caller's context is not used")
				have[w], at[w] = ver, now
			} else {
				sym.Assert(len(tr.reqs) == n, "HTTP request although a fresh copy is held")
			}
			sym.Assert(verOf(ans) == have[w], "answer from another version than the newest held")
		case 1:
			v := kindVer(c, k)
			if other == nil || !stale(w) {
				sym.Assert(v == have[w], "accessor does not show the newest copy")
			}
			sym.Assert(len(tr.reqs) == n, "accessor used the network")
		case 2:
			if other == nil || w == 1 {
				d := 4 * int64(sym.U16("adv")) // up to three days
				sym.AdvanceSec(d)
				now += d
				break
			}
			sym.AdvanceSec(1)
			now++
			ver++
			sym.Assert(other.Save(kindFile[k], kindDoc(k, ver)) == nil, "foreign save")
			sym.SyncFS()
			have[w], at[w] = ver, now
		case 3:
			sym.Assert(c.DownloadWithContext(dnsQ().Context(), bootstrap.RegistryType(k)) == nil, "download failed")
			sym.Assert(len(tr.reqs) == n+1 && tr.reqs[n].url == base+kindFile[k], "download makes one request for its registry")
			have[w], at[w] = ver, now
		}
	}
}

// faultCache is a memory cache whose Save can fail.
type faultCache struct {
	*cache.MemoryCache
	fail  bool
	saves int
}

func (f *faultCache) Save(n string, b []byte) error {
	f.saves++
	if f.fail {
		return errors.New("disk full")
	}
	return f.MemoryCache.Save(n, b)
}

// C07_fault: any failing download, with or without a previous registry.
func C07_fault() {
	ver := 0
	tr := &transport{}
	good := true
	fault := 0
	status := 200
	var left int
	tr.reply = func(t *transport, r *http.Request) (*http.Response, error) {
		ver++
		if good {
			return t.resp(200, regDoc(ver), nil), nil
		}
		switch fault {
		case 0:
			return nil, errWire
		case 1:
			return t.resp(status, regDoc(ver), nil), nil
		case 2:
			return t.resp(200, nil, errWire), nil
		case 3: // a complete document, then a broken connection
			return t.resp(200, []byte(`{"services":[[["com"],["https://v9.example/"]]]}`)[:left], errWire), nil
		case 4:
			return t.resp(200, nil, nil), nil
		case 5:
			return t.resp(200, []byte("<html>not json</html>"), nil), nil
		case 6:
			return t.resp(200, sym.JSON(sym.Obj().Set("services", sym.Arr(sym.Arr(sym.Strs("com"))))), nil), nil
		case 7:
			return t.resp(200, sym.JSON(value("doc")), nil), nil
		case 8:
			return t.resp(200, []byte(`{"services":[[["com"],["https://v9.example/"]]]}`)[:left], nil), nil
		}
		return t.resp(200, regDoc(ver), nil), nil // cache cannot be written
	}
	fc := &faultCache{MemoryCache: cache.NewMemoryCache()}
	c := &bootstrap.Client{HTTP: &http.Client{Transport: tr}, Cache: fc}
	c.BaseURL, _ = url.Parse(bootstrap.DefaultBaseURL)
	have := 0
	if sym.Choice("before", 2) == 1 {
		sym.Assert(c.Download(bootstrap.DNS) == nil, "first download failed")
		have = 1
	}
	before, berr := fc.Load("dns.json")
	stateBefore := fc.State("dns.json")
	saves := fc.saves
	good = false
	fault = sym.Choice("fault", 10)
	switch fault {
	case 1:
		status = 100 + int(sym.U16("status"))
		sym.Assume(sym.And(status >= 200, status < 600, status != 200))
	case 3:
		left = sym.Choice("left", 49)
	case 8:
		left = sym.Choice("left", 48)
	case 9:
		fc.fail = true
	}
	var err error
	n := len(tr.reqs)
	var ans *bootstrap.Answer
	how := sym.Choice("how", 3)
	switch how {
	case 0:
		err = c.Download(bootstrap.DNS)
	case 1:
		sym.AdvanceSec(25 * 3600)
		stateBefore = fc.State("dns.json")
		ans, err = c.Lookup(dnsQ())
	case 2:
		err = c.DownloadWithContext(dnsQ().Context(), bootstrap.DNS)
	}
	sym.Assert(len(tr.reqs) == n+1, "one request")
	if fault == 7 && err == nil {
		// the arbitrary document happened to be an acceptable registry file
		return
	}
	sym.Assert(err != nil, "a failed download reported success")
	sym.Assert(ans == nil, "an answer from a failed download")
	after, aerr := fc.Load("dns.json")
	sym.Assert((aerr == nil) == (berr == nil), "cache changed by a failed download")
	sym.Assert(string(after) == string(before), "cache changed by a failed download")
	if fault != 9 {
		sym.Assert(fc.saves == saves, "something was stored after a failed download")
	}
	sym.Assert(fc.State("dns.json") == stateBefore, "cache state changed by a failed download")
	d := c.DNS()
	if have == 0 {
		sym.Assert(d == nil, "a registry appeared from a failed download")
	} else {
		sym.Assert(d != nil && regVer(d.File()) == have, "the registry in use was damaged by a failed download")
		if how == 0 {
			a, err := c.Lookup(dnsQ())
			sym.Assert(err == nil && verOf(a) == have, "lookup after a failed download")
			sym.Assert(len(tr.reqs) == n+1, "request although a copy is held")
		}
	}
	sym.Assert(tr.closed >= tr.opened, "response body left open")
	// and the next good download works
	good, fc.fail = true, false
	a, err := c.Lookup(dnsQ())
	if have == 0 || how == 1 {
		sym.Assert(err == nil && verOf(a) == ver, "no recovery after a failed download")
	}
	sym.Observe("fault", fault)
}

// C07_corrupt: a damaged cache file is replaced; if that fails too, nothing is lost.
func C07_corrupt() {
	good := `{"services":[[["com"],["https://v9.example/"]]]}`
	ver := 0
	tr := &transport{}
	fail := false
	tr.reply = func(t *transport, r *http.Request) (*http.Response, error) {
		ver++
		if fail {
			return nil, errWire
		}
		return t.resp(200, regDoc(ver), nil), nil
	}
	dir := filepath.Join(sym.Dir(), "cache")
	file := filepath.Join(dir, "dns.json")
	dc := cache.NewDiskCache()
	dc.Dir = dir
	c := &bootstrap.Client{HTTP: &http.Client{Transport: tr}, Cache: dc}
	have := 0
	if sym.Choice("before", 2) == 1 {
		sym.Assert(c.Download(bootstrap.DNS) == nil, "first download failed")
		have = 1
		sym.SyncFS()
		sym.AdvanceSec(5)
	}
	sym.Assert(os.MkdirAll(dir, 0o700) == nil, "setup")
	isdir := false
	var junk []byte
	switch sym.Choice("damage", 5) {
	case 0:
		junk = []byte(good)[:sym.Choice("cut", len(good))]
	case 1:
		junk = []byte(good)
		junk[sym.Choice("at", 6)] = 0
	case 2:
		junk = []byte(`{"services":[[["com"]]]}`)
	case 3:
		junk = append([]byte(good), bytesN("tail", 2)...)
		sym.Assume(!isWS(junk[len(good)]))
	case 4:
		isdir = true
	}
	if isdir {
		sym.Assert(os.RemoveAll(file) == nil && os.MkdirAll(file, 0o700) == nil, "setup")
	} else {
		sym.Assert(os.WriteFile(file, junk, 0o600) == nil, "setup")
	}
	sym.SyncFS()
	fail = sym.Choice("net", 2) == 1
	n := len(tr.reqs)
	ans, err := c.Lookup(dnsQ())
	sym.Assert(len(tr.reqs) == n+1, "a damaged cache file is not replaced by downloading")
	if fail || isdir {
		sym.Cover("failed")
		sym.Assert(err != nil && ans == nil, "failed download reported success")
		d := c.DNS()
		if have == 0 {
			sym.Assert(d == nil, "a damaged cache file was used")
		} else {
			sym.Assert(d != nil && regVer(d.File()) == have, "the registry in use was damaged")
		}
		return
	}
	sym.Cover("replaced")
	sym.Assert(err == nil && verOf(ans) == ver, "not the downloaded registry")
	b, err := os.ReadFile(file)
	sym.Assert(err == nil && string(b) == string(regDocSame(ver, b)), "damaged file not replaced")
	a, err := c.Lookup(dnsQ())
	sym.Assert(err == nil && verOf(a) == ver && len(tr.reqs) == n+1, "second lookup")
}

// regDocSame returns b if it parses as version v (token documents differ per call).
func regDocSame(v int, b []byte) []byte {
	f, err := bootstrap.NewFile(b)
	if err != nil || regVer(f) != v {
		return nil
	}
	return b
}
