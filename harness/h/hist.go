package h

import (
	"context"
	"net/http"
	"path/filepath"
	"strconv"
	"time"

	"github.com/openrdap/rdap"
	"github.com/openrdap/rdap/bootstrap"
	"github.com/openrdap/rdap/bootstrap/cache"

	"verifharness/sym"
)

// Long histories: one client, printer or process used over and over again.

func init() {
	All["C06_long"] = Spec{F: C06_long, Clock: true}
	All["C13_again"] = Spec{F: C13_again, Clock: true}
	All["C15_again"] = Spec{F: C15_again, Clock: true}
	All["C22_again"] = Spec{F: C22_again}
	All["C24_again"] = Spec{F: C24_again}
	All["C26_again"] = Spec{F: C26_again}
	All["C27_again"] = Spec{F: C27_again}
}

// C06_long: one client answers many questions of every kind; the clock moves
// by a minute after each, and once by up to three days.
func C06_long() {
	ver := 0
	tr := &transport{}
	base := bootstrap.DefaultBaseURL
	tr.reply = func(t *transport, r *http.Request) (*http.Response, error) {
		ver++
		for k := range kindFile {
			if r.URL.String() == base+kindFile[k] {
				return t.resp(200, kindDoc(k, ver), nil), nil
			}
		}
		return t.resp(404, nil, nil), nil
	}
	c := &bootstrap.Client{HTTP: &http.Client{Transport: tr}}
	disk := sym.Choice("disk", 2) == 1
	if disk {
		dc := cache.NewDiskCache()
		dc.Dir = filepath.Join(sym.Dir(), "cache")
		c.Cache = dc
	}
	n := sym.Param("N", 40)
	stride := 1 + sym.Choice("stride", 2)
	at := sym.Choice("at", 5) * n / 5
	var have [5]int
	var when [5]int64
	now := int64(0)
	for i := 0; i < n; i++ {
		k := i * stride % 5
		if i >= 10 && i < 20 {
			k = 1 // the same one for a while
		}
		r := len(tr.reqs)
		q := (&bootstrap.Question{RegistryType: bootstrap.RegistryType(k), Query: kindQuery[k]}).WithContext(dnsQ().Context())
		ans, err := c.Lookup(q)
		sym.Assert(err == nil && ans != nil, "lookup failed")
		age := now - when[k]
		if have[k] == 0 || sym.Fork(sym.Or(age > 24*3600, sym.And(disk, age == 24*3600))) {
			sym.Assert(len(tr.reqs) == r+1, "not fetched once although missing or expired")
			sym.Assert(tr.reqs[r].url == base+kindFile[k], "another registry was fetched")
			have[k], when[k] = ver, now
		} else {
			sym.Assert(len(tr.reqs) == r, "HTTP request although a fresh copy is held")
		}
		sym.Assert(verOf(ans) == have[k], "answer from another version than the newest held")
		if i%8 == 7 {
			r = len(tr.reqs)
			sym.Assert(kindVer(c, k) == have[k], "accessor does not show the newest copy")
			sym.Assert(len(tr.reqs) == r, "accessor used the network")
		}
		d := int64(60)
		if i == at {
			d = 4 * int64(sym.U16("adv"))
		}
		sym.AdvanceSec(d)
		now += d
	}
}

// C13_again: one client runs many queries; each has its own outcome.
func C13_again() {
	n := sym.Param("N", 20)
	at := sym.Choice("at", n)
	status := anyStatus("status")
	sym.Assume(sym.Or(status < 300, status >= 400))
	tr := &transport{}
	c, btr := quickClient(tr)
	var now []script
	tr.reply = func(t *transport, r *http.Request) (*http.Response, error) {
		s := now[0]
		now = now[1:]
		switch s.kind {
		case 0:
			return nil, errWire
		case 4:
			return t.resp(s.status, []byte("{"), errWire), nil
		}
		return t.resp(s.status, s.body, nil), nil
	}
	type result struct {
		resp *rdap.Response
		obj  rdap.RDAPObject
		http int
	}
	var all []result
	for i := 0; i < n; i++ {
		good := script{kind: 1, status: 200, body: domDoc("S" + strconv.Itoa(i))}
		if i == at {
			good.status = status
		}
		bad := script{kind: []int{0, 2, 4, 3}[i%4], status: 200}
		if bad.kind == 2 {
			bad.body = undecodable[i%len(undecodable)]
		}
		want, tried := 0, 1 // 0 answered, 1 not found, 2 failed
		switch i % 5 {
		case 0, 3:
			now = []script{good, bad}
			if i == at && !sym.Fork(status < 300) {
				if sym.Fork(status == 404) {
					want = 1
				} else {
					want, tried = 2, 2
				}
			}
		case 1:
			now = []script{bad, good}
			tried = 2
			if i == at && !sym.Fork(status < 300) {
				want = 2
				if sym.Fork(status == 404) {
					want = 1
				}
			}
		case 2:
			now = []script{{kind: 3, status: 404}, good}
			want = 1
		case 4:
			now = []script{bad, {kind: 3, status: 500}}
			want, tried = 2, 2
		}
		r := len(tr.reqs)
		resp, err := c.Do(rdap.NewDomainRequest("example.com"))
		sym.Assert(resp != nil && len(resp.HTTP) == tried && len(tr.reqs) == r+tried, "wrong number of attempts")
		switch want {
		case 0:
			sym.Assert(err == nil, "error although a server answered")
			d, ok := resp.Object.(*rdap.Domain)
			sym.Assert(ok && d.Handle == "S"+strconv.Itoa(i), "not the object of the server that answered")
		case 1:
			sym.Assert(isClientErr(err, rdap.ObjectDoesNotExist) && resp.Object == nil, "404 is not reported as not found")
		case 2:
			sym.Assert(isClientErr(err, rdap.NoWorkingServers) && resp.Object == nil, "not the no-working-servers error")
		}
		for j := 0; j < tried; j++ {
			sym.Assert(tr.reqs[r+j].url == "https://s"+strconv.Itoa(j)+".example/domain/example.com", "servers not visited in order")
			sym.Assert(resp.HTTP[j].URL == tr.reqs[r+j].url, "attempt recorded with another URL")
		}
		all = append(all, result{resp, resp.Object, tried})
	}
	for _, a := range all {
		sym.Assert(a.resp.Object == a.obj && len(a.resp.HTTP) == a.http, "an earlier response changed")
	}
	sym.Assert(len(btr.reqs) == 1, "bootstrapped more than once")
	sym.Assert(tr.closed == tr.opened && btr.closed == btr.opened, "response body left open")
}

// C15_again: requests with contexts and limits of their own, over one client.
func C15_again() {
	tr := &transport{}
	tr.reply = func(t *transport, r *http.Request) (*http.Response, error) {
		return t.resp(200, domDoc("S"), nil), nil
	}
	c, btr := quickClient(tr)
	n := sym.Param("N", 12)
	at := sym.Choice("at", n)
	for i := 0; i < n; i++ {
		ctx := context.WithValue(context.Background(), ctxKey{}, i)
		req := rdap.NewDomainRequest("example.com").WithContext(ctx)
		limit := int64(0)
		switch {
		case i == at:
			limit = 1 + secs("limit", 9)
		case i%3 == 1:
			limit = int64(i)
		}
		req.Timeout = time.Duration(limit) * time.Second
		if i%2 == 0 {
			c.UserAgent = "ua" + strconv.Itoa(i)
		} else {
			c.UserAgent = ""
		}
		r, b := len(tr.reqs), len(btr.reqs)
		start := time.Now()
		_, err := c.Do(req)
		sym.Assert(err == nil && len(tr.reqs) == r+1, "query failed")
		for _, x := range append(append([]reqRec(nil), btr.reqs[b:]...), tr.reqs[r:]...) {
			sym.Assert(x.method == "GET" && x.ctx.Value(ctxKey{}) == i, "the caller's context is not used")
			dl, has := x.ctx.Deadline()
			sym.Assert(has == (limit > 0), "deadline of another request")
			if has {
				sym.Assert(dl.Sub(start) == time.Duration(limit)*time.Second, "wrong deadline on a request")
			}
		}
		sym.Assert(tr.reqs[r].ua == c.UserAgent, "wrong user agent")
		if i == n/2 {
			// the registry is fetched again
			sym.Assert(c.Bootstrap.DownloadWithContext(context.WithValue(context.Background(), ctxKey{}, -1), bootstrap.DNS) == nil, "download failed")
			x := btr.reqs[len(btr.reqs)-1]
			_, has := x.ctx.Deadline()
			sym.Assert(x.ctx.Value(ctxKey{}) == -1 && !has, "the caller's context is not used")
		}
		sym.AdvanceSec(3)
	}
	sym.Assert(tr.closed == tr.opened && btr.closed == btr.opened, "response body left open")
}

// C22_again: one printer prints several objects, its options changing in between.
func C22_again() {
	n := sym.Param("N", 2)
	p := &rdap.Printer{}
	for i := 0; i < n; i++ {
		types := 10
		if i == 0 {
			types = sym.Param("NT", 3)
		}
		t := &types_[sym.Choice("type", types)]
		f := &filler{num: 100, sym: i}
		o := f.object(t, 1)
		opts := sym.Choice("opts", 5)
		p.OmitNotices, p.OmitRemarks, p.BriefOutput, p.BriefLinks = opts == 1, opts == 2, opts == 3, opts == 4
		fresh := *p
		if i == 0 {
			fresh = rdap.Printer{OmitNotices: opts == 1, OmitRemarks: opts == 2, BriefOutput: opts == 3, BriefLinks: opts == 4}
		}
		obj := decoded(o)
		out := printed(p, obj)
		sym.Assert(printed(&rdap.Printer{OmitNotices: opts == 1, OmitRemarks: opts == 2, BriefOutput: opts == 3, BriefLinks: opts == 4}, obj) == out, "what was printed before shows")
		sym.Assert(printed(&fresh, decoded(o)) == out, "what was printed before shows")
	}
}

var againTypes = []int{0, 2, 4, 5, 10, 13, 16}

// C24_again: several runs of the command line in one process.
func C24_again() {
	n := sym.Param("N", 3)
	for i := 0; i < n; i++ {
		ct := cliTypes[againTypes[sym.Choice("type", len(againTypes))]]
		q := "x" + strconv.Itoa(i) + text("q", 1)
		want := autoWant{typ: ct.typ, text: q}
		switch ct.typ {
		case rdap.AutnumRequest:
			q = strconv.Itoa(65000 + i)
			want = autoWant{typ: ct.typ, num: uint64(65000 + i)}
		case rdap.IPRequest:
			q = "192.0.2." + strconv.Itoa(i)
			want.text = q
		}
		host := "h" + strconv.Itoa(i) + ".example"
		c := runCLI(rdap.CLIOptions{}, okReply, "-s", "https://"+host+"/v"+strconv.Itoa(i), "-t", ct.name, "--", q)
		sym.Assert(c.code == 0, "query failed")
		c.sentOne(0, want, "https", host, "/v"+strconv.Itoa(i)+"/")
	}
}

// C26_again: the options of one run do not reach another.
func C26_again() {
	n := sym.Param("N", 4)
	for i := 0; i < n; i++ {
		insecure := sym.Fork(sym.Bool("k"))
		var args []string
		if insecure {
			args = append(args, "-k")
		}
		want := 1
		if sym.Choice("boot", 2) == 1 {
			args = append(args, "--cache-dir=", "example.com")
			want = 2
		} else {
			args = append(args, "-s", "https://h.example", "-t", "domain", "x")
		}
		c := runCLI(rdap.CLIOptions{}, mixed, args...)
		sym.Assert(c.code == 0 && len(c.trs) == want, "query not made")
		for _, t := range c.trs {
			tlsOf(t, insecure, nil)
		}
	}
}

// C27_again: the output of one run does not depend on earlier ones.
func C27_again() {
	n := sym.Param("N", 3)
	for i := 0; i < n; i++ {
		f, args := oneFormat()
		body := []byte(`{"objectClassName":"domain","handle":"` + strconv.Itoa(i) + plain("c") + `"}`)
		status := []int{200, 404, 500}[sym.Choice("status", 3)]
		args = append(args, "-s", "https://h.example", "-t", "domain", "q")
		c := runCLI(rdap.CLIOptions{}, func(t *transport, r *http.Request) (*http.Response, error) {
			return t.resp(status, body, nil), nil
		}, args...)
		if status == 200 {
			c.outputs(f, body)
			sym.Assert(c.err == "", "message although the query succeeded")
		} else {
			c.failed()
		}
	}
}
