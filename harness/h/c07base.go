package h

import (
	"net/http"
	"net/url"

	"github.com/openrdap/rdap/bootstrap"
	"github.com/openrdap/rdap/bootstrap/cache"

	"verifharness/sym"
)

func init() {
	All["C07_base"] = Spec{F: C07_base, Clock: true}
}

// C07_base: a base URL that cannot be requested, or that serves nothing.
func C07_base() {
	tr := &transport{}
	tr.reply = func(t *transport, r *http.Request) (*http.Response, error) { return t.resp(404, nil, nil), nil }
	b := string([]byte{sym.Byte("b")})
	u := &url.URL{Scheme: "http", Host: "h.example", Path: "/rdap"}
	switch sym.Choice("where", 4) {
	case 0:
		u.Host = "h" + b + ".example"
	case 1:
		u.Scheme = b
	case 2:
		u.Path = b
	case 3:
		u = &url.URL{Opaque: b}
	}
	fc := &faultCache{MemoryCache: cache.NewMemoryCache()}
	c := &bootstrap.Client{HTTP: &http.Client{Transport: tr}, Cache: fc, BaseURL: u}
	var err error
	var ans *bootstrap.Answer
	if sym.Choice("how", 2) == 0 {
		err = c.Download(bootstrap.DNS)
	} else {
		ans, err = c.Lookup(dnsQ())
	}
	sym.Assert(err != nil && ans == nil, "success without a registry file")
	sym.Assert(len(tr.reqs) <= 1, "more than one request")
	sym.Assert(fc.saves == 0, "something was stored after a failed download")
	sym.Assert(c.DNS() == nil, "a registry appeared from a failed download")
	sym.Assert(tr.closed >= tr.opened, "response body left open")
	if len(tr.reqs) == 0 {
		sym.Cover("not requested")
	}
}
