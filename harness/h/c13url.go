package h

import (
	"net/http"
	"net/url"

	"github.com/openrdap/rdap"

	"verifharness/sym"
)

func init() {
	All["C13_url"] = Spec{F: C13_url}
}

// C13_url: a server URL made by hand, with any byte in it; one that cannot be
// requested is a failed attempt like any other.
func C13_url() {
	tr := &transport{}
	tr.reply = func(t *transport, r *http.Request) (*http.Response, error) {
		return t.resp(200, []byte(`{"objectClassName":"domain"}`), nil), nil
	}
	b := string([]byte{sym.Byte("b")})
	u := &url.URL{Scheme: "http", Host: "h.example", Path: "/rdap"}
	switch sym.Choice("where", 4) {
	case 0:
		u.Host = "h" + b + ".example"
	case 1:
		u.Scheme = b
	case 2:
		u.Path = b
	case 3:
		u.Host = ""
	}
	req := rdap.NewDomainRequest("example.com").WithServer(u)
	if sym.Choice("raw", 2) == 1 {
		req = rdap.NewRawRequest(u)
	}
	c := &rdap.Client{HTTP: &http.Client{Transport: tr}}
	resp, err := c.Do(req)
	if len(tr.reqs) == 0 {
		sym.Cover("not requested")
		ce, ok := err.(*rdap.ClientError)
		sym.Assert(ok && ce.Type == rdap.NoWorkingServers, "no server was asked, yet no such error")
		sym.Assert(resp != nil && len(resp.HTTP) == 1 && resp.HTTP[0].Error != nil, "the failed attempt is not recorded")
		return
	}
	sym.Cover("requested")
	sym.Assert(err == nil && resp != nil && len(resp.HTTP) == 1 && resp.Object != nil, "the answer is lost")
	sym.Assert(len(tr.reqs) == 1, "more than one request")
	sym.Assert(tr.closed >= tr.opened, "response body left open")
}
