package h

import (
	"bytes"
	"net/http"
	"strings"

	"github.com/openrdap/rdap"

	"verifharness/sym"
)

func init() {
	All["C27_out"] = Spec{F: C27_out}
	All["C27_json"] = Spec{F: C27_json}
	All["C27_servers"] = Spec{F: C27_servers, Clock: true}
	All["C27_bytes"] = Spec{F: C27_bytes}
	All["C27_boot"] = Spec{F: C27_boot, Clock: true}
}

// stripJSON drops white space outside strings.
func stripJSON(b []byte) []byte {
	var out []byte
	in, esc := false, false
	for i := 0; i < len(b); i++ {
		if in {
			out = append(out, b[i])
			switch {
			case esc:
				esc = false
			case b[i] == '\\':
				esc = true
			case b[i] == '"':
				in = false
			}
			continue
		}
		if b[i] == ' ' || b[i] == '\n' || b[i] == '\t' || b[i] == '\r' {
			continue
		}
		out = append(out, b[i])
		in = b[i] == '"'
	}
	return out
}

type format struct{ text, raw, json, whois bool }

// outputs checks standard output for an accepted body.
func (c *cliRun) outputs(f format, body []byte) {
	sym.Assert(c.code == 0, "exit status is not 0 although the query succeeded")
	obj, err := rdap.NewDecoder(body).Decode()
	sym.Assert(err == nil, "accepted an undecodable body")
	var tb bytes.Buffer
	(&rdap.Printer{Writer: &tb}).Print(obj)
	whois := ""
	ws := (&rdap.Response{Object: obj}).ToWhoisStyleResponse()
	for _, k := range ws.KeyDisplayOrder {
		for _, v := range ws.Data[k] {
			whois += k + ": " + strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(v, "\n", " "), "\r", " "), "\x00", "") + "\n"
		}
	}
	if !f.raw && !f.json && !f.whois {
		f.text = true
	}
	// one format alone
	n := 0
	for _, b := range []bool{f.text, f.raw, f.json, f.whois} {
		if b {
			n++
		}
	}
	if n == 1 {
		switch {
		case f.text:
			sym.Assert(c.out == tb.String(), "text output is not the accepted response")
		case f.raw:
			sym.Assert(c.out == string(body), "raw output is not the accepted body")
		case f.whois:
			sym.Assert(c.out == whois, "WHOIS output is not the accepted response")
		case f.json:
			sym.Assert(string(stripJSON([]byte(c.out))) == string(stripJSON(body)), "JSON output is another document")
			sym.Assert(strings.Contains(c.out, "\n"), "JSON output is not indented")
		}
		return
	}
	// several: each is there
	size := 0
	want := func(on bool, s string, what string) {
		if on {
			sym.Assert(strings.Contains(c.out, s), what+" output is missing")
			size += len(s)
		}
	}
	want(f.text, tb.String(), "text")
	want(f.raw, string(body), "raw")
	want(f.whois, whois, "WHOIS")
	if !f.json {
		sym.Assert(len(c.out) == size, "other output besides the answer")
		return
	}
	sym.Assert(len(c.out) >= size+len(stripJSON(body)), "JSON output is missing")
}

func (c *cliRun) failed() {
	sym.Assert(c.code == 1, "exit status is not 1 although the query failed")
	sym.Assert(c.out == "", "output although the query failed")
	sym.Assert(c.err != "", "no message on standard error")
}

var formatFlags = [4][]string{{"--text"}, {"--raw", "-r"}, {"--json", "-j"}, {"--whois", "-w"}}

func drawFormat() (format, []string) {
	var on [4]bool
	var args []string
	for i := range on {
		if k := sym.Choice("format", 1+len(formatFlags[i])); k > 0 {
			on[i] = true
			args = append(args, formatFlags[i][k-1])
		}
	}
	return format{on[0], on[1], on[2], on[3]}, args
}

// oneFormat draws at most one format.
func oneFormat() (format, []string) {
	switch sym.Choice("format", 5) {
	case 1:
		return format{text: true}, []string{"--text"}
	case 2:
		return format{raw: true}, []string{"--raw"}
	case 3:
		return format{json: true}, []string{"--json"}
	case 4:
		return format{whois: true}, []string{"--whois"}
	}
	return format{}, nil
}

// plain draws a byte that stands for itself in a JSON string.
func plain(name string) string {
	b := sym.Byte(name)
	sym.Assume(sym.And(b >= ' ', b < 0x7f, b != '"', b != '\\'))
	return string([]byte{b})
}

var bodies = []string{
	`{"objectClassName":"domain","handle":"?","ldhName":"x"}`,
	"\r\n {\t\"objectClassName\" : \"domain\", \"z\":[1.50, -0e1 ,\"?\", {} , [ ]], \"handle\":\"a\\u00e9\\n ?\"}\n\n",
	`{"objectClassName":"entity","handle":"?","x":{"y":[null,true,[[]],"?"]},"handle":"dup"}`,
	`{"objectClassName":"autnum","startAutnum":?}`,
	`{"errorCode":?}`,
	`{"domainSearchResults":[{"objectClassName":"domain","handle":"?"}]}`,
}

func drawBody(n int) []byte {
	i := sym.Choice("body", n)
	fill := ""
	if i == 3 || i == 4 {
		fill = textIn("c", 1, "0123456789")
	} else {
		fill = plain("c")
	}
	return []byte(strings.ReplaceAll(bodies[i], "?", fill))
}

// C27_out: one server, every combination of output options.
func C27_out() {
	f, args := drawFormat()
	nb := sym.Param("NB", 2)
	body := drawBody(nb)
	verbose := sym.Choice("verbose", 2) == 1
	if verbose {
		args = append(args, "-v")
	}
	args = append(args, "-s", "https://h.example", "-t", "domain", "q")
	c := runCLI(rdap.CLIOptions{}, func(t *transport, r *http.Request) (*http.Response, error) {
		return t.resp(200, body, nil), nil
	}, args...)
	c.outputs(f, body)
	if !verbose {
		sym.Assert(c.err == "", "message although the query succeeded")
	}
}

// C27_json: every kind of answer in every single format.
func C27_json() {
	f, args := oneFormat()
	body := drawBody(len(bodies))
	args = append(args, "-s", "https://h.example", "-t", "domain", "q")
	c := runCLI(rdap.CLIOptions{}, func(t *transport, r *http.Request) (*http.Response, error) {
		return t.resp(200, body, nil), nil
	}, args...)
	c.outputs(f, body)
	sym.Assert(c.err == "", "message although the query succeeded")
}

// C27_servers: the answer printed is the accepted one, whatever other servers did.
func C27_servers() {
	f, args := oneFormat()
	n := 1 + sym.Choice("servers", sym.Param("NS", 2))
	urls := serverURLs(n)
	ss := make([]script, n)
	for i := range ss {
		i := i
		ss[i].draw = func(s *script) {
			s.draw = nil
			s.kind = sym.Choice("kind", 6)
			s.status = anyStatus("status")
			sym.Assume(s.status != 304 && (s.status < 300 || s.status > 399))
			switch s.kind {
			case 1:
				s.body = []byte(`{"objectClassName":"domain","handle":"` + plain("c") + string(rune('0'+i)) + `"}`)
			case 2:
				s.body = undecodable[sym.Choice("bad", 2)]
			}
		}
	}
	st := scriptedTransport(ss)
	first := true
	args = append(args, "--cache-dir=", "--timeout=30", "example.com")
	c := runCLI(rdap.CLIOptions{}, func(t *transport, r *http.Request) (*http.Response, error) {
		if first {
			first = false
			return t.resp(200, sym.JSON(sym.Obj().Set("services", sym.Arr(sym.Arr(sym.Strs("com"), sym.Strs(urls...))))), nil), nil
		}
		return st.RoundTrip(r)
	}, args...)
	ok, notFound, expired := -1, false, false
	tried := 0
	for i := 0; i < n && ok < 0 && !notFound && !expired; i++ {
		tried++
		s := ss[i]
		good := sym.Fork(sym.And(s.status >= 200, s.status <= 299))
		switch s.kind {
		case 1, 2, 3:
			if good && s.kind == 1 {
				ok = i
			} else if !(good && s.kind == 2) && sym.Fork(s.status == 404) {
				notFound = true
			}
		case 5:
			expired = true
		}
	}
	sym.Assert(len(st.reqs) == tried, "wrong number of servers tried")
	if ok >= 0 {
		sym.Cover("answered")
		c.outputs(f, ss[ok].body)
		return
	}
	sym.Cover("failed")
	c.failed()
}

// C27_boot: bootstrapping fails.
func C27_boot() {
	_, args := oneFormat()
	args = append(args, "--cache-dir=")
	if sym.Choice("verbose", 2) == 1 {
		args = append(args, "--verbose")
	}
	args = append(args, []string{"example.com", "192.0.2.1", "AS1", "2001:db8::", "X-TAG"}[sym.Choice("q", 5)])
	kind := sym.Choice("kind", 5)
	c := runCLI(rdap.CLIOptions{}, func(t *transport, r *http.Request) (*http.Response, error) {
		sym.Assert(len(t.reqs) == 1, "went on after bootstrapping failed")
		switch kind {
		case 0:
			return nil, errWire
		case 1:
			return t.resp(500, []byte("{}"), nil), nil
		case 2:
			return t.resp(200, []byte("{"), nil), nil
		case 3:
			return t.resp(200, []byte(`{"services":[[["other","198.51.100.0/24","7-9","::/8","NO"],["http://h/"]]]}`), nil), nil
		}
		sym.AdvanceSec(40)
		if err := r.Context().Err(); err != nil {
			return nil, err
		}
		return t.resp(200, []byte("{}"), nil), nil
	}, args...)
	c.failed()
}

// C27_bytes: a body with any one byte replaced.
func C27_bytes() {
	f, args := oneFormat()
	b := []byte(`{"objectClassName":"domain", "handle":"h\n%d"}`)
	i := sym.Choice("at", len(b))
	b[i] = sym.Byte("b")
	sym.Assume(b[i] < 0x80)
	args = append(args, "-s", "https://h.example", "-t", "domain", "q")
	c := runCLI(rdap.CLIOptions{}, func(t *transport, r *http.Request) (*http.Response, error) {
		return t.resp(200, b, nil), nil
	}, args...)
	if _, err := rdap.NewDecoder(b).Decode(); err != nil {
		sym.Cover("undecodable")
		c.failed()
		return
	}
	sym.Cover("decoded")
	c.outputs(f, b)
}
