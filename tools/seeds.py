# Planted bugs: seed(id, property, [(file, old, new)], needs, breaks, package dir, demo test source)

seed("c01-wide-query", "C01",
 [("bootstrap/net_registry.go", "		if mask < bestMask || mask > lookupMask {\n", "		if mask < bestMask || mask-1 > lookupMask {\n")],
 "a CIDR query one bit wider than a registry entry that starts at the same address",
 "a range query is answered by an entry that covers only part of it",
 "bootstrap", '''package bootstrap

import "testing"

func TestPlantedDemo(t *testing.T) {
	r, err := NewNetRegistry([]byte(`{"services":[[["10.0.0.0/16"],["https://a.example/"]]]}`), 4)
	if err != nil {
		t.Fatal(err)
	}
	a, err := r.Lookup(&Question{RegistryType: IPv4, Query: "10.0.0.0/15"})
	if err != nil || len(a.URLs) != 0 {
		t.Fatalf("%v %v", a, err)
	}
	a, err = r.Lookup(&Question{RegistryType: IPv4, Query: "10.0.0.0/24"})
	if err != nil || len(a.URLs) != 1 {
		t.Fatalf("%v %v", a, err)
	}
}
''')

seed("c02-reversed", "C02",
 [("bootstrap/asn_registry.go", "	if minASN > maxASN {\n		minASN, maxASN = maxASN, minASN\n	}\n", "	if minASN > maxASN {\n		minASN = maxASN\n	}\n")],
 "a registry range written with its larger end first",
 "numbers inside a range given larger end first are not found",
 "bootstrap", '''package bootstrap

import "testing"

func TestPlantedDemo(t *testing.T) {
	r, err := NewASNRegistry([]byte(`{"services":[[["20-10"],["https://a.example/"]]]}`))
	if err != nil {
		t.Fatal(err)
	}
	a, err := r.Lookup(&Question{RegistryType: ASN, Query: "AS15"})
	if err != nil || len(a.URLs) != 1 {
		t.Fatalf("%v %v", a, err)
	}
}
''')

seed("c03-all-dots", "C03",
 [("bootstrap/dns_registry.go", '	input = strings.TrimSuffix(input, ".")\n', '	input = strings.Trim(input, ".")\n')],
 "a name with a leading dot or several trailing dots",
 "names with empty labels are matched as if they had none",
 "bootstrap", '''package bootstrap

import "testing"

func TestPlantedDemo(t *testing.T) {
	r, err := NewDNSRegistry([]byte(`{"services":[[["com"],["https://a.example/"]]]}`))
	if err != nil {
		t.Fatal(err)
	}
	a, err := r.Lookup(&Question{RegistryType: DNS, Query: "example.com.."})
	if err != nil || len(a.URLs) != 0 {
		t.Fatalf("%v %v", a, err)
	}
}
''')

seed("c07-save-order", "C07",
 [("bootstrap/client.go", """	err = c.Cache.Save(c.filenameFor(registry), json)
	if err != nil {
		return err
	}

	c.registries[registry] = s

	return nil
""", """	c.registries[registry] = s

	return c.Cache.Save(c.filenameFor(registry), json)
""")],
 "a cache that cannot be written while the download itself succeeds",
 "a failed download replaces the registry in use",
 "bootstrap", '''package bootstrap

import (
	"errors"
	"io"
	"net/http"
	"strings"
	"testing"

	"github.com/openrdap/rdap/bootstrap/cache"
)

type demoCache struct{ *cache.MemoryCache }

func (demoCache) Save(string, []byte) error { return errors.New("disk full") }

type demoRT struct{}

func (demoRT) RoundTrip(*http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 200, Header: http.Header{}, Body: io.NopCloser(strings.NewReader(`{"services":[]}`))}, nil
}

func TestPlantedDemo(t *testing.T) {
	c := &Client{HTTP: &http.Client{Transport: demoRT{}}, Cache: demoCache{cache.NewMemoryCache()}}
	if c.Download(DNS) == nil {
		t.Fatal("no error")
	}
	if c.DNS() != nil {
		t.Fatal("registry replaced by a failed download")
	}
}
''')

seed("c09-unchanged", "C09",
 [("bootstrap/cache/disk_cache.go", "	if err := os.WriteFile(d.cacheDirPath(filename), data, 0o600); err != nil {\n", "	if old, err := os.ReadFile(d.cacheDirPath(filename)); err == nil && string(old) == string(data) {\n		return nil\n	} else if err := os.WriteFile(d.cacheDirPath(filename), data, 0o600); err != nil {\n")],
 "saving the same bytes again after time has passed",
 "a file saved again with equal content keeps its old time and expires too early",
 "bootstrap/cache", '''package cache

import (
	"os"
	"path/filepath"
	"testing"
	"time"
)

func TestPlantedDemo(t *testing.T) {
	d := NewDiskCache()
	d.Dir = t.TempDir()
	if err := d.Save("dns.json", []byte("a")); err != nil {
		t.Fatal(err)
	}
	old := time.Now().Add(-100 * time.Hour)
	os.Chtimes(filepath.Join(d.Dir, "dns.json"), old, old)
	if err := d.Save("dns.json", []byte("a")); err != nil {
		t.Fatal(err)
	}
	if s := d.State("dns.json"); s != Good {
		t.Fatal(int(s))
	}
}
''')

RT = '''
type demoRT func(n int, r *http.Request) *http.Response

var demoN int

func (f demoRT) RoundTrip(r *http.Request) (*http.Response, error) {
	demoN++
	return f(demoN, r), nil
}

func demoReply(code int, body string) *http.Response {
	return &http.Response{StatusCode: code, Header: http.Header{}, Body: io.NopCloser(strings.NewReader(body))}
}
'''

seed("c04-case-folded", "C04",
 [("bootstrap/service_provider_registry.go", "	service := input[offset+1:]", "	service := strings.ToUpper(input[offset+1:])")],
 "a handle whose tag differs from a registered one in letter case",
 "a tag that is not registered is answered as if it were",
 "bootstrap", '''package bootstrap

import "testing"

func TestPlantedDemo(t *testing.T) {
	r, err := NewServiceProviderRegistry([]byte(`{"services":[[["a@b.example"],["FRNIC"],["https://a.example/"]]]}`))
	if err != nil {
		t.Fatal(err)
	}
	a, err := r.Lookup(&Question{RegistryType: ServiceProvider, Query: "x-frnic"})
	if err != nil || len(a.URLs) != 0 {
		t.Fatalf("%v %v", a, err)
	}
}
''')

seed("c05-stop-at-bad-url", "C05",
 [("bootstrap/file.go", "			if err != nil {\n				continue\n			}", "			if err != nil {\n				break\n			}")],
 "a service with an unparsable URL before a good one",
 "good URLs after a bad one are lost",
 "bootstrap", '''package bootstrap

import "testing"

func TestPlantedDemo(t *testing.T) {
	f, err := NewFile([]byte(`{"services":[[["a"],["https://a.example/","http://[","https://b.example/"]]]}`))
	if err != nil || len(f.Entries["a"]) != 2 {
		t.Fatal(f, err)
	}
}
''')

seed("c06-accessor-fetch", "C06",
 [("bootstrap/client.go", "		_ = c.reloadFromCache(registry)\n", "		if c.reloadFromCache(registry) != nil {\n			_ = c.Download(registry)\n		}\n")],
 "a shared cache in which another process has put a damaged newer file, and then a use of an accessor",
 "an accessor downloads",
 "bootstrap", '''package bootstrap

import (
	"io"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/openrdap/rdap/bootstrap/cache"
)
''' + RT + '''
func TestPlantedDemo(t *testing.T) {
	d := cache.NewDiskCache()
	d.Dir = t.TempDir()
	n := 0
	c := &Client{Cache: d, HTTP: &http.Client{Transport: demoRT(func(int, *http.Request) *http.Response {
		n++
		return demoReply(200, `{"services":[]}`)
	})}}
	if err := os.WriteFile(filepath.Join(d.Dir, "dns.json"), []byte("{"), 0o600); err != nil {
		t.Fatal(err)
	}
	c.DNS()
	if n != 0 {
		t.Fatal("accessor used the network")
	}
}
''')

seed("c08-no-shrink", "C08",
 [("bootstrap/cache/memory_cache.go", "	m.cache[filename] = make([]byte, len(data))\n", "	if len(m.cache[filename]) < len(data) {\n		m.cache[filename] = make([]byte, len(data))\n	}\n")],
 "saving a shorter file over a longer one",
 "the tail of the older file stays",
 "bootstrap/cache", '''package cache

import "testing"

func TestPlantedDemo(t *testing.T) {
	m := NewMemoryCache()
	m.Save("f", []byte("longer"))
	m.Save("f", []byte("ab"))
	b, err := m.Load("f")
	if err != nil || string(b) != "ab" {
		t.Fatalf("%q %v", b, err)
	}
}
''')

seed("c10-param-order", "C10",
 [("request.go", "		maps.Copy(query, r.Params)\n		maps.Copy(query, values)\n", "		maps.Copy(query, values)\n		maps.Copy(query, r.Params)\n")],
 "a search request whose caller parameters include the documented one",
 "the query text is replaced by the caller's parameter",
 ".", '''package rdap

import (
	"net/url"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	s, _ := url.Parse("https://h.example/")
	r := NewRequest(DomainSearchRequest, "a*.example").WithServer(s)
	r.Params = url.Values{"name": {"other"}, "k": {"v"}}
	if got := r.URL().Query(); got.Get("name") != "a*.example" || got.Get("k") != "v" {
		t.Fatal(got)
	}
}
''')

seed("c11-raw-alias", "C11",
 [("request.go", "		resultURL = new(url.URL)\n		*resultURL = *r.Server\n", "		resultURL = r.Server\n")],
 "a raw request whose computed URL is changed by the caller",
 "the request shares its server URL with every URL computed from it",
 ".", '''package rdap

import (
	"net/url"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	s, _ := url.Parse("https://h.example/domain/x")
	r := NewRawRequest(s)
	u := r.URL()
	u.Path = "/other"
	if r.URL().String() != "https://h.example/domain/x" || s.Path != "/domain/x" {
		t.Fatal(r.URL(), s)
	}
}
''')

seed("c12-leading-dot", "C12",
 [("request.go", '	if strings.Contains(queryText, ".") {', '	if strings.LastIndex(queryText, ".") > 0 {')],
 "text whose only dot comes first",
 "a text with a dot is taken for an entity handle",
 ".", '''package rdap

import "testing"

func TestPlantedDemo(t *testing.T) {
	if r := NewAutoRequest(".example"); r.Type != DomainRequest || r.Query != ".example" {
		t.Fatal(r.Type, r.Query)
	}
}
''')

seed("c13-status-299", "C13",
 [("client.go", "hrr.StatusCode >= 200 && hrr.StatusCode <= 299 {", "hrr.StatusCode >= 200 && hrr.StatusCode < 299 {")],
 "a server that answers with status 299",
 "a successful answer is passed over",
 ".", '''package rdap

import (
	"io"
	"net/http"
	"net/url"
	"strings"
	"testing"
)
''' + RT + '''
func TestPlantedDemo(t *testing.T) {
	c := &Client{HTTP: &http.Client{Transport: demoRT(func(int, *http.Request) *http.Response {
		return demoReply(299, `{"objectClassName":"domain","handle":"h"}`)
	})}}
	s, _ := url.Parse("https://h.example/")
	resp, err := c.Do(NewDomainRequest("x.example").WithServer(s))
	if err != nil || resp.Object == nil {
		t.Fatal(err)
	}
}
''')

seed("c14-bare-autnum", "C14",
 [("client.go", "	if autnum, ok := resp.Object.(*Autnum); ok {\n		return autnum, nil", "	if autnum, ok := resp.Object.(*Autnum); ok && autnum.StartAutnum != nil {\n		return autnum, nil")],
 "an autnum answer without a start number",
 "a valid answer becomes a wrong-type error",
 ".", '''package rdap

import (
	"io"
	"net/http"
	"strings"
	"testing"
)
''' + RT + '''
func TestPlantedDemo(t *testing.T) {
	c := &Client{HTTP: &http.Client{Transport: demoRT(func(n int, r *http.Request) *http.Response {
		return demoReply(200, `{"objectClassName":"autnum","handle":"h"}`)
	})}}
	c.Bootstrap = nil
	rt := c.HTTP.Transport
	c.HTTP.Transport = demoRT(func(n int, r *http.Request) *http.Response {
		if strings.HasSuffix(r.URL.Path, ".json") {
			return demoReply(200, `{"services":[[["1-100"],["https://a.example/"]]]}`)
		}
		p, _ := rt.RoundTrip(r)
		return p
	})
	http.DefaultTransport = c.HTTP.Transport
	a, err := c.QueryAutnum("5")
	if err != nil || a == nil || a.Handle != "h" {
		t.Fatal(a, err)
	}
}
''')

seed("c15-broken-body", "C15",
 [("client.go", "	defer resp.Body.Close()\n	httpResponse.Body, httpResponse.Error = io.ReadAll(resp.Body)\n", "	httpResponse.Body, httpResponse.Error = io.ReadAll(resp.Body)\n	if httpResponse.Error == nil {\n		defer resp.Body.Close()\n	}\n")],
 "a response body that breaks off",
 "the body of a broken response is never closed",
 ".", '''package rdap

import (
	"errors"
	"net/http"
	"net/url"
	"testing"
)

type demoBody struct{ closed *bool }

func (b demoBody) Read([]byte) (int, error) { return 0, errors.New("connection reset") }
func (b demoBody) Close() error             { *b.closed = true; return nil }

type demoRT struct{ closed *bool }

func (d demoRT) RoundTrip(r *http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 200, Header: http.Header{}, Body: demoBody{d.closed}, Request: r}, nil
}

func TestPlantedDemo(t *testing.T) {
	closed := false
	c := &Client{HTTP: &http.Client{Transport: demoRT{&closed}}}
	s, _ := url.Parse("https://h.example/")
	if _, err := c.Do(NewDomainRequest("x.example").WithServer(s)); err == nil {
		t.Fatal("no error")
	}
	if !closed {
		t.Fatal("body not closed")
	}
}
''')

seed("c16-null-code", "C16",
 [("decoder.go", '	} else if _, exists := src["errorCode"]; exists {', '	} else if code, exists := src["errorCode"]; exists && code != nil {')],
 "an object with an error code of null and a class name",
 "an error object is decoded to another type",
 ".", '''package rdap

import "testing"

func TestPlantedDemo(t *testing.T) {
	o, err := NewDecoder([]byte(`{"errorCode":null,"objectClassName":"domain"}`)).Decode()
	if _, ok := o.(*Error); !ok || err != nil {
		t.Fatalf("%T %v", o, err)
	}
}
''')

seed("c17-kept-elements", "C17",
 [("decoder.go", "		if success {\n			result = reflect.Append(result, reflect.Indirect(vdst))\n		}", "		if success || vdst.Elem().Kind() == reflect.String {\n			result = reflect.Append(result, reflect.Indirect(vdst))\n		}")],
 "a list or object inside a list of texts",
 "an element that cannot be decoded is kept as an empty text",
 ".", '''package rdap

import "testing"

func TestPlantedDemo(t *testing.T) {
	o, err := NewDecoder([]byte(`{"objectClassName":"domain","status":["a",["b"],"c"]}`)).Decode()
	d, ok := o.(*Domain)
	if err != nil || !ok || len(d.Status) != 2 || d.Status[1] != "c" {
		t.Fatalf("%v %v", o, err)
	}
}
''')

seed("c18-null-field", "C18",
 [("decode_data.go", "	for f := range r.values {\n		fields = append(fields, f)\n	}", "	for f, v := range r.values {\n		if v == nil {\n			continue\n		}\n		fields = append(fields, f)\n	}")],
 "a field whose value is null",
 "a field of the response is not listed",
 ".", '''package rdap

import "testing"

func TestPlantedDemo(t *testing.T) {
	o, err := NewDecoder([]byte(`{"objectClassName":"domain","x":null}`)).Decode()
	if err != nil {
		t.Fatal(err)
	}
	if f := o.(*Domain).DecodeData.Fields(); len(f) != 2 {
		t.Fatal(f)
	}
}
''')

seed("c19-stop-at-bad", "C19",
 [("vcard.go", "			if options.IgnoreInvalidProperties {\n				continue", "			if options.IgnoreInvalidProperties {\n				break")],
 "an invalid property before a valid one, with invalid ones ignored",
 "valid properties after an invalid one are lost",
 ".", '''package rdap

import "testing"

func TestPlantedDemo(t *testing.T) {
	c, err := NewVCardWithOptions([]byte(`["vcard",[["fn",{},"text","a"],["bad"],["email",{},"text","b"]]]`), VCardOptions{IgnoreInvalidProperties: true})
	if err != nil || len(c.Properties) != 2 || c.Email() != "b" {
		t.Fatalf("%v %v", c, err)
	}
}
''')

seed("c20-fax-voice", "C20",
 [("vcard.go", "			if slices.Contains(types, \"fax\") {\n", "			if slices.Contains(types, \"fax\") && !slices.Contains(types, \"voice\") {\n")],
 "one number marked both voice and fax",
 "the fax number is not found",
 ".", '''package rdap

import "testing"

func TestPlantedDemo(t *testing.T) {
	c, err := NewVCard([]byte(`["vcard",[["tel",{"type":["voice","fax"]},"uri","tel:1"]]]`))
	if err != nil || c.Fax() != "tel:1" || c.Tel() != "tel:1" {
		t.Fatalf("%v %v", c, err)
	}
}
''')

seed("c21-deep-indent", "C21",
 [("print.go", "	return strings.Repeat(string(p.IndentChar), int(indentLevel*p.IndentSize))", "	return strings.Repeat(string(p.IndentChar), int(min(indentLevel, 4)*p.IndentSize))")],
 "objects nested more than four deep",
 "deeper values are printed as if they belonged to an outer object",
 ".", '''package rdap

import (
	"bytes"
	"strings"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	e := Entity{Handle: "deep"}
	for i := 0; i < 5; i++ {
		e = Entity{Entities: []Entity{e}}
	}
	var b bytes.Buffer
	(&Printer{Writer: &b}).Print(&e)
	if !strings.Contains(b.String(), "\\n            Handle: deep\\n") {
		t.Fatal(b.String())
	}
}
''')

seed("c22-single-autnum", "C22",
 [("print.go", "	if a.EndAutnum != nil {\n", "	if a.EndAutnum != nil && (a.StartAutnum == nil || *a.EndAutnum != *a.StartAutnum) {\n")],
 "an AS block of one number",
 "the end of the block is not printed",
 ".", '''package rdap

import (
	"bytes"
	"strings"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	n, m := uint32(5), uint32(5)
	var b bytes.Buffer
	(&Printer{Writer: &b}).Print(&Autnum{StartAutnum: &n, EndAutnum: &m})
	if strings.Count(b.String(), ": 5\\n") != 2 {
		t.Fatal(b.String())
	}
}
''')

seed("c23-later-entity", "C23",
 [("response.go", "		if slices.Contains(e.Roles, role) {", "		if slices.Contains(e.Roles, role) && e.VCard != nil {")],
 "the first entity with a role has no card and a later one has",
 "a contact is taken from another than the first entity with its role",
 ".", '''package rdap

import "testing"

func TestPlantedDemo(t *testing.T) {
	c, err := NewVCard([]byte(`["vcard",[["fn",{},"text","second"]]]`))
	if err != nil {
		t.Fatal(err)
	}
	d := &Domain{Entities: []Entity{{Roles: []string{"technical"}}, {Roles: []string{"technical"}, VCard: c}}}
	w := (&Response{Object: d}).ToWhoisStyleResponse()
	if len(w.KeyDisplayOrder) != 0 {
		t.Fatal(w.KeyDisplayOrder)
	}
}
''')

seed("c24-server-query", "C24",
 [("cli.go", "		if serverURL.Scheme == \"\" {\n			serverURL.Scheme = \"http\"\n		}", "		if serverURL.Scheme == \"\" {\n			serverURL.Scheme = \"http\"\n		}\n		serverURL.RawQuery = \"\"")],
 "a server URL with parameters of its own",
 "the request goes out without the server's parameters",
 ".", '''package rdap

import (
	"bytes"
	"io"
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	got := ""
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		got = r.URL.RequestURI()
		io.WriteString(w, `{"objectClassName":"domain"}`)
	}))
	defer s.Close()
	var out, errs bytes.Buffer
	if rc := RunCLI([]string{"--cache-dir=", "-s", s.URL + "/?key=1", "-t", "domain", "x.example"}, &out, &errs, CLIOptions{}); rc != 0 {
		t.Fatal(rc, errs.String())
	}
	if got != "/domain/x.example?key=1" {
		t.Fatal(got)
	}
}
''')

seed("c27-newest-first", "C27",
 [("client.go", "		resp.HTTP = append(resp.HTTP, httpResponse)", "		resp.HTTP = append([]*HTTPResponse{httpResponse}, resp.HTTP...)")],
 "a first server that fails and a second that answers",
 "raw output is the body of a response that was not accepted",
 ".", '''package rdap

import (
	"bytes"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	var s *httptest.Server
	s = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		switch {
		case strings.HasSuffix(r.URL.Path, ".json"):
			fmt.Fprintf(w, `{"services":[[["example"],["%s/one/","%s/two/"]]]}`, s.URL, s.URL)
		case strings.HasPrefix(r.URL.Path, "/one/"):
			w.WriteHeader(500)
			io.WriteString(w, "broken")
		default:
			io.WriteString(w, `{"objectClassName":"domain"}`)
		}
	}))
	defer s.Close()
	var out, errs bytes.Buffer
	rc := RunCLI([]string{"--cache-dir=", "--bs-url=" + s.URL + "/", "--raw", "x.example"}, &out, &errs, CLIOptions{})
	if rc != 0 || out.String() != `{"objectClassName":"domain"}` {
		t.Fatal(rc, out.String(), errs.String())
	}
}
''')

seed("c28-iana-host", "C28",
 [("bootstrap/client.go", "	if c.BaseURL.String() != DefaultBaseURL {", "	if c.BaseURL.Host != \"data.iana.org\" {")],
 "another bootstrap service on the default one's host",
 "two services share a cache file",
 "bootstrap", '''package bootstrap

import (
	"io"
	"net/http"
	"net/url"
	"strings"
	"testing"

	"github.com/openrdap/rdap/bootstrap/cache"
)
''' + RT + '''
func TestPlantedDemo(t *testing.T) {
	m := cache.NewMemoryCache()
	u, _ := url.Parse("https://data.iana.org/rdap/test/")
	c := &Client{Cache: m, BaseURL: u, HTTP: &http.Client{Transport: demoRT(func(int, *http.Request) *http.Response {
		return demoReply(200, `{"services":[]}`)
	})}}
	if err := c.Download(DNS); err != nil {
		t.Fatal(err)
	}
	if _, err := m.Load("dns.json"); err == nil {
		t.Fatal("saved as the default service's file")
	}
}
''')

seed("c30-boot-limit", "C30",
 [("cli.go", "	req = req.WithContext(ctx)\n\n	verbose(fmt.Sprintf(\"rdap: Timeout", "	if req.Server != nil || *timeoutFlag == 30 {\n		req = req.WithContext(ctx)\n	}\n\n	verbose(fmt.Sprintf(\"rdap: Timeout")],
 "a time limit other than the default, and a query that needs bootstrapping",
 "the limit is not kept",
 ".", '''package rdap

import (
	"bytes"
	"io"
	"net/http"
	"net/http/httptest"
	"testing"
	"time"
)

func TestPlantedDemo(t *testing.T) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		select {
		case <-time.After(4 * time.Second):
		case <-r.Context().Done():
		}
		io.WriteString(w, `{"services":[]}`)
	}))
	defer s.Close()
	var out, errs bytes.Buffer
	start := time.Now()
	rc := RunCLI([]string{"--cache-dir=", "--bs-url=" + s.URL + "/", "-T", "1", "x.example"}, &out, &errs, CLIOptions{})
	if rc != 1 || time.Since(start) > 3*time.Second {
		t.Fatal(rc, time.Since(start))
	}
}
''')

seed("c29-last-plan", "C29",
 [("decoder.go", "var structPlanCache sync.Map // map[reflect.Type]*structPlan\n", "var (\n	structPlanCache sync.Map // map[reflect.Type]*structPlan\n	lastPlanMu      sync.Mutex\n	lastPlanType    reflect.Type\n	lastPlan        *structPlan\n)\n\n// isLastPlan reports whether |t| was the last struct type looked up.\nfunc isLastPlan(t reflect.Type) bool {\n	lastPlanMu.Lock()\n	defer lastPlanMu.Unlock()\n\n	return lastPlanType == t\n}\n\nfunc getLastPlan() *structPlan {\n	lastPlanMu.Lock()\n	defer lastPlanMu.Unlock()\n\n	return lastPlan\n}\n\nfunc setLastPlan(t reflect.Type, plan *structPlan) *structPlan {\n	lastPlanMu.Lock()\n	defer lastPlanMu.Unlock()\n\n	lastPlanType, lastPlan = t, plan\n\n	return plan\n}\n"),
  ("decoder.go", "	if cached, ok := structPlanCache.Load(t); ok {\n		return cached.(*structPlan)\n	}\n", "	if isLastPlan(t) {\n		return getLastPlan()\n	}\n\n	if cached, ok := structPlanCache.Load(t); ok {\n		return setLastPlan(t, cached.(*structPlan))\n	}\n")],
 "two goroutines decoding responses with different object types, one being preempted between the two lookups",
 "an object is decoded with the field plan of another type; no data race is involved",
 ".", '''package rdap

import (
	"fmt"
	"sync"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	docs := []string{
		`{"objectClassName":"domain","handle":"H","ldhName":"a.example","events":[{"eventAction":"x"},{"eventAction":"y"}]}`,
		`{"objectClassName":"autnum","handle":"H","startAutnum":7,"links":[{"href":"x"},{"href":"y"}]}`,
	}
	check := func(doc string) (err error) {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("panic: %v", r)
			}
		}()
		x, err := NewDecoder([]byte(doc)).Decode()
		if err != nil {
			return err
		}
		switch x := x.(type) {
		case *Domain:
			if x.LDHName != "a.example" || len(x.Events) != 2 || x.Events[1].Action != "y" {
				return fmt.Errorf("%+v", x)
			}
		case *Autnum:
			if x.StartAutnum == nil || *x.StartAutnum != 7 || len(x.Links) != 2 || x.Links[1].Href != "y" {
				return fmt.Errorf("%+v", x)
			}
		}
		return nil
	}
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 20000 && !t.Failed(); i++ {
				if err := check(docs[g%2]); err != nil {
					t.Error(err)
				}
			}
		}()
	}
	wg.Wait()
}
''')

seed("c29-known-memo", "C29",
 [("decode_data.go", "		if _, isKnown := r.isKnown[f]; !isKnown {\n", "		known, seen := r.isKnown[f]\n		if !seen {\n			// Remember the answer for later calls.\n			r.isKnown[f] = known\n		}\n		if !known {\n")],
 "two goroutines listing the unknown fields of responses of one type at the same time",
 "the set of known fields, shared by all objects of a type, is written without synchronisation",
 ".", '''package rdap

import (
	"fmt"
	"sync"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 20000; i++ {
				k := fmt.Sprintf("x%d-%d", g, i)
				x, err := NewDecoder([]byte(`{"objectClassName":"domain","` + k + `":1}`)).Decode()
				if err != nil {
					t.Error(err)
					return
				}
				if u := x.(*Domain).DecodeData.UnknownFields(); len(u) != 1 || u[0] != k {
					t.Error(u)
					return
				}
			}
		}()
	}
	wg.Wait()
}
''')

seed("c25-relative-cache", "C25",
 [("cli.go", "			if !options.Sandbox {\n				dc.Dir = *cacheDirFlag", "			if !options.Sandbox || (*cacheDirFlag)[0] != '/' {\n				dc.Dir = *cacheDirFlag")],
 "sandbox mode and a relative --cache-dir",
 "the cache is kept in a directory the user named although sandboxed",
 ".", '''package rdap

import (
	"io"
	"os"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	d := t.TempDir()
	t.Chdir(d)
	t.Setenv("HOME", d+"/home")
	t.Setenv("XDG_CACHE_HOME", "")
	RunCLI([]string{"--cache-dir=mine", "--bs-url=http://127.0.0.1:1/", "-t", "domain", "x.example"}, io.Discard, io.Discard, CLIOptions{Sandbox: true})
	if _, err := os.Stat(d + "/mine"); err == nil {
		t.Fatal("directory made outside the sandbox")
	}
}
''')

seed("c26-insecure-port", "C26",
 [("cli.go", "	// Custom HTTP client. Used to disable TLS certificate verification.\n", "	if req.Server != nil && req.Server.Port() != \"\" {\n		tlsConfig.InsecureSkipVerify = true\n	}\n\n	// Custom HTTP client. Used to disable TLS certificate verification.\n")],
 "--server with an explicit port and a certificate that is not trusted",
 "the certificate is not verified although nobody asked for that",
 ".", '''package rdap

import (
	"io"
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	d := t.TempDir()
	t.Setenv("HOME", d)
	t.Setenv("XDG_CACHE_HOME", "")
	s := httptest.NewTLSServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		io.WriteString(w, `{"objectClassName":"domain"}`)
	}))
	defer s.Close()
	if RunCLI([]string{"--cache-dir=", "--server=" + s.URL, "-t", "domain", "x.example"}, io.Discard, io.Discard, CLIOptions{}) == 0 {
		t.Fatal("answer of a server with an untrusted certificate accepted")
	}
	if RunCLI([]string{"--cache-dir=", "-k", "--server=" + s.URL, "-t", "domain", "x.example"}, io.Discard, io.Discard, CLIOptions{}) != 0 {
		t.Fatal("--insecure has no effect")
	}
}
''')
