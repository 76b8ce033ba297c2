package h

import (
	"net/http"
	"os"
	"path/filepath"
	"strings"

	"github.com/openrdap/rdap"
	"github.com/openrdap/rdap/sandbox"

	"verifharness/pki"
	"verifharness/sym"
)

func init() {
	All["C25_options"] = Spec{F: C25_options}
	All["C25_p12"] = Spec{F: C25_p12}
	All["C25_api"] = Spec{F: C25_api}
	All["C25_effect"] = Spec{F: C25_effect}
	All["C26_verify"] = Spec{F: C26_verify}
	All["C26_cert"] = Spec{F: C26_cert}
}

var shipped = []string{
	"DigiCert_RDAP_Pilot_Client_Certificate.p12",
	"DigiCert_RDAP_Pilot_Client_Certificate_Expired.p12",
	"DigiCert_RDAP_Pilot_Client_Certificate_Revoked.p12",
}

func isShipped(name string) bool {
	for _, s := range shipped {
		if name == s {
			return true
		}
	}
	return false
}

// tree lists everything below a directory.
func fsTree(dir string) []string {
	var out []string
	es, err := os.ReadDir(dir)
	if err != nil {
		return nil
	}
	for _, e := range es {
		p := dir + "/" + e.Name()
		out = append(out, p)
		if e.IsDir() {
			out = append(out, fsTree(p)...)
		}
	}
	return out
}

func within(p, dir string) bool { return p == dir || strings.HasPrefix(p, dir+"/") }

// confined: nothing but the default cache directory and shipped certificates
// was touched since the given state.
func confined(before []string, opened int, cache string) {
	since := sym.Opened()[opened:]
	for _, p := range fsTree(sym.Dir()) {
		old := false
		for _, b := range before {
			old = old || b == p
		}
		sym.Assert(old || within(p, cache) || within(cache, p), "file or directory made outside the cache directory")
	}
	for _, o := range since {
		p := filepath.Clean(o)
		ok := within(p, cache)
		for _, s := range shipped {
			ok = ok || p == "/repo/sandbox/"+s
		}
		sym.Assert(ok, "file opened outside the sandbox")
	}
}

// sandboxed draws a way of enabling sandbox mode.
func sandboxed() (rdap.CLIOptions, []string) {
	switch sym.Choice("sandbox", 3) {
	case 0:
		return rdap.CLIOptions{Sandbox: true}, nil
	case 1:
		return rdap.CLIOptions{}, []string{"--exp=sandbox"}
	}
	return rdap.CLIOptions{}, []string{"-e", "--exp=object_tag", "--exp=sandbox", "--exp=test_rdap_net"}
}

// cacheHome draws the default cache directory.
func cacheHome() string {
	home := sym.Dir() + "/home"
	os.Setenv("HOME", home)
	if sym.Choice("xdg", 2) == 1 {
		os.Setenv("XDG_CACHE_HOME", sym.Dir()+"/xdg")
		return sym.Dir() + "/xdg/openrdap"
	}
	os.Setenv("XDG_CACHE_HOME", "")
	return home + "/.cache/openrdap"
}

// mixed answers bootstrap requests with a registry and others with a domain.
func mixed(t *transport, r *http.Request) (*http.Response, error) {
	if strings.HasSuffix(r.URL.Path, ".json") {
		return t.resp(200, []byte(`{"services":[[["com","192.0.2.0/24"],["https://one.example/"]]]}`), nil), nil
	}
	return okReply(t, r)
}

func writeFile(name, data string) string {
	p := sym.Dir() + "/" + name
	sym.Assert(os.WriteFile(p, []byte(data), 0o600) == nil, "write")
	return p
}

// C25_options: no combination of options leaves the sandbox.
func C25_options() {
	opt, args := sandboxed()
	cache := cacheHome()
	cert := writeFile("c.pem", pki.Pairs[0].CertPEM)
	key := writeFile("c.key", pki.Pairs[0].KeyPEM)
	both := writeFile("both.pem", pki.Pairs[0].CertPEM+pki.Pairs[0].KeyPEM)
	p12 := writeFile("c.p12", string(pki.Bytes(pki.Pairs[1].P12)))
	q := writeFile("args", "-v\n--cache-dir="+sym.Dir()+"/viafile\nexample.com\n")
	sym.Assert(os.Mkdir(sym.Dir()+"/old", 0o700) == nil, "mkdir")
	before := fsTree(sym.Dir())
	opened := len(sym.Opened())

	switch k := sym.Choice("cache-dir", 10); k {
	case 1:
		args = append(args, "--cache-dir="+sym.Dir()+"/new")
	case 2:
		args = append(args, "--cache-dir", sym.Dir()+"/old")
	case 3:
		args = append(args, "--cache-dir="+sym.Dir()+"/a/../b/"+textIn("dir", 1, "abc./"))
	case 4:
		args = append(args, "--cache-dir=")
	case 5:
		args = append(args, "--cache-dir=default")
	case 7: // like the default one
		args = append(args, "--cache-dir="+sym.Dir()+"/x/"+filepath.Base(cache))
	case 8:
		args = append(args, "--cache-dir="+cache+"/../../"+textIn("dir", 1, "abc"))
	case 9:
		args = append(args, "--cache-dir="+cache+textIn("dir", 1, "abc"))
	case 6:
		args = append(args, "--cache-dir=rel"+textIn("dir", 1, "abc"))
	}
	ck := sym.Choice("cert", 6)
	if ck >= 4 { // both in one file
		one := []string{both, shipped[0]}[ck-4]
		args = append(args, "--cert="+one, "--key="+one)
		ck = 3
	} else if ck == 3 {
		args = append(args, "-C", cert, "-K", key)
	} else if ck&1 != 0 {
		args = append(args, "--cert="+cert)
	}
	if ck == 2 {
		args = append(args, "-K", key)
	}
	wantP12 := sym.Choice("p12", 3)
	switch wantP12 {
	case 1:
		args = append(args, "--p12="+p12)
	case 2:
		args = append(args, "-P", shipped[0]+":rdap")
	}
	if sym.Choice("verbose", 2) == 1 {
		args = append(args, "-v")
	}
	switch sym.Choice("query", 3) {
	case 0:
		args = append(args, "example.com")
	case 1:
		args = append(args, "@"+q)
	case 2:
		args = append(args, "-s", "https://h", "-t", "domain", "x")
	}
	c := runCLI(opt, mixed, args...)
	confined(before, opened, cache)
	if _, err := os.Stat("relx"); err == nil {
		sym.Assert(false, "directory made in the working directory")
	}
	bad := wantP12 == 1 || ck == 1 || ck == 2 || (ck == 3 && wantP12 != 0)
	if bad {
		sym.Cover("rejected")
		c.refused("certificate options")
		return
	}
	for _, t := range c.trs {
		n := len(t.TLSClientConfig.Certificates)
		sym.Assert((n == 1) == (wantP12 == 2) && n <= 1, "wrong client certificate in sandbox mode")
	}
	sym.Observe("code", c.code)
}

// C25_p12: only the shipped certificates can be named.
func C25_p12() {
	opt, args := sandboxed()
	cache := cacheHome()
	inner := writeFile("x.p12", string(pki.Bytes(pki.Pairs[1].P12)))
	before := fsTree(sym.Dir())
	opened := len(sym.Opened())
	s := shipped[sym.Choice("file", 3)]
	name := ""
	switch sym.Choice("shape", 8) {
	case 0:
		name = s
	case 1: // one character replaced
		i := []int{0, len(s) / 2, len(s) - 4, len(s) - 1}[sym.Choice("at", 4)]
		name = s[:i] + text("c", 1) + s[i+1:]
	case 2: // one character added in front
		name = text("c", 1) + s
	case 3:
		name = s + text("c", 1)
	case 4:
		name = []string{"./", "../sandbox/", "/repo/sandbox/", "/repo/sandbox/../sandbox/", "..//sandbox//"}[sym.Choice("dir", 5)] + s
	case 5:
		name = text("c", sym.Param("L", 2))
	case 6:
		name = inner
	case 7:
		name = []string{"file.go", "../cli.go", "/etc/passwd", s[:len(s)-4], strings.ToLower(s), s + "/", s + "\x00", ""}[sym.Choice("other", 8)]
	}
	for i := 0; i < len(name); i++ {
		sym.Assume(name[i] != ':') // the rest is the password
	}
	pass := []string{"", ":", ":rdap", ":x:rdap"}[sym.Choice("pass", 4)]
	args = append(args, "-P"+name+pass, "-s", "https://h", "x.example")
	if name+pass == "" {
		return
	}
	c := runCLI(opt, okReply, args...)
	confined(before, opened, cache)
	if sym.Fork(name == s) && pass == ":rdap" {
		sym.Cover("shipped")
		sym.Assert(c.code == 0 && len(c.trs) == 1 && len(c.trs[0].TLSClientConfig.Certificates) == 1, "a shipped certificate is not used")
		return
	}
	sym.Cover("refused")
	c.refused("certificate file outside the sandbox, or wrong password")
}

// C25_api: the sandbox package itself.
func C25_api() {
	cache := cacheHome()
	before := fsTree(sym.Dir())
	opened := len(sym.Opened())
	s := shipped[sym.Choice("file", 3)]
	name := s
	switch sym.Choice("shape", 6) {
	case 1:
		i := sym.Choice("at", len(s))
		name = s[:i] + text("c", 1) + s[i+1:]
	case 2:
		i := sym.Choice("at", len(s)+1)
		name = s[:i] + text("c", 1) + s[i:]
	case 3:
		i := sym.Choice("at", len(s))
		name = s[:i] + s[i+1:]
	case 4:
		name = text("c", upTo("len", sym.Param("L", 3)))
	case 5:
		name = "../" + []string{"sandbox/" + s, "cli.go", "go.mod"}[sym.Choice("other", 3)]
	}
	want := false
	for _, x := range shipped {
		want = sym.Or(want, len(x) == len(name) && x == name)
	}
	want = sym.Fork(want)
	sym.Assert(sandbox.IsFileInSandbox(name) == want, "wrong answer about a sandbox file")
	data, err := sandbox.LoadFile(name)
	n := sym.Opened()[opened:]
	confined(before, opened, cache)
	sym.Assert((err == nil) == want, "a file outside the sandbox was loaded, or a shipped one was not")
	sym.Assert((len(data) > 0) == want, "contents of a file outside the sandbox")
	if want {
		sym.Cover("loaded")
		for _, o := range n {
			sym.Assert(filepath.Base(o) == name, "another file was loaded")
		}
	}
}

// C25_effect: outside sandbox mode the options take effect.
func C25_effect() {
	cache := cacheHome()
	key := writeFile("c.key", pki.Pairs[0].KeyPEM)
	cert := writeFile("c.pem", pki.Pairs[0].CertPEM)
	p12 := writeFile("c"+textIn("n", 1, "abx")+".p12", string(pki.Bytes(pki.Pairs[1].P12)))
	before := fsTree(sym.Dir())
	dir := cache
	var args []string
	switch sym.Choice("cache-dir", 5) {
	case 1:
		dir = sym.Dir() + "/d" + textIn("dir", 1, "abc")
		args = append(args, "--cache-dir="+dir)
	case 2:
		dir = sym.Dir() + "/new/er"
		args = append(args, "--cache-dir", dir)
	case 3:
		dir = ""
		args = append(args, "--cache-dir=")
	case 4:
		args = append(args, "--cache-dir=default")
	}
	n := 0
	switch sym.Choice("cert", 3) {
	case 1:
		args = append(args, "-C", cert, "-K", key)
		n = 1
	case 2:
		args = append(args, "-P", p12)
		n = 2
	}
	args = append(args, "example.com")
	c := runCLI(rdap.CLIOptions{}, mixed, args...)
	sym.Assert(c.code == 0 && len(c.w.reqs) == 2, "query not made")
	for _, t := range c.trs {
		if n == 0 {
			sym.Assert(len(t.TLSClientConfig.Certificates) == 0, "client certificate nobody gave")
		} else {
			sym.Assert(len(t.TLSClientConfig.Certificates) == 1 && string(t.TLSClientConfig.Certificates[0].Certificate[0]) == string(pki.Bytes(pki.Pairs[n-1].Cert)),
				"the client certificate given is not used")
		}
	}
	files := 0
	for _, p := range fsTree(sym.Dir()) {
		old := false
		for _, b := range before {
			old = old || b == p
		}
		if old {
			continue
		}
		sym.Assert(dir != "" && (within(p, dir) || within(dir, p)), "cache written elsewhere than asked")
		if strings.HasSuffix(p, ".json") {
			files++
		}
	}
	sym.Assert((files > 0) == (dir != ""), "the cache directory asked for is not used")
	if dir != "" {
		// a second run uses what was cached
		c = runCLI(rdap.CLIOptions{}, mixed, args...)
		sym.Assert(c.code == 0 && len(c.w.reqs) == 1, "the cached registry is not used")
	}
}

// tlsOf checks the transport of a request.
func tlsOf(t *http.Transport, insecure bool, cert []byte) {
	sym.Assert(t.DialTLS == nil && t.DialTLSContext == nil, "another TLS dialer")
	cfg := t.TLSClientConfig
	if cfg == nil {
		sym.Assert(!insecure && cert == nil, "TLS options ignored")
		return
	}
	sym.Assert(cfg.InsecureSkipVerify == insecure, "certificate verification is on or off against the options")
	sym.Assert(cfg.RootCAs == nil && cfg.ServerName == "" && cfg.Time == nil, "certificates are not verified against the system's authorities and the host's name")
	sym.Assert(cfg.GetClientCertificate == nil, "client certificate chosen elsewhere")
	if cert == nil {
		sym.Assert(len(cfg.Certificates) == 0, "client certificate nobody gave")
		return
	}
	sym.Assert(len(cfg.Certificates) == 1 && len(cfg.Certificates[0].Certificate) == 1, "not exactly one client certificate")
	sym.Assert(string(cfg.Certificates[0].Certificate[0]) == string(cert), "another client certificate")
	sym.Assert(cfg.Certificates[0].PrivateKey != nil, "client certificate without key")
}

// C26_verify: verification, for every kind of request and option around.
func C26_verify() {
	var args []string
	insecure := false
	switch sym.Choice("insecure", 4) {
	case 1:
		insecure = true
		args = append(args, "-k")
	case 2:
		insecure = true
		args = append(args, "--insecure")
	case 3:
		args = append(args, "--no-insecure")
	}
	args = append(args, [][]string{nil, {"-v"}, {"-e"}, {"-T", textIn("t", 1, "123456789")}, {"--json"}, {"--bs-url=https://bs.example/"}, {"--bs-url=http://bs.example/"}, {"--bs-ttl=0"}, {"--exp=sandbox"}}[sym.Choice("extra", 9)]...)
	args = append(args, [][]string{{"--cache-dir="}, nil}[sym.Choice("cache", 2)]...)
	n := 1
	switch sym.Choice("query", 7) {
	case 0:
		args = append(args, "e"+text("q", 1)+".com")
		n = 2
		want := autoRule(args[len(args)-1])
		if want.typ != rdap.DomainRequest || strings.IndexByte(want.text, '\\') >= 0 {
			return
		}
	case 1:
		args = append(args, "192.0.2.1")
		n = 2
	case 2:
		args = append(args, "-s", "https://h.example", "-t", "entity", "x"+text("q", 1))
	case 3:
		args = append(args, "https://h.example/domain/x")
	case 4:
		args = append(args, "-s", "http://h.example", "-t", "help")
	case 5:
		args = append(args, "-t", "domain", "-s", "https://192.0.2.1:8443/", "x")
	case 6:
		host := []string{"localhost", "127.0.0.1", "[::1]:443", "192.168.0.1", "rdap.local", "h.internal:443", "test.rdap.net", "data.iana.org", "h" + textIn("q", 1, "-.0aZ") + "x"}[sym.Choice("host", 9)]
		if sym.Choice("raw", 2) == 1 {
			args = append(args, "https://"+host+"/domain/x")
		} else {
			args = append(args, "-t", "ns", "-s", "https://"+host, "x")
		}
	}
	c := runCLI(rdap.CLIOptions{}, mixed, args...)
	sym.Assert(c.code == 0 && len(c.trs) == n, "query not made")
	for _, t := range c.trs {
		tlsOf(t, insecure, nil)
	}
}

// C26_cert: client certificates.
func C26_cert() {
	opt := rdap.CLIOptions{Sandbox: sym.Choice("sandbox", 2) == 1}
	var args []string
	insecure := sym.Choice("insecure", 2) == 1
	if insecure {
		args = append(args, "--insecure")
	}
	var want []byte
	ok, sbIgnored := true, false
	short := sym.Choice("short", 2) == 1
	flag := func(o, v string) {
		if short {
			args = append(args, map[string]string{"--cert": "-C", "--key": "-K", "--p12": "-P"}[o], v)
		} else {
			args = append(args, o+"="+v)
		}
	}
	kinds := []string{"a", "b", "garbage", "missing"}
	file := func(kind string, what int) string {
		p := sym.Dir() + "/" + kind + []string{".pem", ".key", ".p12"}[what]
		switch kind {
		case "a", "b":
			pr := pki.Pairs[int(kind[0]-'a')]
			os.WriteFile(p, []byte([]string{pr.CertPEM, pr.KeyPEM, string(pki.Bytes(pr.P12))}[what]), 0o600)
		case "garbage":
			os.WriteFile(p, []byte("garbage"), 0o600)
		}
		return p
	}
	switch sym.Choice("kind", 6) {
	case 0:
	case 1:
		a, b := kinds[sym.Choice("cert", 4)], kinds[sym.Choice("key", 4)]
		flag("--cert", file(a, 0))
		flag("--key", file(b, 1))
		ok = len(a) == 1 && a == b
		if ok {
			want = pki.Bytes(pki.Pairs[int(a[0]-'a')].Cert)
		}
		sbIgnored = true
	case 2:
		flag("--cert", file("a", 0))
		ok = false
	case 3:
		flag("--key", file("a", 1))
		ok = false
	case 4:
		a := kinds[sym.Choice("p12", 4)]
		pass := ""
		if sym.Choice("pass", 2) == 1 {
			pass = ":" + []string{"", "p", "p:", "p:w"}[sym.Choice("start", 4)] + text("pw", upTo("len", sym.Param("L", 2)))
		}
		flag("--p12", file(a, 2)+pass)
		pw := ""
		if pass != "" {
			pw = pass[1:]
		}
		ok = sym.Fork(len(a) == 1 && pw == pki.Pairs[int(a[0]-'a')&1].Password)
		if ok {
			want = pki.Bytes(pki.Pairs[int(a[0]-'a')].Cert)
		}
		if opt.Sandbox {
			ok = false
		}
	case 5:
		flag("--p12", file("b", 2))
		n := 1 + sym.Choice("with", 3)
		if n&1 != 0 {
			flag("--cert", file("a", 0))
		}
		if n&2 != 0 {
			flag("--key", file("a", 1))
		}
		ok = false
	}
	if opt.Sandbox && sbIgnored {
		ok, want = true, nil
	}
	n := 1
	if sym.Choice("boot", 2) == 1 {
		n = 2
		args = append(args, "--cache-dir=", "example.com")
	} else {
		args = append(args, "-s", "https://h.example", "-t", "domain", "x")
	}
	c := runCLI(opt, mixed, args...)
	if !ok {
		sym.Cover("refused")
		c.refused("certificate options")
		return
	}
	sym.Assert(c.code == 0 && len(c.trs) == n, "query not made")
	if want != nil {
		sym.Cover("certificate")
	}
	for _, t := range c.trs {
		tlsOf(t, insecure, want)
	}
}
