package h

import (
	"errors"
	"net/http"
	"net/url"
	"strconv"
	"time"

	"github.com/openrdap/rdap/bootstrap"
	"github.com/openrdap/rdap/bootstrap/cache"

	"verifharness/sym"
)

func init() {
	All["C28_pair"] = Spec{F: C28_pair}
	All["C28_near"] = Spec{F: C28_near}
	All["C28_many"] = Spec{F: C28_many}
}

// sharedCache is one process's view of a directory shared with others.
type sharedCache struct {
	names *[]string
	datas *[][]byte
	seen  []bool
	used  []string
}

func (s *sharedCache) find(n string) int {
	for i, x := range *s.names {
		if x == n {
			return i
		}
	}
	return -1
}

func (s *sharedCache) note(n string) {
	for _, x := range s.used {
		if x == n {
			return
		}
	}
	s.used = append(s.used, n)
}

func (s *sharedCache) Load(n string) ([]byte, error) {
	s.note(n)
	i := s.find(n)
	if i < 0 {
		return nil, errors.New("no such file")
	}
	for len(s.seen) <= i {
		s.seen = append(s.seen, false)
	}
	s.seen[i] = true
	return (*s.datas)[i], nil
}

func (s *sharedCache) Save(n string, b []byte) error {
	s.note(n)
	i := s.find(n)
	if i < 0 {
		*s.names = append(*s.names, n)
		*s.datas = append(*s.datas, nil)
		i = len(*s.names) - 1
	}
	(*s.datas)[i] = append([]byte(nil), b...)
	for len(s.seen) <= i {
		s.seen = append(s.seen, false)
	}
	s.seen[i] = true
	return nil
}

func (s *sharedCache) State(n string) cache.FileState {
	s.note(n)
	i := s.find(n)
	switch {
	case i < 0:
		return cache.Absent
	case i < len(s.seen) && s.seen[i]:
		return cache.Good
	}
	return cache.ShouldReload
}

func (s *sharedCache) SetTimeout(time.Duration) {}

var regFiles = []string{"dns.json", "ipv4.json", "ipv6.json", "asn.json", "object-tags.json"}
var regQueries = []string{"example.com", "192.0.2.0", "2001:db8::", "AS5", "x-TAG"}

// anyReg is a registry file every kind of registry accepts.
func anyReg(v int) []byte {
	return sym.JSON(sym.Obj().Set("services", sym.Arr(sym.Arr(sym.Strs("com", "0.0.0.0/0", "0-4294967295", "::/0", "TAG"), sym.Strs("https://v"+strconv.Itoa(v)+".example/")))))
}

func plainName(n string) {
	sym.Assert(n != "" && n != "." && n != "..", "cache file name is not a plain name")
	for i := 0; i < len(n); i++ {
		sym.Assert(sym.And(n[i] != '/', n[i] != '\\', n[i] != 0), "cache file name is not a plain name")
	}
}

func baseURL(name string, parts int) string {
	if parts == 4 {
		return bootstrap.DefaultBaseURL
	}
	s := []string{"http", "https"}[sym.Choice(name+"scheme", 2)] + "://"
	if parts == 1 {
		s += textIn(name+"user", 1, "uvw") + ":" + textIn(name+"pw", 1, "xy") + "@"
	}
	s += "h" + textIn(name+"host", 1, "abz-") + ".example"
	if parts == 2 {
		s += ":" + textIn(name+"port", 2, "0123456789")
	}
	s += "/" + textIn(name+"path", upTo(name+"plen", sym.Param("PL", 2)), "abAB._-/")
	if parts == 3 {
		s += "?" + textIn(name+"query", 1, "qr=&")
	}
	return s
}

// C28_pair: two clients with arbitrary base URLs on one shared cache.
func C28_pair() {
	var names []string
	var datas [][]byte
	var used [2][]string
	var bases [2]string
	var rts [2]int
	shape := sym.Choice("shape", 5)
	for i := 0; i < 2; i++ {
		if i == 1 {
			shape = []int{shape, 0, 4}[sym.Choice("shape2", 3)]
		}
		bases[i] = baseURL("b"+strconv.Itoa(i), shape)
		u, err := url.Parse(bases[i])
		sym.Assume(err == nil)
		rts[i] = sym.Choice("type", sym.Param("NT", 5))
		tr := &transport{}
		tr.reply = func(t *transport, r *http.Request) (*http.Response, error) {
			return t.resp(200, anyReg(i), nil), nil
		}
		sc := &sharedCache{names: &names, datas: &datas}
		c := &bootstrap.Client{HTTP: &http.Client{Transport: tr}, BaseURL: u, Cache: sc}
		ans, err := c.Lookup(&bootstrap.Question{RegistryType: bootstrap.RegistryType(rts[i]), Query: regQueries[rts[i]]})
		sym.Assert(err == nil && ans != nil, "lookup failed")
		used[i] = sc.used
		for _, n := range sc.used {
			plainName(n)
		}
		sym.Assert(len(sc.used) >= 1, "cache not used")
		if bases[i] == bootstrap.DefaultBaseURL {
			sym.Assert(len(sc.used) == 1 && sc.used[0] == regFiles[rts[i]], "default service not cached under the published name")
		} else {
			for _, n := range sc.used {
				for _, f := range regFiles {
					sym.Assert(n != f, "custom service cached under a published name")
				}
			}
		}
		if i == 1 {
			same := sym.Fork(bases[0] == bases[1]) && rts[0] == rts[1]
			if same {
				sym.Cover("same")
				sym.Assert(verOf(ans) == 0 && len(tr.reqs) == 0, "the shared file of the same service is not used")
			} else {
				sym.Cover("different")
				sym.Assert(verOf(ans) == 1, "answer from a file cached for another service or kind")
				for _, a := range used[0] {
					for _, b := range used[1] {
						sym.Assert(a != b, "two services share a cache file name")
					}
				}
			}
		}
	}
}

// C28_near: base URLs close to the default one.
func C28_near() {
	def := bootstrap.DefaultBaseURL
	var base string
	switch sym.Choice("form", 6) {
	case 0: // one character changed
		b := []byte(def)
		b[sym.Choice("pos", len(def))] = textIn("c", 1, "abdHhpsx1./:-")[0]
		base = string(b)
	case 1: // characters added at the end
		base = def + textIn("c", 1+upTo("cl", 1), "ab/.?#=A")
	case 2: // one removed
		k := sym.Choice("pos", len(def)-1)
		base = def[:k] + def[k+1:]
	case 3:
		base = []string{"http://data.iana.org/rdap/", "https://data.iana.org:443/rdap/", "https://data.iana.org:8443/rdap/", "https://u@data.iana.org/rdap/", "https://data.iana.org/", "https://data.iana.org",
			"https://data.iana.org/rdap/test/", "https://data.iana.org/rdap//", "https://data.iana.org.example/rdap/", "https://example/data.iana.org/rdap/", "https://rdap.data.iana.org/rdap/",
			"https://data.iana.org/RDAP/", "https://data.iana.org/rdap/?v=2", "https://test.rdap.net/rdap/"}[sym.Choice("alt", 14)]
	case 4:
		base = "https://data.iana.org" + "/" + textIn("c", upTo("cl", 2), "rdap/.") + "/"
	case 5:
		base = def
	}
	u, err := url.Parse(base)
	sym.Assume(err == nil && u.Host != "" && u.Scheme != "")
	kind := sym.Choice("kind", 5)
	var names []string
	var datas [][]byte
	custom := !sym.Fork(u.String() == def)
	for i := 0; i < 2; i++ {
		b := u
		if i == 1 {
			b, _ = url.Parse(def)
		}
		tr := &transport{}
		tr.reply = func(t *transport, r *http.Request) (*http.Response, error) {
			return t.resp(200, anyReg(i), nil), nil
		}
		sc := &sharedCache{names: &names, datas: &datas}
		c := &bootstrap.Client{HTTP: &http.Client{Transport: tr}, BaseURL: b, Cache: sc}
		ans, err := c.Lookup(&bootstrap.Question{RegistryType: bootstrap.RegistryType(kind), Query: regQueries[kind]})
		sym.Assert(err == nil && ans != nil, "lookup failed")
		for _, n := range sc.used {
			plainName(n)
			if i == 0 && custom {
				for _, f := range regFiles {
					sym.Assert(n != f, "custom service cached under a published name")
				}
			} else {
				sym.Assert(n == regFiles[kind], "default service not cached under the published name")
			}
		}
		if i == 1 {
			sym.Assert(verOf(ans) == b2i(custom), "answer from a file cached for another service")
		}
	}
	if custom {
		sym.Cover("custom")
	}
}

// C28_many: many services, every kind for some of them; all names distinct.
func C28_many() {
	n := sym.Param("N", 2300)
	all := map[string]bool{}
	for i := 0; i < n; i++ {
		var names []string
		var datas [][]byte
		u, _ := url.Parse("https://b" + strconv.Itoa(i) + ".example/rdap/")
		sc := &sharedCache{names: &names, datas: &datas}
		c := &bootstrap.Client{BaseURL: u, Cache: sc}
		c.DNS()
		if i%100 == 0 {
			c.IPv4()
			c.IPv6()
			c.ASN()
			c.ServiceProvider()
			sym.Assert(len(sc.used) == 5, "kinds of registry share a cache file name")
		}
		for _, f := range sc.used {
			sym.Assert(!all[f], "two services share a cache file name")
			all[f] = true
		}
	}
}
