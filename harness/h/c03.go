package h

import (
	"strconv"
	"strings"

	"github.com/openrdap/rdap/bootstrap"

	"verifharness/sym"
)

func init() {
	All["C03_lookup"] = Spec{F: C03_lookup}
	All["C03_long"] = Spec{F: C03_long}
}

// C03_lookup: arbitrary registry of NE entries, arbitrary query.
func C03_lookup() {
	ne, le, lq := sym.Param("NE", 2), sym.Param("LE", 3), sym.Param("LQ", 4)
	var ents []string
	for i := 0; i < ne; i++ {
		e := text("ent", upTo("elen", le))
		for j := 0; j < len(e); j++ {
			sym.Assume(sym.Or(e[j] < 'A', e[j] > 'Z'))
		}
		for j := range ents {
			sym.Assume(ents[j] != e)
		}
		ents = append(ents, e)
	}
	urls := [][]string{{"https://a.example/x/", "https://a2.example/"}, {"https://b.example/"}}
	// entry 0 is in its own service, the others share one
	doc := sym.Obj().Set("description", sym.Str("d")).Set("services", sym.Arr(
		sym.Arr(sym.Strs(ents[0]), sym.Strs(urls[0]...)),
		sym.Arr(sym.Strs(ents[1:]...), sym.Strs(urls[1]...)),
	))
	reg, err := bootstrap.NewDNSRegistry(sym.JSON(doc))
	sym.Assert(err == nil, "registry rejected")
	q := text("q", upTo("qlen", lq))
	dnsCheck(reg, q, ents, func(i int) []string {
		if i == 0 {
			return urls[0]
		}
		return urls[1]
	})
}

// dnsCheck looks up q and compares with the longest whole-label suffix.
func dnsCheck(reg *bootstrap.DNSRegistry, q string, ents []string, urls func(int) []string) {
	ans, err := reg.Lookup(&bootstrap.Question{RegistryType: bootstrap.DNS, Query: q})
	sym.Assert(err == nil && ans != nil, "lookup failed")

	// reference: longest whole-label suffix
	n := q
	if len(n) > 0 && n[len(n)-1] == '.' {
		n = n[:len(n)-1]
	}
	n = lowerASCII(n)
	best := -1
	for k := 0; k <= len(n) && best < 0; k++ {
		if k > 0 && k < len(n) && n[k-1] != '.' {
			continue
		}
		for i, e := range ents {
			if n[k:] == e {
				best = i
				break
			}
		}
	}
	if best < 0 {
		sym.Cover("none")
		sym.Assert(len(ans.URLs) == 0, "URLs although no entry matches")
		sym.Assert(ans.Entry == "", "entry although no entry matches")
	} else {
		sym.Cover("match")
		sym.Assert(sameStrs(urlStrs(ans.URLs), urls(best)), "URLs are not those of the longest matching entry")
		sym.Assert(ans.Entry == ents[best], "entry is not the longest match")
	}
	sym.Observe("entry", ans.Entry)
	sym.Observe("urls", urlStrs(ans.URLs))
}

// C03_long: long names below entries of one to five labels in a large registry.
func C03_long() {
	ents := []string{"com", "example.com", "b.example.com", "uk", "co.uk", "x.a.b.c.d.net", "xn--p1ai"}
	if sym.Choice("root", 2) == 1 {
		ents = append(ents, "")
	}
	for i := 0; i < sym.Param("N", 12); i++ {
		ents = append(ents, "tld"+strconv.Itoa(i))
	}
	svcs := sym.Arr()
	url := func(i int) []string {
		return []string{"https://s" + strconv.Itoa(i) + ".example/", "http://s" + strconv.Itoa(i) + ".example/"}
	}
	for i, e := range ents {
		svcs.A = append(svcs.A, sym.Arr(sym.Strs(e), sym.Strs(url(i)...)))
	}
	reg, err := bootstrap.NewDNSRegistry(sym.JSON(sym.Obj().Set("services", svcs)))
	sym.Assert(err == nil, "registry rejected")
	label := strings.Repeat("LongLabel", 7)
	pre := []string{"", "www.", label + ".", strings.Repeat("a.", 40), label + "." + label + "." + label + ".", label + label}[sym.Choice("pre", 6)]
	suf := []string{"Example.COM", "B.Example.com", "co.UK", "a.b.c.d.net", "tld7", "XN--p1ai", "nomatch"}[sym.Choice("suf", 7)]
	// arbitrary characters in front of the suffix and at the end
	q := pre + text("mid", 1) + suf + text("end", upTo("endlen", 1))
	dnsCheck(reg, q, ents, url)
}
