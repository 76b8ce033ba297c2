package h

import (
	"strconv"

	"github.com/openrdap/rdap/bootstrap"

	"verifharness/sym"
)

func init() {
	All["C02_ranges"] = Spec{F: C02_ranges}
	All["C02_text"] = Spec{F: C02_text}
	All["C02_edges"] = Spec{F: C02_edges}
	All["C02_big"] = Spec{F: C02_big}
	All["C04_long"] = Spec{F: C04_long}
	All["C04_lookup"] = Spec{F: C04_lookup}
}

// decimal draws n decimal digits and their value.
func decimal(name string, n int) (string, uint64) {
	b := make([]byte, n)
	v := uint64(0)
	for i := range b {
		b[i] = sym.Byte(name)
		sym.Assume(sym.And(b[i] >= '0', b[i] <= '9'))
		v = v*10 + uint64(b[i]-'0')
	}
	return string(b), v
}

func asnURL(i int) string { return "https://a" + strconv.Itoa(i) + ".example/" }

func asnCheck(ans *bootstrap.Answer, q uint64, lo, hi []uint64) {
	got := -1
	for i := range lo {
		if len(ans.URLs) > 0 && ans.URLs[0].String() == asnURL(i) {
			got = i
		}
	}
	if len(ans.URLs) > 0 {
		sym.Cover("match")
		sym.Assert(got >= 0, "URLs of no range")
		sym.Assert(sym.And(lo[got] <= q, q <= hi[got]), "answer is not the range containing the number")
		sym.Assert(len(ans.URLs) == 2 && ans.URLs[1].String() == "http://second.example/"+strconv.Itoa(got), "URL list altered")
		sym.Assert(ans.Entry != "", "entry missing")
	} else {
		sym.Cover("none")
		for i := range lo {
			sym.Assert(!sym.And(lo[i] <= q, q <= hi[i]), "a range contains the number but the answer is empty")
		}
		sym.Assert(ans.Entry == "", "entry without URLs")
	}
	sym.Observe("urls", urlStrs(ans.URLs))
}

func asnDoc(ents []string, extra string) []byte {
	svcs := sym.Arr()
	if extra != "" {
		svcs.A = append(svcs.A, sym.Arr(sym.Strs(extra), sym.Strs("https://malformed.example/")))
	}
	for i, e := range ents {
		svcs.A = append(svcs.A, sym.Arr(sym.Strs(e), sym.Strs(asnURL(i), "http://second.example/"+strconv.Itoa(i))))
	}
	return sym.JSON(sym.Obj().Set("services", svcs))
}

var badRanges = []string{"", "x", "1-2-3", "5-", "-5", "99999999999", "0-4294967296"}

// C02_ranges: NE arbitrary non-overlapping ranges, arbitrary number.
func C02_ranges() {
	ne, nd := sym.Param("NE", 2), sym.Param("ND", 2)
	var ents []string
	var lo, hi []uint64
	for i := 0; i < ne; i++ {
		a, av := decimal("min", nd)
		l, h := av, av
		if sym.Choice("form", 2) == 1 {
			b, bv := decimal("max", nd)
			a += "-" + b
			if sym.Fork(bv < av) {
				l = bv
			} else {
				h = bv
			}
		}
		for j := range ents {
			sym.Assume(sym.Or(h < lo[j], hi[j] < l))
		}
		ents = append(ents, a)
		lo, hi = append(lo, l), append(hi, h)
	}
	extra := ""
	if k := sym.Choice("bad", sym.Param("NB", 2)); k > 0 {
		extra = badRanges[k]
	}
	reg, err := bootstrap.NewASNRegistry(asnDoc(ents, extra))
	sym.Assert(err == nil, "registry rejected")
	q, qv := decimal("q", nd)
	switch sym.Choice("prefix", 3) {
	case 1:
		q = "AS" + q
	case 2:
		q = "as" + "0" + q
	}
	ans, err := reg.Lookup(&bootstrap.Question{RegistryType: bootstrap.ASN, Query: q})
	sym.Assert(err == nil && ans != nil, "lookup failed")
	asnCheck(ans, qv, lo, hi)
}

// C02_text: arbitrary query text.
func C02_text() {
	ents := []string{"0-9", "4294967295-4294967290", "77", "100-4294967289", "76-70"}
	lo, hi := []uint64{0, 4294967290, 77, 100, 70}, []uint64{9, 4294967295, 77, 4294967289, 76}
	k := sym.Choice("bad", len(badRanges))
	reg, err := bootstrap.NewASNRegistry(asnDoc(ents, badRanges[k]))
	sym.Assert(err == nil, "registry rejected")
	var q string
	switch sym.Choice("shape", 3) {
	case 0:
		q = text("q", upTo("qlen", sym.Param("LQ", 4)))
	case 1:
		q = "as" + text("q", upTo("qlen", 2)) + "4294967" + text("q", upTo("qtail", 3))
	case 2:
		q = "00000000000000" + text("q", upTo("qlen", 2))
	}
	ans, err := reg.Lookup(&bootstrap.Question{RegistryType: bootstrap.ASN, Query: q})
	v, ok := refASN(q)
	if !ok {
		sym.Cover("invalid")
		sym.Assert(err != nil, "text that is not an AS number is answered")
		return
	}
	sym.Assert(err == nil && ans != nil, "AS number rejected")
	asnCheck(ans, v, lo, hi)
}

// refASN reads an AS number: optional AS prefix in any case, decimal, 32 bits.
func refASN(s string) (uint64, bool) {
	if len(s) >= 2 && (s[0] == 'a' || s[0] == 'A') && (s[1] == 's' || s[1] == 'S') {
		s = s[2:]
	}
	if len(s) == 0 {
		return 0, false
	}
	v := uint64(0)
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		v = v*10 + uint64(s[i]-'0')
		if v > 4294967295 {
			return 0, false
		}
	}
	return v, true
}

// C02_big: a large registry, arbitrary number.
func C02_big() {
	var ents []string
	var lo, hi []uint64
	n := sym.Param("N", 30)
	for i := 0; i < n; i++ {
		a := uint64((i*7)%n)*30 + 5
		b := a + uint64(i%3)*12
		t := strconv.FormatUint(a, 10)
		if b != a {
			t += "-" + strconv.FormatUint(b, 10)
		}
		ents = append(ents, t)
		lo, hi = append(lo, a), append(hi, b)
	}
	reg, err := bootstrap.NewASNRegistry(asnDoc(ents, ""))
	sym.Assert(err == nil, "registry rejected")
	q, qv := decimal("q", 3)
	ans, err := reg.Lookup(&bootstrap.Question{RegistryType: bootstrap.ASN, Query: q})
	sym.Assert(err == nil && ans != nil, "lookup failed")
	asnCheck(ans, qv, lo, hi)
}

// C04_lookup: arbitrary object tag registry, arbitrary handle.
func C04_lookup() {
	ne, le, lq := sym.Param("NE", 2), sym.Param("LE", 2), sym.Param("LQ", 4)
	var ents []string
	svcs := sym.Arr()
	for i := 0; i < ne; i++ {
		e := text("tag", upTo("tlen", le))
		for j := range ents {
			sym.Assume(ents[j] != e)
		}
		ents = append(ents, e)
		svcs.A = append(svcs.A, sym.Arr(sym.Strs("someone@example.com"), sym.Strs(e), sym.Strs(netURL(i), "http://second.example/")))
	}
	c04check(ents, svcs, text("q", upTo("qlen", lq)))
}

func c04check(ents []string, svcs *sym.Node, q string) {
	reg, err := bootstrap.NewServiceProviderRegistry(sym.JSON(sym.Obj().Set("services", svcs)))
	sym.Assert(err == nil, "registry rejected")
	ans, err := reg.Lookup(&bootstrap.Question{RegistryType: bootstrap.ServiceProvider, Query: q})
	sym.Assert(err == nil && ans != nil, "lookup failed")
	last := -1
	for i := 0; i < len(q); i++ {
		if q[i] == '-' {
			last = i
		}
	}
	want := -1
	if last >= 0 && last < len(q)-1 {
		for i, e := range ents {
			if e == q[last+1:] {
				want = i
			}
		}
	}
	if want < 0 {
		sym.Cover("none")
		sym.Assert(len(ans.URLs) == 0 && ans.Entry == "", "answer although the tag is not registered")
	} else {
		sym.Cover("match")
		sym.Assert(sameStrs(urlStrs(ans.URLs), []string{netURL(want), "http://second.example/"}), "URLs are not those of the tag")
		sym.Assert(ans.Entry == ents[want], "entry is not the tag")
	}
	sym.Observe("entry", ans.Entry)
	sym.Observe("urls", urlStrs(ans.URLs))
}

// edgeNum draws a number around 0, 2^16, 2^31 or 2^32.
func edgeNum(name string, n int) (string, uint64) {
	pre := []string{"", "429496729", "214748364", "6553"}[sym.Choice(name+"at", n)]
	d := sym.Byte(name)
	sym.Assume(sym.And(d >= '0', d <= '9'))
	v := uint64(0)
	for i := 0; i < len(pre); i++ {
		v = v*10 + uint64(pre[i]-'0')
	}
	v = v*10 + uint64(d-'0')
	sym.Assume(v <= 4294967295)
	return pre + string([]byte{d}), v
}

// C02_edges: ranges whose ends, and numbers that, lie around the powers of two.
func C02_edges() {
	n := sym.Param("NX", 3)
	var ents []string
	var lo, hi []uint64
	for i := upTo("ne", sym.Param("NE", 2)); i > 0; i-- {
		a, l := edgeNum("min", n)
		b, h := edgeNum("max", n)
		sym.Assume(l <= h)
		for j := range ents {
			sym.Assume(sym.Or(h < lo[j], hi[j] < l))
		}
		ents = append(ents, a+"-"+b)
		lo, hi = append(lo, l), append(hi, h)
	}
	reg, err := bootstrap.NewASNRegistry(asnDoc(ents, ""))
	sym.Assert(err == nil, "registry rejected")
	q, qv := edgeNum("q", n)
	ans, err := reg.Lookup(&bootstrap.Question{RegistryType: bootstrap.ASN, Query: q})
	sym.Assert(err == nil && ans != nil, "lookup failed")
	asnCheck(ans, qv, lo, hi)
}

// C04_long: long handles with many hyphens, long tags, a registry of many tags.
func C04_long() {
	long := "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"
	var ents []string
	svcs := sym.Arr()
	add := func(e string) {
		svcs.A = append(svcs.A, sym.Arr(sym.Strs("someone@example.com"), sym.Strs(e), sym.Strs(netURL(len(ents)), "http://second.example/")))
		ents = append(ents, e)
	}
	n := []int{1, 4, 5, 8, 12, 16, 17, 32, 60}[sym.Choice("taglen", 9)]
	tag := long[:n]
	add(tag)
	add("RIPE")
	add("ripe")
	add("AP")
	add("APNIC")
	for i := 0; i < sym.Param("N", 8); i++ {
		add("T" + strconv.Itoa(i) + "X")
	}
	h := []string{"", "H", "A-B", "-", "a.b", "X--Y", long + "-" + long + "-RIPE", "RIPE-AP-T1X", "0-1-2-3-4-5-6-7-8-9"}[sym.Choice("handle", 9)]
	t := tag
	switch sym.Choice("tail", 6) {
	case 0:
	case 1:
		t = "RIPE"
	case 2:
		t = "ripe"
	case 3:
		t = "T5X"
	case 4:
		t = "APNIC"
	case 5:
		t = "RIPE-"
	}
	b := []byte(h + "-" + t)
	if k := sym.Choice("any", 3); k > 0 && len(b) > k {
		// one arbitrary character around the hyphen or in the tag
		at := len(h) + 1
		if k == 2 {
			at = len(b) - 1
		}
		b[at] = text("c", 1)[0]
	}
	c04check(ents, svcs, string(b))
}
