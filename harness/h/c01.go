package h

import (
	"net"
	"strconv"
	"strings"

	"github.com/openrdap/rdap/bootstrap"

	"verifharness/sym"
)

func init() {
	All["C01_v4"] = Spec{F: C01_v4}
	All["C01_v6"] = Spec{F: C01_v6}
	All["C01_text"] = Spec{F: C01_text}
	All["C01_big"] = Spec{F: C01_big}
	All["C01_len"] = Spec{F: C01_len}
}

func netURL(i int) string { return "https://n" + strconv.Itoa(i) + ".example/r/" }

// netDoc builds a registry file; order permutes the services.
func netDoc(ents []string, rev bool) []byte {
	svcs := sym.Arr()
	for k := range ents {
		i := k
		if rev {
			i = len(ents) - 1 - k
		}
		svcs.A = append(svcs.A, sym.Arr(sym.Strs(ents[i]), sym.Strs(netURL(i), "http://second.example/"+strconv.Itoa(i))))
	}
	return sym.JSON(sym.Obj().Set("services", svcs))
}

// netCheck checks the answer against the reference: contains[i], plen[i].
func netCheck(ans *bootstrap.Answer, contains []bool, plen []int) {
	got := -1
	for i := range contains {
		if len(ans.URLs) > 0 && ans.URLs[0].String() == netURL(i) {
			got = i
		}
	}
	if len(ans.URLs) > 0 {
		sym.Assert(got >= 0, "URLs of no entry")
		sym.Cover("match")
		sym.Assert(contains[got], "answer does not contain the query")
		sym.Assert(len(ans.URLs) == 2 && ans.URLs[1].String() == "http://second.example/"+strconv.Itoa(got), "URL list altered")
		for i := range contains {
			sym.Assert(sym.Or(!contains[i], plen[i] <= plen[got]), "a longer prefix contains the query")
		}
		sym.Assert(ans.Entry != "", "entry missing")
	} else {
		sym.Cover("none")
		for i := range contains {
			sym.Assert(!contains[i], "an entry contains the query but the answer is empty")
		}
		sym.Assert(ans.Entry == "", "entry without URLs")
	}
	sym.Observe("entry", ans.Entry)
	sym.Observe("urls", urlStrs(ans.URLs))
}

// octet draws an octet as text with n digits, and its value.
func octet(name string, n int) (string, uint32) {
	b := make([]byte, n)
	v := uint32(0)
	for i := range b {
		b[i] = sym.Byte(name)
		sym.Assume(sym.And(b[i] >= '0', b[i] <= '9'))
		v = v*10 + uint32(b[i]-'0')
	}
	if n > 1 {
		sym.Assume(b[0] != '0')
	}
	if n > 2 {
		sym.Assume(v < 256)
	}
	return string(b), v
}

var v4Lens = []int{8, 16, 31, 32, 0, 9, 24, 30}

func mask32(n int) uint32 {
	if n == 0 {
		return 0
	}
	return ^uint32(0) << (32 - n)
}

// C01_v4: NE arbitrary networks, arbitrary address or CIDR query.
func C01_v4() {
	ne, nl, od := sym.Param("NE", 2), sym.Param("NL", 4), sym.Param("OD", 1)
	mid := sym.Param("MID", 1) // symbolic middle octets
	addr := func(name string) (string, uint32) {
		a, av := octet(name, od)
		bt, bv, ct, cv := "0", uint32(0), "0", uint32(0)
		if mid > 0 {
			bt, bv = octet(name, 1)
		}
		if mid > 1 {
			ct, cv = octet(name, 1)
		}
		d, dv := octet(name, 1)
		return a + "." + bt + "." + ct + "." + d, av<<24 | bv<<16 | cv<<8 | dv
	}
	var ents []string
	var nets []uint32
	var lens []int
	for i := 0; i < ne; i++ {
		t, v := addr("net")
		l := v4Lens[sym.Choice("len", nl)]
		for j := range ents {
			sym.Assume(lens[j] != l || (nets[j]^v)&mask32(l) != 0)
		}
		ents = append(ents, t+"/"+strconv.Itoa(l))
		nets = append(nets, v)
		lens = append(lens, l)
	}
	reg, err := bootstrap.NewNetRegistry(netDoc(ents, sym.Choice("rev", 2) == 1), 4)
	sym.Assert(err == nil, "registry rejected")
	q, qv := addr("q")
	ql := 32
	if k := sym.Choice("qlen", nl+1); k > 0 {
		ql = v4Lens[k-1]
		q += "/" + strconv.Itoa(ql)
	}
	ans, err := reg.Lookup(&bootstrap.Question{RegistryType: bootstrap.IPv4, Query: q})
	sym.Assert(err == nil && ans != nil, "lookup failed")
	contains := make([]bool, ne)
	for i := range ents {
		contains[i] = sym.And(ql >= lens[i], (nets[i]^qv)&mask32(lens[i]) == 0)
	}
	netCheck(ans, contains, lens)
}

var v6Lens = []int{12, 32, 128, 0, 16, 64, 3, 29}

func hexd(name string) (string, uint64) {
	b := sym.Byte(name)
	sym.Assume(sym.And(b >= '0', b <= '9'))
	return string([]byte{b}), uint64(b - '0')
}

// C01_v6: networks 2XX0:1::X/len.
func C01_v6() {
	ne, nl := sym.Param("NE", 2), sym.Param("NL", 4)
	// the symbolic nibbles: bits 4-7, 8-11, 124-127 of the address
	addr := func(name string) (string, uint64, uint64) {
		a, av := hexd(name)
		b, bv := hexd(name)
		e, ev := hexd(name)
		hi := 0x2<<60 | av<<56 | bv<<52
		return "2" + a + b + "0:1::" + e, hi | 1<<32, ev
	}
	m64 := func(n int) uint64 {
		if n <= 0 {
			return 0
		}
		if n >= 64 {
			return ^uint64(0)
		}
		return ^uint64(0) << (64 - n)
	}
	var ents []string
	var hi, lo []uint64
	var lens []int
	for i := 0; i < ne; i++ {
		t, h, l := addr("net")
		n := v6Lens[sym.Choice("len", nl)]
		for j := range ents {
			sym.Assume(lens[j] != n || (hi[j]^h)&m64(n) != 0 || (lo[j]^l)&m64(n-64) != 0)
		}
		ents = append(ents, t+"/"+strconv.Itoa(n))
		hi, lo, lens = append(hi, h), append(lo, l), append(lens, n)
	}
	reg, err := bootstrap.NewNetRegistry(netDoc(ents, false), 6)
	sym.Assert(err == nil, "registry rejected")
	q, qh, qlo := addr("q")
	ql := 128
	if k := sym.Choice("qlen", nl+1); k > 0 {
		ql = v6Lens[k-1]
		q += "/" + strconv.Itoa(ql)
	}
	ans, err := reg.Lookup(&bootstrap.Question{RegistryType: bootstrap.IPv6, Query: q})
	sym.Assert(err == nil && ans != nil, "lookup failed")
	contains := make([]bool, ne)
	for i := range ents {
		contains[i] = sym.And(ql >= lens[i], (hi[i]^qh)&m64(lens[i]) == 0, (lo[i]^qlo)&m64(lens[i]-64) == 0)
	}
	netCheck(ans, contains, lens)
}

// C01_text: arbitrary short query text; only text that is an address or CIDR
// range of the family is answered.
func C01_text() {
	v := 4
	if sym.Choice("family", 2) == 1 {
		v = 6
	}
	all, other := "0.0.0.0/0", "102::/16"
	if v == 6 {
		all, other = "::/0", "1.2.0.0/16"
	}
	reg, err := bootstrap.NewNetRegistry(netDoc([]string{all, "bad", "1.2.3.4/33", "::/129", "1.2.3.4", other}, false), v)
	sym.Assert(err == nil, "registry rejected")
	q := text("q", upTo("qlen", sym.Param("LQ", 4)))
	switch sym.Choice("shape", 5) {
	case 1:
		q = "1.2.3." + q
	case 2:
		q = "2001:db8::" + q
	case 3:
		q = "1.2.3.4/" + q
	case 4:
		q = "::ffff:1.2.3." + q
	}
	ans, err := reg.Lookup(&bootstrap.Question{Query: q})
	fam := refNet(q)
	if fam == v {
		sym.Cover("valid")
		sym.Assert(err == nil && ans != nil, "valid query rejected")
		sym.Assert(len(ans.URLs) == 2 && ans.URLs[0].String() == netURL(0), "query not answered by the all-covering entry")
	} else {
		sym.Cover("invalid")
		sym.Assert(err != nil, "text that is not a network of the family is answered")
	}
	sym.Observe("err", err != nil)
}

// refNet classifies text: 4 or 6 for an address or CIDR range as Go's net
// package reads it, else 0.
func refNet(s string) int {
	if strings.IndexByte(s, '/') < 0 {
		if strings.IndexByte(s, '%') >= 0 || net.ParseIP(s) == nil {
			return 0
		}
		if strings.IndexByte(s, ':') >= 0 {
			return 6
		}
		return 4
	}
	_, n, err := net.ParseCIDR(s)
	if err != nil {
		return 0
	}
	if len(n.IP) == 16 {
		return 6
	}
	return 4
}

// C01_big: a large registry with nested networks, arbitrary query address.
func C01_big() {
	var ents []string
	var nets []uint32
	var lens []int
	add := func(a, b, c, d, l int) {
		ents = append(ents, strconv.Itoa(a)+"."+strconv.Itoa(b)+"."+strconv.Itoa(c)+"."+strconv.Itoa(d)+"/"+strconv.Itoa(l))
		nets = append(nets, uint32(a)<<24|uint32(b)<<16|uint32(c)<<8|uint32(d))
		lens = append(lens, l)
	}
	n := sym.Param("N", 24)
	for i := 0; i < n; i++ {
		add((i*5+1)%120, 0, 0, 0, 8)
	}
	add(6, 4, 0, 0, 14)
	add(6, 5, 0, 0, 16)
	add(6, 5, 3, 0, 24)
	add(200, 1, 0, 0, 16)
	add(128, 0, 0, 0, 2)
	reg, err := bootstrap.NewNetRegistry(netDoc(ents, false), 4)
	sym.Assert(err == nil, "registry rejected")
	a, av := octet("q", upTo("od", 2)+1)
	b, bv := octet("q", 1)
	c, cv := octet("q", 1)
	q := a + "." + b + "." + c + ".7"
	ql := 32
	if sym.Choice("cidr", 2) == 1 {
		ql = 15
		q += "/15"
	}
	qv := av<<24 | bv<<16 | cv<<8 | 7
	ans, err := reg.Lookup(&bootstrap.Question{Query: q})
	sym.Assert(err == nil && ans != nil, "lookup failed")
	contains := make([]bool, len(ents))
	for i := range ents {
		contains[i] = sym.And(ql >= lens[i], (nets[i]^qv)&mask32(lens[i]) == 0)
	}
	netCheck(ans, contains, lens)
}

// C01_len: every prefix length against its neighbours.
func C01_len() {
	fam := sym.Choice("family", 2)
	max := []int{32, 128}[fam]
	l := sym.Choice("len", max+1)
	l2 := []int{l + 1, l - 1}[sym.Choice("len2", 2)]
	sym.Assume(l2 >= 0 && l2 <= max)
	ql := []int{l - 1, l, l + 1, l2 + 1, -1}[sym.Choice("qlen", 5)]
	sym.Assume(ql == -1 || ql >= 0 && ql <= max)
	// two addresses that differ in the bit after the shorter prefix, or not
	bit := l
	if l2 < l {
		bit = l2
	}
	base := make([]byte, max/8)
	base[0], base[max/8-1] = 0x20, 0x01
	mk := func(flip bool) []byte {
		b := append([]byte(nil), base...)
		if flip && bit < max {
			b[bit/8] ^= 0x80 >> (bit % 8)
		}
		return b
	}
	txt := func(b []byte, l int) string {
		s := net.IP(b).String()
		if l >= 0 {
			s += "/" + strconv.Itoa(l)
		}
		return s
	}
	as := [][]byte{mk(sym.Choice("f0", 2) == 1), mk(sym.Choice("f1", 2) == 1)}
	lens := []int{l, l2}
	qb := mk(false)
	reg, err := bootstrap.NewNetRegistry(netDoc([]string{txt(as[0], l), txt(as[1], l2)}, false), 4+2*fam)
	sym.Assert(err == nil, "registry rejected")
	ans, err := reg.Lookup(&bootstrap.Question{Query: txt(qb, ql)})
	sym.Assert(err == nil && ans != nil, "lookup failed")
	if ql < 0 {
		ql = max
	}
	contains := make([]bool, 2)
	for i := range contains {
		ok := ql >= lens[i]
		for k := 0; k < lens[i]; k++ {
			if (as[i][k/8]^qb[k/8])&(0x80>>(k%8)) != 0 {
				ok = false
			}
		}
		contains[i] = ok
	}
	netCheck(ans, contains, lens)
}
