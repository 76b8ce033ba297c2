package h

import (
	"reflect"
	"strconv"
	"strings"

	"github.com/openrdap/rdap"

	"verifharness/sym"
)

func init() {
	All["C16_type"] = Spec{F: C16_type}
	All["C16_nested"] = Spec{F: C16_nested}
	All["C16_raw"] = Spec{F: C16_raw}
	All["C17_scalar"] = Spec{F: C17_scalar}
	All["C17_number"] = Spec{F: C17_number}
	All["C17_long"] = Spec{F: C17_long}
	All["C18_many"] = Spec{F: C18_many}
	All["C18_deep"] = Spec{F: C18_deep}
	All["C17_list"] = Spec{F: C17_list}
	All["C18_fields"] = Spec{F: C18_fields}
	All["C18_edges"] = Spec{F: C18_edges}
	All["C18_history"] = Spec{F: C18_history}
}

func typeName(x any) string {
	switch x.(type) {
	case *rdap.Error:
		return "Error"
	case *rdap.Domain:
		return "Domain"
	case *rdap.Entity:
		return "Entity"
	case *rdap.Nameserver:
		return "Nameserver"
	case *rdap.IPNetwork:
		return "IPNetwork"
	case *rdap.Autnum:
		return "Autnum"
	case *rdap.DomainSearchResults:
		return "DomainSearchResults"
	case *rdap.EntitySearchResults:
		return "EntitySearchResults"
	case *rdap.NameserverSearchResults:
		return "NameserverSearchResults"
	case *rdap.Help:
		return "Help"
	case nil:
		return "nil"
	}
	return "?"
}

// C16_type: every combination of the keys that select the type.
func C16_type() {
	doc := sym.Obj()
	want := "Help"
	set := func(k, typ string) {
		if sym.Choice(k, 2) == 1 {
			doc.Set(k, value("val"))
			want = typ
		}
	}
	// lowest precedence first
	vals := sym.Choice("others", 7)
	other := func() *sym.Node {
		switch vals {
		case 0:
			return sym.Nul()
		case 1:
			return sym.Bln(false)
		case 2:
			return sym.Num(0)
		case 3:
			return sym.Str("x")
		case 4:
			return sym.Arr()
		case 5:
			return sym.Arr(sym.Obj())
		}
		return sym.Obj()
	}
	var ks []string
	for _, k := range []string{"nameserverSearchResults", "entitySearchResults", "domainSearchResults"} {
		if sym.Choice(k, 2) == 1 {
			doc.Set(k, other())
			ks = append(ks, k)
		}
	}
	if n := len(ks); n > 0 {
		want = strings.ToUpper(ks[n-1][:1]) + ks[n-1][1:]
	}
	if len(ks) > 1 {
		sym.Cover("several")
	}
	isErr := false
	switch sym.Choice("class", 4) {
	case 1:
		cl := []string{"domain", "entity", "nameserver", "ip network", "autnum"}[sym.Choice("known", 5)]
		doc.Set("objectClassName", sym.Str(cl))
		for t, c := range classOf {
			if c == cl {
				want = t
			}
		}
	case 2:
		// one character of a known name changed, or any short text
		var cl string
		if sym.Choice("short", 2) == 1 {
			cl = text("cl", upTo("clen", 2))
		} else {
			b := []byte([]string{"domain", "ip network", "autnum", "entity", "nameserver", "Domain", "ipnetwork"}[sym.Choice("near", 7)])
			i := sym.Choice("pos", 10)
			sym.Assume(i < len(b))
			c := sym.Byte("c")
			sym.Assume(c < 0x80)
			b[i] = c
			cl = string(b)
		}
		doc.Set("objectClassName", sym.Str(cl))
		isErr = true
		for t, c := range classOf {
			if sym.Fork(c == cl) {
				want, isErr = t, false
			}
		}
	case 3:
		v := other()
		doc.Set("objectClassName", v)
		isErr = true
	}
	set("errorCode", "Error")
	if want == "Error" {
		isErr = false
	}
	res, err := rdap.NewDecoder(sym.JSON(doc)).Decode()
	if isErr {
		sym.Cover("rejected")
		sym.Assert(err != nil, "unrecognised class name accepted")
		sym.Assert(typeName(res) == "nil", "object with an error")
		return
	}
	sym.Assert(err == nil, "object rejected")
	sym.Assert(typeName(res) == want, "decoded to "+typeName(res)+", not "+want)
	sym.Cover(want)
}

// tree is an arbitrary JSON value for a field of the given kind.
func tree(fd fieldSpec, depth int) *sym.Node {
	n := sym.Choice("tree", 8)
	switch n {
	case 0:
		return sym.Nul()
	case 1:
		return sym.Bln(sym.Bool("b"))
	case 2:
		return sym.Num([]float64{0, -1.5, 300, 1e300}[sym.Choice("n", 4)])
	case 3:
		return sym.Str(text("s", 1))
	case 4:
		return sym.Arr()
	case 5:
		return sym.Obj().Set("other", sym.Str("x"))
	case 6:
		if depth == 0 {
			return sym.Arr(sym.Arr(sym.Nul()))
		}
		return sym.Arr(tree(fd, depth-1), sym.Nul())
	}
	if fd.sub == "" || depth == 0 {
		return sym.Obj()
	}
	t := typeNamed(fd.sub)
	g := t.fields[sym.Choice("sub", len(t.fields))]
	return sym.Obj().Set(g.js, tree(g, depth-1))
}

// C16_nested: any value at any field; decoding always succeeds.
func C16_nested() {
	t := &types_[sym.Choice("type", len(types_))]
	fd := t.fields[sym.Choice("field", 18)%len(t.fields)]
	o := sym.Obj().Set(fd.js, tree(fd, sym.Param("D", 1)))
	if fd.js == "objectClassName" && t.parent == "" {
		return
	}
	res, err := rdap.NewDecoder(sym.JSON(wrap(t, o))).Decode()
	sym.Assert(err == nil && res != nil, "wrong JSON type makes decoding fail")
	v := locate(t, res)
	checkData(t, v, o)
}

// C16_raw: arbitrary text.
func C16_raw() {
	var b []byte
	good := `{"objectClassName":"domain","a":[1,"\u0041",{}],"handle":"x"}`
	switch sym.Choice("form", 5) {
	case 4: // null is an empty object
		s := []string{"null", "nul", "nullx", "null{}"}[sym.Choice("null", 4)]
		b = []byte(bytesN("pre", upTo("npre", 1)) + s + bytesN("post", upTo("npost", 1)))
		res, err := rdap.NewDecoder(b).Decode()
		ok := s == "null"
		for _, c := range append(append([]byte(nil), b[:strings.Index(string(b), s)]...), b[strings.Index(string(b), s)+len(s):]...) {
			ok = ok && sym.Fork(isWS(c))
		}
		if s == "null" && ok {
			sym.Assert(err == nil && typeName(res) == "Help", "null is not an empty object")
			sym.Cover("null")
		} else if s != "nul" {
			sym.Assert(err != nil && typeName(res) == "nil", "text after null accepted")
		}
		return
	case 0:
		b = []byte(bytesN("raw", upTo("len", sym.Param("L", 3))))
	case 1:
		b = []byte(good[:sym.Choice("cut", len(good))])
		res, err := rdap.NewDecoder(b).Decode()
		sym.Assert(err != nil && typeName(res) == "nil", "truncated document accepted")
		return
	case 2:
		b = []byte(good + bytesN("tail", 2))
		res, err := rdap.NewDecoder(b).Decode()
		if isWS(b[len(b)-1]) && isWS(b[len(b)-2]) {
			sym.Assert(err == nil && typeName(res) == "Domain", "trailing white space rejected")
		} else {
			sym.Assert(err != nil && typeName(res) == "nil", "trailing text accepted")
		}
		return
	case 3:
		b = []byte(good)
		b[sym.Choice("pos", len(b))] = sym.Byte("c")
	}
	res, err := rdap.NewDecoder(b).Decode()
	sym.Assert((err == nil) == (typeName(res) != "nil"), "both or neither of object and error")
	if err == nil {
		sym.Cover("accepted")
		i := 0
		for i < len(b) && isWS(b[i]) {
			i++
		}
		sym.Assert(i < len(b) && (b[i] == '{' || b[i] == 'n'), "accepted although not an object")
	} else {
		sym.Cover("rejected")
	}
}

var maxOf = map[int]uint64{kU8: 255, kU16: 65535, kU32: 4294967295, kU64: 18446744073709551615}

var numbers = []float64{0, 1, 255, 256, 255.5, 65535, 65536, 4294967295, 4294967296, 4294967295.75, 18446744073709549568, 18446744073709551616, 1e300, -1, -0.5, -256, 1e-9, 1.5}

// scalarFields lists every documented scalar field.
func scalarFields() (ts []*typeSpec, fs []fieldSpec) {
	for i := range types_ {
		for _, fd := range types_[i].fields {
			if fd.kind == kStr || fd.kind == kBool || fd.kind >= kU8 && fd.kind <= kU64 {
				if fd.js == "objectClassName" && types_[i].parent == "" {
					continue
				}
				ts, fs = append(ts, &types_[i]), append(fs, fd)
			}
		}
	}
	return
}

// trunc is the integer part of x if it is within 0..max.
func inRange(x float64, kind int) bool {
	switch kind {
	case kU8:
		return sym.And(x > -1, x < 256)
	case kU16:
		return sym.And(x > -1, x < 65536)
	case kU32:
		return sym.And(x > -1, x < 4294967296)
	}
	return sym.And(x > -1, x < 18446744073709551616)
}

func uintOf(v reflect.Value) (uint64, bool) {
	if v.IsNil() {
		return 0, false
	}
	return v.Elem().Uint(), true
}

// checkScalar compares a decoded field with the JSON value it came from.
func checkScalar(fd fieldSpec, fv reflect.Value, notes []string, n *sym.Node) {
	noted := len(notes) > 0
	switch fd.kind {
	case kStr:
		got := fv.String()
		switch n.Kind {
		case sym.String:
			sym.Assert(got == n.S, "text altered")
			sym.Assert(!noted, "note on an exact value")
			return
		case sym.Boolean:
			want := "false"
			if n.B {
				want = "true"
			}
			sym.Assert(got == want, "boolean not converted to its text")
		case sym.Number:
			sym.Assert(got == strconv.FormatFloat(n.F, 'f', -1, 64), "number not converted to its text")
		default:
			sym.Assert(got == "", "text out of nothing")
		}
	case kBool:
		var got, set bool
		if !fv.IsNil() {
			got, set = fv.Elem().Bool(), true
		}
		switch n.Kind {
		case sym.Boolean:
			sym.Assert(set && got == n.B, "boolean altered")
			sym.Assert(!noted, "note on an exact value")
			return
		case sym.Number:
			sym.Assert(set && got == (n.F != 0), "number not converted to a boolean")
		case sym.String:
			switch n.S {
			case "1", "t", "T", "true", "TRUE", "True":
				sym.Assert(got, "text not converted to a boolean")
			default:
				sym.Assert(!got, "text converted to true")
			}
		default:
			sym.Assert(!got, "true out of nothing")
		}
	default:
		got, set := uintOf(fv)
		switch n.Kind {
		case sym.Number:
			if sym.Fork(inRange(n.F, fd.kind)) {
				sym.Assert(set, "number lost")
				// got is the integer part of F
				if sym.Fork(n.F < 1) {
					sym.Assert(got == 0, "another number stored")
				} else {
					sym.Assert(got == uint64(n.F), "another number stored")
				}
			} else {
				sym.Assert(got == 0, "number that does not fit stored as another number")
			}
		case sym.Boolean:
			w := uint64(0)
			if n.B {
				w = 1
			}
			sym.Assert(set && got == w, "boolean not converted to a number")
		case sym.String:
			w, ok := parseDec(n.S, maxOf[fd.kind])
			if ok {
				sym.Assert(set && got == w, "numeric text not converted")
			} else {
				sym.Assert(got == 0, "text that is not a number in range stored as a number")
			}
		default:
			sym.Assert(got == 0, "number out of nothing")
		}
	}
	sym.Assert(noted, "no note on a conversion")
}

func parseDec(s string, max uint64) (uint64, bool) {
	if s == "" {
		return 0, false
	}
	v := uint64(0)
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		d := uint64(s[i] - '0')
		if v > (max-d)/10 {
			return 0, false
		}
		v = v*10 + d
	}
	return v, true
}

func scalarCase(t *typeSpec, fd fieldSpec, n *sym.Node) {
	o := sym.Obj().Set(fd.js, n).Set("x-unknown", sym.Num(-1))
	res, err := rdap.NewDecoder(sym.JSON(wrap(t, o))).Decode()
	sym.Assert(err == nil, "decoding failed")
	v := locate(t, res)
	dd := decodeData(v)
	notes := dd.Notes(fd.js)
	checkScalar(fd, v.FieldByName(fd.gf), notes, n)
	if fd.kind >= kU8 && fd.kind <= kU64 {
		// a value that is no such number is noted otherwise than one that is
		var plain *sym.Node
		if n.Kind == sym.Number && !sym.Fork(inRange(n.F, fd.kind)) {
			plain = sym.Num(1)
		}
		if n.Kind == sym.String {
			if _, ok := parseDec(n.S, maxOf[fd.kind]); !ok {
				plain = sym.Str("1")
			}
		}
		if plain != nil {
			r, e := rdap.NewDecoder(sym.JSON(wrap(t, sym.Obj().Set(fd.js, plain)))).Decode()
			sym.Assert(e == nil, "decoding failed")
			sym.Assert(!sameStrs(decodeData(locate(t, r)).Notes(fd.js), notes), "no note that the value does not fit")
		}
	}
	sym.Assert(len(dd.Notes("x-unknown")) == 0, "note on an unknown field")
	for _, g := range t.fields {
		if g.js != fd.js && !hasKey(o, g.js) {
			sym.Assert(v.FieldByName(g.gf).IsZero(), "another field was set")
			sym.Assert(len(dd.Notes(g.js)) == 0, "note on another field")
		}
	}
}

// C17_scalar: every scalar field, every JSON type.
func C17_scalar() {
	ts, fds := scalarFields()
	i := sym.Choice("field", len(fds))
	t, fd := ts[i], fds[i]
	var n *sym.Node
	switch sym.Choice("kind", 7) {
	case 0:
		n = sym.Nul()
	case 1:
		n = sym.Bln(sym.Bool("b"))
	case 2:
		k := sym.Choice("num", len(numbers))
		n = sym.Num(numbers[k])
	case 3:
		if fd.kind == kStr {
			n = sym.Str(text("s", upTo("len", 2)))
		} else {
			n = sym.Str(textIn("s", upTo("len", sym.Param("L", 1)), "0123456789-+. tTFe_x"))
		}
	case 4:
		n = sym.Arr(sym.Num(1))
	case 5:
		n = sym.Obj().Set("a", sym.Num(1))
	case 6:
		if fd.kind == kStr {
			n = sym.Str(strings.Repeat("long ", 40) + text("s", 1))
		} else {
			n = sym.Str([]string{"18446744073709551615", "18446744073709551616", "4294967295", "4294967296", "65535", "65536", "255", "256", "007", "1.0", "1e3", "0x10", "true", "false", "TRUE", "True", "no", " 5", "5 ", "\t7", "5\n", "+5", "1_000"}[sym.Choice("text", 23)])
		}
	}
	scalarCase(t, fd, n)
}

// C17_number: any number for every width of field.
func C17_number() {
	w := []struct {
		t, js string
	}{{"KeyData", "protocol"}, {"KeyData", "flags"}, {"Autnum", "startAutnum"}, {"DSData", "keyTag"}, {"SecureDNS", "zoneSigned"}}[sym.Choice("field", 5)]
	t := typeNamed(w.t)
	x := sym.Float("x")
	sym.Assume(sym.And(x == x, x < 1e308, x > -1e308))
	scalarCase(t, *t.field(w.js), sym.Num(x))
}

// C17_list: lists of text keep their decodable elements in order.
func C17_list() {
	var ts []*typeSpec
	var fds []fieldSpec
	for i := range types_ {
		for _, fd := range types_[i].fields {
			if fd.kind == kStrs || fd.kind == kList {
				ts, fds = append(ts, &types_[i]), append(fds, fd)
			}
		}
	}
	i := sym.Choice("field", len(fds))
	t, fd := ts[i], fds[i]
	var n *sym.Node
	var want []string
	bad, nbad := false, 0
	if sym.Choice("notlist", 2) == 1 {
		n = []*sym.Node{sym.Nul(), sym.Bln(true), sym.Num(3), sym.Str("x"), sym.Obj().Set("a", sym.Str("b"))}[sym.Choice("what", 5)]
		if strings.HasSuffix(fd.js, "SearchResults") {
			return
		}
		bad = true
	} else {
		n = sym.Arr()
		for k := upTo("n", sym.Param("N", 2)); k > 0; k-- {
			if fd.kind == kList {
				switch sym.Choice("elem", 3) {
				case 0:
					s := "e" + text("s", 1)
					n.A = append(n.A, sym.Obj().Set("x-mark", sym.Str(s)))
					want = append(want, s)
				case 1:
					n.A = append(n.A, sym.Str("x"))
					nbad++
				case 2:
					n.A = append(n.A, sym.Nul())
					nbad++
				}
				continue
			}
			switch sym.Choice("elem", 6) {
			case 0, 1:
				s := text("s", 1)
				n.A = append(n.A, sym.Str(s))
				want = append(want, s)
			case 2:
				n.A = append(n.A, sym.Num(7.25))
				want = append(want, "7.25")
				nbad++
			case 3:
				n.A = append(n.A, sym.Bln(true))
				want = append(want, "true")
				nbad++
			case 4:
				n.A = append(n.A, sym.Arr(sym.Str("z")))
				nbad++
			case 5:
				n.A = append(n.A, sym.Nul())
				want = append(want, "")
				nbad++
			}
		}
	}
	o := sym.Obj().Set(fd.js, n)
	res, err := rdap.NewDecoder(sym.JSON(wrap(t, o))).Decode()
	sym.Assert(err == nil, "decoding failed")
	v := locate(t, res)
	dd := decodeData(v)
	fv := v.FieldByName(fd.gf)
	sym.Assert(fv.Len() == len(want), "elements lost or added")
	for i := range want {
		if fd.kind == kStrs {
			sym.Assert(fv.Index(i).String() == want[i], "element altered or out of order")
		} else {
			s, ok := decodeData(fv.Index(i)).Value("x-mark").(string)
			sym.Assert(ok && s == want[i], "element altered or out of order")
		}
	}
	if nbad > 0 {
		bad = true
		sym.Assert(len(dd.Notes(fd.js)) >= nbad, "not every element that was changed or dropped is noted")
	}
	sym.Assert((len(dd.Notes(fd.js)) > 0) == bad, "note missing or spurious")
}

// C17_long: one element that cannot be decoded anywhere in a long list.
func C17_long() {
	ts, fds := allFields()
	i := sym.Choice("field", len(fds))
	t, fd := ts[i], fds[i]
	if fd.kind != kStrs && fd.kind != kList {
		return
	}
	n := sym.Param("N", 20)
	at := sym.Choice("at", n+1)
	every := sym.Choice("more", 2) == 1
	nbad := 0
	a := sym.Arr()
	var want []string
	for k := 0; k < n; k++ {
		s := "e" + strconv.Itoa(k)
		if k == (at+1)%n {
			s += text("s", 1)
		}
		switch {
		case k == at, every && k > at && k%3 == 0 && k != (at+1)%n:
			nbad++
			a.A = append(a.A, sym.Arr())
			continue
		case fd.kind == kList:
			a.A = append(a.A, sym.Obj().Set("x-mark", sym.Str(s)))
		default:
			a.A = append(a.A, sym.Str(s))
		}
		want = append(want, s)
	}
	res, err := rdap.NewDecoder(sym.JSON(wrap(t, sym.Obj().Set(fd.js, a)))).Decode()
	sym.Assert(err == nil, "decoding failed")
	v := locate(t, res)
	fv := v.FieldByName(fd.gf)
	sym.Assert(fv.Len() == len(want), "elements lost or added")
	for i := range want {
		if fd.kind == kStrs {
			sym.Assert(fv.Index(i).String() == want[i], "element altered or out of order")
		} else {
			s, ok := decodeData(fv.Index(i)).Value("x-mark").(string)
			sym.Assert(ok && s == want[i], "element altered or out of order")
		}
	}
	notes := decodeData(v).Notes(fd.js)
	sym.Assert(len(notes) >= nbad, "not every element that was dropped is noted")
	sym.Assert((len(notes) > 0) == (nbad > 0), "note missing or spurious")
}

// C18_many: many unknown fields and long lists of objects.
func C18_many() {
	t := &types_[sym.Choice("type", len(types_))]
	n := sym.Param("N", 16)
	o := sym.Obj()
	for i := 0; i < n; i++ {
		k := "x" + strconv.Itoa(i)
		if i == n/2 {
			k += text("k", 1)
			o.Set(k, value("u"))
			continue
		}
		o.Set(k, sym.Num(float64(i)))
	}
	empty := sym.Choice("empty", 3)
	var lists []fieldSpec
	for _, fd := range t.fields {
		if fd.kind == kList && len(lists) < 2 {
			lists = append(lists, fd)
		}
	}
	for _, fd := range lists {
		a := sym.Arr()
		for i := 0; i < n; i++ {
			if empty == 1 && i == 0 || empty == 2 && i%2 == 1 {
				a.A = append(a.A, sym.Obj())
				continue
			}
			a.A = append(a.A, sym.Obj().Set("y"+strconv.Itoa(i), sym.Num(float64(i))).Set("y", sym.Arr(sym.Num(float64(i)))))
		}
		o.Set(fd.js, a)
	}
	res, err := rdap.NewDecoder(sym.JSON(wrap(t, o))).Decode()
	sym.Assert(err == nil, "decoding failed")
	v := locate(t, res)
	checkData(t, v, o)
	for _, fd := range lists {
		fv := v.FieldByName(fd.gf)
		sym.Assert(fv.Len() == n, "nested objects lost")
		for k, key := range o.K {
			if key == fd.js {
				for i, e := range o.A[k].A {
					checkData(typeNamed(fd.sub), fv.Index(i), e)
				}
			}
		}
	}
}

// C18_deep: the same field at every level of a deep document.
func C18_deep() {
	fd := []fieldSpec{entities, fs("networks", "Networks", kList, "IPNetwork"), fs("autnums", "Autnums", kList, "Autnum")}[sym.Choice("via", 3)]
	d := sym.Param("D", 12)
	at := sym.Choice("at", d)
	var objs []*sym.Node
	for i := 0; i < d; i++ {
		o := sym.Obj().Set("handle", sym.Str("h"+strconv.Itoa(i)))
		if i == at {
			o = sym.Obj().Set("handle", sym.Str("h"+text("h", 1))).Set("x"+text("k", 1), value("u"))
		}
		if i > 0 {
			via := "entities"
			if i%2 == 1 {
				via = fd.js
			}
			objs[i-1].Set(via, sym.Arr(o))
		}
		objs = append(objs, o)
	}
	objs[0].Set("objectClassName", sym.Str("entity"))
	v := reflect.ValueOf(decoded(objs[0])).Elem()
	t := typeNamed("Entity")
	for i, o := range objs {
		checkData(t, v, o)
		sym.Assert(v.FieldByName("Handle").String() == o.A[0].S, "field of a nested object not filled")
		if i == len(objs)-1 {
			break
		}
		gf := "Entities"
		sub := "Entity"
		if i%2 == 0 {
			gf, sub = fd.gf, fd.sub
		}
		l := v.FieldByName(gf)
		sym.Assert(l.Len() == 1, "nested object lost")
		v, t = l.Index(0), typeNamed(sub)
	}
}

// sampleText is an arbitrary character, or a fixed one if the tag says so.
func sampleText(tag string) string {
	if tag == "=" {
		return "q"
	}
	return text("s", 1)
}

// sampleValue is a value for a field, and a check that the field got it.
func sampleValue(fd fieldSpec, tag string) (*sym.Node, func(fv reflect.Value) bool) {
	switch fd.kind {
	case kStr:
		s := "v" + sampleText(tag) + tag
		return sym.Str(s), func(fv reflect.Value) bool { return fv.String() == s }
	case kStrs:
		a, b := "a"+sampleText(tag)+tag, "b"
		return sym.Strs(a, b), func(fv reflect.Value) bool {
			return fv.Len() == 2 && fv.Index(0).String() == a && fv.Index(1).String() == b
		}
	case kBool:
		b := tag == "=" || sym.Bool("b")
		return sym.Bln(b), func(fv reflect.Value) bool { return !fv.IsNil() && fv.Elem().Bool() == b }
	case kU8, kU16, kU32, kU64:
		x := byte(7)
		if tag != "=" {
			x = sym.Byte("n")
		}
		return sym.Num(float64(x)), func(fv reflect.Value) bool { return !fv.IsNil() && fv.Elem().Uint() == uint64(x) }
	case kPtr, kList:
		t := typeNamed(fd.sub)
		mk := func(m string) *sym.Node {
			return sym.Obj().Set("x-in", sym.Str(m)).Set(t.fields[0].js, sym.Strs("q"))
		}
		if fd.kind == kPtr {
			o := mk("m" + tag)
			return o, func(fv reflect.Value) bool {
				if fv.IsNil() {
					return false
				}
				checkData(t, fv.Elem(), o)
				return true
			}
		}
		o, p := mk("m"+tag), mk("n"+tag)
		return sym.Arr(o, p), func(fv reflect.Value) bool {
			if fv.Len() != 2 {
				return false
			}
			checkData(t, fv.Index(0), o)
			checkData(t, fv.Index(1), p)
			return true
		}
	}
	s := "n" + sampleText(tag)
	card := sym.Arr(sym.Str("vcard"), sym.Arr(sym.Arr(sym.Str("version"), sym.Obj(), sym.Str("text"), sym.Str("4.0")), sym.Arr(sym.Str("fn"), sym.Obj(), sym.Str("text"), sym.Str(s))))
	return card, func(fv reflect.Value) bool {
		if fv.IsNil() {
			return false
		}
		return fv.Interface().(*rdap.VCard).Name() == s
	}
}

func fieldCase(t *typeSpec, fd fieldSpec, unknown string, history func()) {
	o := sym.Obj()
	var check func(reflect.Value) bool
	if fd.js == "objectClassName" && t.parent == "" {
		o.Set(fd.js, sym.Str(classOf[t.name]))
		check = func(fv reflect.Value) bool { return fv.String() == classOf[t.name] }
	} else {
		var n *sym.Node
		n, check = sampleValue(fd, "")
		o.Set(fd.js, n)
	}
	if unknown != "" {
		for _, g := range t.fields {
			sym.Assume(g.js != unknown)
		}
		sym.Assume(t.parent != "" || unknown != "errorCode" && unknown != "objectClassName" && !strings.HasSuffix(unknown, "SearchResults"))
		o.Set(unknown, value("u"))
	}
	doc := sym.JSON(wrap(t, o))
	if history != nil {
		history()
	}
	res, err := rdap.NewDecoder(doc).Decode()
	sym.Assert(err == nil, "decoding failed")
	v := locate(t, res)
	checkData(t, v, o)
	sym.Assert(check(v.FieldByName(fd.gf)), "documented field not filled from its JSON name: "+t.name+"."+fd.js)
	for _, g := range t.fields {
		if !hasKey(o, g.js) {
			sym.Assert(v.FieldByName(g.gf).IsZero(), "field set although absent: "+t.name+"."+g.js)
		}
	}
}

func allFields() (ts []*typeSpec, fds []fieldSpec) {
	for i := range types_ {
		for _, fd := range types_[i].fields {
			ts, fds = append(ts, &types_[i]), append(fds, fd)
		}
	}
	return
}

// C18_fields: every documented field of every type, with unknown fields beside it.
func C18_fields() {
	ts, fds := allFields()
	i := sym.Choice("field", len(fds))
	t, fd := ts[i], fds[i]
	unknown := ""
	switch sym.Choice("unknown", 7) {
	case 6:
		unknown = strings.ToLower(fd.js)
		if unknown == fd.js {
			return
		}
	case 1:
		unknown = text("name", 1+upTo("nlen", 1))
	case 2:
		unknown = fd.gf
	case 3:
		unknown = strings.ToUpper(fd.js)
	case 4:
		unknown = fd.js + text("name", 1)
	case 5:
		unknown = strings.ToUpper(fd.js[:1]) + fd.js[1:]
	}
	fieldCase(t, fd, unknown, nil)
}

// C18_edges: every type inside every place that may contain it, three deep.
func C18_edges() {
	ts, fds := allFields()
	var et []*typeSpec
	var ef []fieldSpec
	for i := range fds {
		if fds[i].sub != "" {
			et, ef = append(et, ts[i]), append(ef, fds[i])
		}
	}
	i := sym.Choice("edge", len(ef))
	t, e := et[i], ef[i]
	sub := typeNamed(e.sub)
	fd := sub.fields[sym.Choice("field", 18)%len(sub.fields)]
	n, check := sampleValue(fd, "")
	in := sym.Obj().Set(fd.js, n).Set("x"+text("name", 1), sym.Num(1))
	o := sym.Obj()
	if e.kind == kList {
		o.Set(e.js, sym.Arr(in))
	} else {
		o.Set(e.js, in)
	}
	res, err := rdap.NewDecoder(sym.JSON(wrap(t, o))).Decode()
	sym.Assert(err == nil, "decoding failed")
	v := locate(t, res).FieldByName(e.gf)
	if e.kind == kList {
		sym.Assert(v.Len() == 1, "nested object lost")
		v = v.Index(0)
	} else {
		sym.Assert(!v.IsNil(), "nested object lost")
		v = v.Elem()
	}
	checkData(sub, v, in)
	sym.Assert(check(v.FieldByName(fd.gf)), "documented field of a nested object not filled: "+sub.name+"."+fd.js)
}

// C18_history: results do not depend on what was decoded before.
func C18_history() {
	ts, fds := allFields()
	pick := func(name string) int {
		// one string field per type is enough: plans are per type
		var idx []int
		last := ""
		for i := range fds {
			if ts[i].name != last && (fds[i].kind == kStr || fds[i].kind == kStrs) && fds[i].js != "objectClassName" {
				idx = append(idx, i)
				last = ts[i].name
			}
		}
		return idx[sym.Choice(name, len(idx))]
	}
	i := pick("type")
	h := sym.Choice("history", 4)
	fieldCase(ts[i], fds[i], "x"+text("name", 1), func() {
		switch h {
		case 0:
			j := pick("before")
			o := sym.Obj().Set("x-a", sym.Str("old")).Set(fds[j].js, sym.Str("old"))
			d := rdap.NewDecoder(sym.JSON(wrap(ts[j], o)))
			d.Decode()
		case 1: // the same type, other unknown names
			o := sym.Obj().Set("x"+text("name", 1), sym.Str("old")).Set("xyz", sym.Str("old"))
			res, _ := rdap.NewDecoder(sym.JSON(wrap(ts[i], o))).Decode()
			v := locate(ts[i], res)
			dd := decodeData(v)
			f := dd.Fields()
			for k := range f {
				f[k] = "scribble"
			}
		case 2: // failures
			rdap.NewDecoder([]byte("{")).Decode()
			rdap.NewDecoder(sym.JSON(sym.Obj().Set("objectClassName", sym.Num(1)))).Decode()
			for _, g := range ts[i].fields {
				if g.js != "objectClassName" {
					rdap.NewDecoder(sym.JSON(wrap(ts[i], sym.Obj().Set(g.js, sym.Num(-1))))).Decode()
				}
			}
		case 3: // scribbling over an earlier result
			o := sym.Obj().Set("x-a", sym.Str("old")).Set(fds[i].js, sym.Strs("old"))
			res, _ := rdap.NewDecoder(sym.JSON(wrap(ts[i], o))).Decode()
			v := locate(ts[i], res)
			m, ok := decodeData(v).Value(fds[i].js).([]any)
			if ok && len(m) > 0 {
				m[0] = "scribble"
			}
		}
	})
}
