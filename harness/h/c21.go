package h

import (
	"bytes"
	"sort"
	"strconv"
	"strings"

	"github.com/openrdap/rdap"

	"verifharness/sym"
)

func init() {
	All["C21_value"] = Spec{F: C21_value}
	All["C21_unknown"] = Spec{F: C21_unknown}
	All["C21_card"] = Spec{F: C21_card}
	All["C22_full"] = Spec{F: C22_full}
	All["C22_part"] = Spec{F: C22_part}
	All["C22_unknown"] = Spec{F: C22_unknown}
	All["C22_wide"] = Spec{F: C22_wide}
	All["C22_many"] = Spec{F: C22_many}
	All["C22_manual"] = Spec{F: C22_manual}
}

// clean drops what a printed value must not contain.
func clean(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		if sym.Fork(sym.Or(s[i] == '\n', s[i] == '\r', s[i] == 0)) {
			continue
		}
		b = append(b, s[i])
	}
	return string(b)
}

func linesOf(out string) []string {
	var ls []string
	start := 0
	for i := 0; i < len(out); i++ {
		if out[i] == '\n' {
			ls = append(ls, out[start:i])
			start = i + 1
		}
	}
	sym.Assert(start == len(out), "last line is not ended")
	return ls
}

func decoded(doc *sym.Node) any {
	res, err := rdap.NewDecoder(sym.JSON(doc)).Decode()
	sym.Assert(err == nil, "decoding failed")
	return res
}

func printed(p *rdap.Printer, obj any) string {
	var b bytes.Buffer
	p.Writer = &b
	p.Print(obj)
	return b.String()
}

// ind is the indentation of a printer.
func ind(p *rdap.Printer, level int) string {
	c, n := p.IndentChar, int(p.IndentSize)
	if c == 0 {
		c = ' '
	}
	if n == 0 {
		n = 2
	}
	return strings.Repeat(string(c), level*n)
}

func somePrinter() *rdap.Printer {
	switch sym.Choice("printer", 4) {
	case 1:
		return &rdap.Printer{IndentChar: '\t', IndentSize: 1}
	case 2:
		return &rdap.Printer{IndentSize: 5}
	case 3:
		return &rdap.Printer{BriefLinks: true}
	}
	return &rdap.Printer{}
}

// nasty is text with arbitrary characters in it.
func nasty(n int) string {
	s := text("s", n)
	switch sym.Choice("around", 5) {
	case 1:
		return "a\r\n" + s + "\x00z"
	case 2:
		return "\u00e9\u2028" + s
	case 3:
		return s + "Domain:\n  Handle: forged"
	case 4:
		return "1234567890" + s + "\u4e16"
	}
	return s
}

// levelOf is the nesting level at which the values of type t are printed by wrap.
func levelOf(t *typeSpec) int {
	l := 1
	for t.parent != "" {
		l++
		t = typeNamed(t.parent)
	}
	return l
}

func printable(fd fieldSpec) bool { return fd.js != "lang" && fd.js != "objectClassName" }

// checkLines: only the one value and headings are printed, each on a line of its own.
func checkLines(p *rdap.Printer, out, value string, level int) {
	ls := linesOf(out)
	n := 0
	want := clean(value)
	for i, l := range ls {
		for k := 0; k < len(l); k++ {
			sym.Assert(sym.And(l[k] != '\r', l[k] != 0), "carriage return or NUL in the output")
		}
		last := i == len(ls)-1
		if last && value != "" {
			pre := ind(p, level)
			sym.Assert(strings.HasPrefix(l, pre) && len(l) > len(pre) && !strings.HasPrefix(l[len(pre):], ind(p, 1)), "value indented wrongly")
			sym.Assert(len(l) >= len(pre)+3+len(want) && strings.HasSuffix(l, ": "+want), "value altered")
			label := l[len(pre) : len(l)-len(want)-2]
			sym.Assert(!strings.Contains(label, ": "), "value altered")
			n++
			continue
		}
		pre := ind(p, i)
		sym.Assert(strings.HasPrefix(l, pre) && !strings.HasPrefix(l[len(pre):], ind(p, 1)), "heading indented wrongly")
		sym.Assert(strings.HasSuffix(l, ":"), "a line that is neither heading nor value")
	}
	_ = n
	k := level
	if value != "" {
		k++
	}
	sym.Assert(len(ls) == k, "wrong number of lines")
}

// C21_value: any text in any documented text field.
func C21_value() {
	ts, fds := allFields()
	i := sym.Choice("field", len(fds))
	t, fd := ts[i], fds[i]
	if fd.kind != kStr && fd.kind != kStrs || !printable(fd) {
		return
	}
	p := somePrinter()
	if p.BriefLinks && (t.name == "Link") {
		return
	}
	s := nasty(sym.Param("L", 2))
	var n *sym.Node
	if fd.kind == kStr {
		n = sym.Str(s)
	} else {
		n = sym.Strs(s)
	}
	out := printed(p, decoded(wrap(t, sym.Obj().Set(fd.js, n))))
	// fields added only to select the type
	if t.name == "Error" || t.parent == "" && strings.HasSuffix(t.name, "Results") {
		out = dropErrorCode(out)
	}
	checkLines(p, out, s, levelOf(t))
}

// dropErrorCode removes the line of the error code wrap adds.
func dropErrorCode(out string) string {
	k := strings.Index(out, "404\n")
	if k < 0 {
		return out
	}
	j := strings.LastIndexByte(out[:k], '\n')
	return out[:j+1] + out[k+4:]
}

// C21_unknown: any text as name and value of unknown fields, nested.
func C21_unknown() {
	t := &types_[sym.Choice("type", len(types_))]
	p := somePrinter()
	if p.BriefLinks && t.name == "Link" {
		return
	}
	key := "x" + nasty(1)
	val := nasty(1)
	form := sym.Choice("form", 5)
	var v *sym.Node
	want := []string{}
	lv := levelOf(t)
	line := func(d int, k, v string) {
		if v != "" {
			want = append(want, ind(p, lv+d)+clean(k)+": "+clean(v))
		}
	}
	head := func(d int, k string) { want = append(want, ind(p, lv+d)+clean(k)+":") }
	switch form {
	case 0:
		v = sym.Str(val)
		line(0, key, val)
	case 1:
		v = sym.Strs(val, "", "end")
		line(0, key, val)
		line(0, key, "end")
	case 2:
		v = sym.Obj().Set("in"+val, sym.Str("x"+val))
		head(0, key)
		line(1, "in"+val, "x"+val)
	case 3:
		v = sym.Arr(sym.Obj().Set("in", sym.Arr(sym.Obj().Set(val, sym.Bln(true)))), sym.Num(5), sym.Nul())
		head(0, key)
		head(1, "in")
		line(2, val, "true")
		line(0, key, "5")
		line(0, key, "[unprintable value]")
	case 4:
		v = sym.Nul()
		line(0, key, "[unprintable value]")
	}
	o := sym.Obj().Set(key, v)
	out := printed(p, decoded(wrap(t, o)))
	if t.name == "Error" {
		out = dropErrorCode(out)
	}
	ls := linesOf(out)
	sym.Assert(len(ls) == lv+len(want), "wrong number of lines")
	for i, l := range ls {
		for k := 0; k < len(l); k++ {
			sym.Assert(sym.And(l[k] != '\r', l[k] != 0), "carriage return or NUL in the output")
		}
		if i >= lv {
			sym.Assert(l == want[i-lv], "unknown field altered or indented wrongly")
		}
	}
}

// C21_card: any text in a card's property names and values.
func C21_card() {
	p := somePrinter()
	name := nasty(1)
	vals := []string{nasty(1), text("v", 1)}
	prop := sym.Arr(sym.Str(name), sym.Obj().Set("x", sym.Str(text("x", 1))), sym.Str("text"), sym.Strs(vals...))
	if sym.Choice("sep", 2) == 1 {
		prop.A = append(prop.A[:3], sym.Str(vals[0]), sym.Arr(sym.Str(vals[1])))
	}
	nested := sym.Choice("nested", 2)
	e := sym.Obj().Set("objectClassName", sym.Str("entity")).Set("vcardArray", sym.Arr(sym.Str("vcard"), sym.Arr(prop)))
	doc := e
	if nested == 1 {
		doc = sym.Obj().Set("objectClassName", sym.Str("domain")).Set("entities", sym.Arr(e))
	}
	ls := linesOf(printed(p, decoded(doc)))
	n := 0
	for _, v := range vals {
		if v == "" {
			continue
		}
		k := 1 + nested + n
		sym.Assert(k < len(ls), "card value missing")
		l := ls[k]
		for j := 0; j < len(l); j++ {
			sym.Assert(sym.And(l[j] != '\r', l[j] != 0), "carriage return or NUL in the output")
		}
		sym.Assert(strings.HasPrefix(l, ind(p, 1+nested)) && strings.HasSuffix(l, clean(name)+": "+clean(v)), "card value altered or indented wrongly")
		n++
	}
	sym.Assert(len(ls) == 1+nested+n, "wrong number of lines")
}

// ---- completeness ----

type filler struct {
	n    int // marker
	num  int
	skip string // field left out everywhere
	sym  int    // marker that gets symbolic text
	sval string
	same bool // all values alike
	wide int  // elements of lists, if not 0
}

func (f *filler) mark() *sym.Node {
	f.n++
	if f.same {
		return sym.Str("m;")
	}
	s := "m" + strconv.Itoa(f.n) + ";"
	if f.n == f.sym {
		s += text("s", 1) + "."
		f.sval = s
	}
	return sym.Str(s)
}

func (f *filler) number() *sym.Node {
	if f.same {
		return sym.Num(7)
	}
	f.num++
	return sym.Num(float64(f.num))
}

// object fills every field of type t, nested objects d levels deep.
func (f *filler) object(t *typeSpec, d int) *sym.Node {
	o := sym.Obj()
	for _, fd := range t.fields {
		if fd.js == f.skip {
			continue
		}
		switch fd.kind {
		case kStr:
			if fd.js == "objectClassName" && classOf[t.name] != "" {
				o.Set(fd.js, sym.Str(classOf[t.name]))
			} else {
				o.Set(fd.js, f.mark())
			}
		case kStrs:
			a := sym.Arr(f.mark(), f.mark())
			for len(a.A) < f.wide {
				a.A = append(a.A, f.mark())
			}
			o.Set(fd.js, a)
		case kBool:
			o.Set(fd.js, sym.Bln(f.num%2 == 0))
		case kU8, kU16, kU32, kU64:
			o.Set(fd.js, f.number())
		case kCard:
			o.Set(fd.js, sym.Arr(sym.Str("vcard"), sym.Arr(sym.Arr(sym.Str("fn"), sym.Obj(), sym.Str("text"), f.mark()),
				sym.Arr(sym.Str("adr"), sym.Obj(), sym.Str("text"), sym.Arr(sym.Str(""), f.mark(), sym.Arr(f.mark(), f.mark()))))))
		case kPtr:
			if d > 0 {
				o.Set(fd.js, f.object(typeNamed(fd.sub), d-1))
			}
		case kList:
			if d > 0 {
				a := sym.Arr(f.object(typeNamed(fd.sub), d-1))
				if d == 1 {
					a.A = append(a.A, f.object(typeNamed(fd.sub), 0))
				}
				for len(a.A) < f.wide {
					a.A = append(a.A, sym.Obj().Set("x-w", f.mark()))
				}
				o.Set(fd.js, a)
			}
		}
	}
	o.Set("x-b", f.mark()).Set("x-a", f.mark())
	if d == 1 {
		o.Set("x-f", sym.Bln(false)).Set("x-t", sym.Bln(true)).Set("x-0", sym.Num(0)).Set("x-n", sym.Num(-1234567.5)).Set("x-e", sym.Str("")).Set("x-l", sym.Arr(f.mark(), sym.Bln(false), sym.Num(0), f.mark())).
			Set("x-o", sym.Obj().Set("f", sym.Bln(false)).Set("l", sym.Arr(f.mark(), sym.Obj().Set("z", f.mark()), f.mark())))
	}
	for i := 2; i < f.wide; i++ {
		o.Set("x-w"+strconv.Itoa(i*7%f.wide), f.mark())
	}
	return o
}

// The labels of values and headings.
var labelOf = map[string]string{
	"rdapConformance": "Conformance", "handle": "Handle", "status": "Status", "port43": "Port43", "title": "Title", "type": "Type", "description": "Description",
	"name": "Name", "country": "Country", "ipVersion": "IP Version", "parentHandle": "ParentHandle", "startAddress": "Start Address", "endAddress": "End Address",
	"startAutnum": "StartAutnum", "endAutnum": "EndAutnum", "ldhName": "Domain Name", "unicodeName": "Domain Name (Unicode)",
	"Nameserver.ldhName": "Nameserver", "Nameserver.unicodeName": "Nameserver (Unicode)", "errorCode": "Error Code", "v4": "IPv4", "v6": "IPv6", "roles": "Role",
	"identifier": "Identifier", "zoneSigned": "Zone Signed", "delegationSigned": "Delegation Signed", "maxSigLife": "Max Signature Life", "flags": "Flags", "protocol": "Protocol",
	"algorithm": "Algorithm", "publicKey": "Public Key", "keyTag": "Key Tag", "digest": "Digest", "digestType": "DigestType", "relation": "Relation", "idnTable": "IDN Table",
	"href": "Href", "value": "Value", "rel": "Rel", "media": "Media", "hreflang": "HrefLang", "eventAction": "Action", "eventActor": "Actor", "eventDate": "Date",
	"Domain": "Domain", "Entity": "Entity", "IPNetwork": "IP Network", "Autnum": "Autnum", "Error": "Error", "Help": "Help",
	"DomainSearchResults": "Domain Search Results", "EntitySearchResults": "Entity Search Results", "NameserverSearchResults": "Nameserver Search Results",
	"Nameserver": "Nameserver", "IPAddressSet": "IP Addresses", "PublicID": "Public ID", "SecureDNS": "Secure DNS", "KeyData": "Key", "DSData": "DSData",
	"Variant": "Variant", "VariantName": "Variant Name", "Remark": "Remark", "Notice": "Notice", "Link": "Link", "Event": "Event", "asEventActor": "AsEventActor",
}

func label(t *typeSpec, js string) string {
	if l, ok := labelOf[t.name+"."+js]; ok {
		return l
	}
	return labelOf[js]
}

// tnode is an object of the output, or one expected there.
type tnode struct {
	label string
	vals  [][2]string
	kids  []*tnode
}

// sig has the values and objects by label, those of the same label in order.
func (n *tnode) sig() string {
	v := append([][2]string(nil), n.vals...)
	sort.SliceStable(v, func(i, j int) bool { return v[i][0] < v[j][0] })
	k := append([]*tnode(nil), n.kids...)
	sort.SliceStable(k, func(i, j int) bool { return k[i].label < k[j].label })
	s := n.label + "{"
	for _, x := range v {
		s += x[0] + ": " + x[1] + "\n"
	}
	for _, x := range k {
		s += x.sig()
	}
	return s + "}"
}

// expectUnknown: an unknown value's scalars, and its objects below it.
func expectUnknown(n *tnode, k string, v *sym.Node, add func(k, s string)) {
	switch v.Kind {
	case sym.Object:
		c := &tnode{label: k}
		for i, e := range v.A {
			expectUnknown(c, v.K[i], e, func(k, s string) {
				if s != "" {
					c.vals = append(c.vals, [2]string{k, s})
				}
			})
		}
		n.kids = append(n.kids, c)
	case sym.Array:
		for _, e := range v.A {
			expectUnknown(n, k, e, add)
		}
	default:
		add(k, scalarText(v))
	}
}

var briefOut = []string{"rdapConformance", "notices", "remarks", "events", "asEventActor", "port43", "variants", "secureDNS"}

// expect gives what must be printed of an object.
func expect(t *typeSpec, o *sym.Node, p *rdap.Printer, f *filler) *tnode {
	n := &tnode{label: label(t, t.name)}
	add := func(k, s string) {
		if f.sym != 0 && strings.HasPrefix(s, "m"+strconv.Itoa(f.sym)+";") {
			s = "SYMBOLIC"
		}
		if s != "" {
			n.vals = append(n.vals, [2]string{k, s})
		}
	}
	for i, k := range o.K {
		v := o.A[i]
		fd := t.field(k)
		if fd == nil {
			expectUnknown(n, k, v, add)
			continue
		}
		if !printable(*fd) || p.BriefOutput && (hasStr(briefOut, k) || t.name == "Entity" && (k == "networks" || k == "autnums" || k == "entities")) ||
			p.OmitNotices && k == "notices" || p.OmitRemarks && k == "remarks" {
			continue
		}
		switch fd.kind {
		case kPtr:
			n.kids = append(n.kids, expect(typeNamed(fd.sub), v, p, f))
		case kList:
			for _, e := range v.A {
				if fd.sub == "Link" && p.BriefLinks {
					for j, lk := range e.K {
						if lk == "href" {
							add("Link", e.A[j].S)
						}
					}
					continue
				}
				c := expect(typeNamed(fd.sub), e, p, f)
				if k == "asEventActor" {
					c.label = label(t, k)
				}
				n.kids = append(n.kids, c)
			}
		case kCard:
			for _, pr := range v.A[1].A {
				for _, s := range flatNode(propValue(pr)) {
					add("vCard "+pr.A[0].S, s)
				}
			}
		default:
			for _, s := range flatNode(v) {
				add(label(t, k), s)
			}
		}
	}
	return n
}

// parseOut reads the indented output back.
func parseOut(p *rdap.Printer, out string, f *filler) *tnode {
	root := &tnode{}
	stack := []*tnode{root}
	unit := len(ind(p, 1))
	symPre := ": m" + strconv.Itoa(f.sym) + ";"
	for _, l := range linesOf(out) {
		k := 0
		for strings.HasPrefix(l[k:], ind(p, 1)) {
			k += unit
		}
		lv := k / unit
		sym.Assert(lv < len(stack), "line indented too far")
		stack = stack[:lv+1]
		top := stack[lv]
		if f.sym != 0 {
			if j := strings.Index(l, symPre); j >= 0 {
				sym.Assert(l[j+2:] == clean(f.sval), "value altered")
				top.vals = append(top.vals, [2]string{l[k:j], "SYMBOLIC"})
				continue
			}
		}
		if j := strings.Index(l, ": "); j >= 0 {
			top.vals = append(top.vals, [2]string{l[k:j], l[j+2:]})
			continue
		}
		sym.Assert(strings.HasSuffix(l, ":"), "a line that is neither heading nor value")
		n := &tnode{label: l[k : len(l)-1]}
		top.kids = append(top.kids, n)
		stack = append(stack, n)
	}
	return root
}

func optionsPrinter() *rdap.Printer {
	return &rdap.Printer{OmitNotices: sym.Fork(sym.Bool("OmitNotices")), OmitRemarks: sym.Fork(sym.Bool("OmitRemarks")),
		BriefOutput: sym.Fork(sym.Bool("BriefOutput")), BriefLinks: sym.Fork(sym.Bool("BriefLinks"))}
}

func checkFull(t *typeSpec, o *sym.Node, p *rdap.Printer, f *filler) {
	obj := decoded(o)
	sym.Assert(typeName(obj) == t.name, "decoded to another type")
	out := printed(p, obj)
	got := parseOut(p, out, f)
	sym.Assert(len(got.vals) == 0 && len(got.kids) == 1, "not one object printed")
	sym.Assert(got.kids[0].sig() == expect(t, o, p, f).sig(), "values missing, added or misplaced in "+t.name)
	// printing again gives the same bytes
	q := *p
	sym.Assert(printed(&q, decoded(o)) == out, "printed differently the second time")
	sym.Assert(printed(p, obj) == out, "printed differently the second time")
}

// C22_full: documents with every field filled.
func C22_full() {
	t := &types_[sym.Choice("type", 10)]
	p := optionsPrinter()
	f := &filler{num: 100, sym: sym.Choice("symbolic", 11)}
	if f.sym == 0 {
		f.same = true
	}
	o := f.object(t, sym.Param("D", 1))
	checkFull(t, o, p, f)
}

// C22_wide: long lists and many unknown fields.
func C22_wide() {
	t := &types_[sym.Choice("type", 10)]
	p := optionsPrinter()
	n := sym.Param("W", 12)
	f := &filler{num: 100, wide: n}
	if sym.Choice("same", 2) == 1 {
		f.same = true
	}
	checkFull(t, f.object(t, 1), p, f)
}

// C22_part: documents in which one kind of field is missing everywhere, or only one object is there.
func C22_part() {
	ts, fds := allFields()
	i := sym.Choice("field", len(fds))
	t, fd := ts[i], fds[i]
	p := optionsPrinter()
	f := &filler{num: 100}
	var o *sym.Node
	if sym.Choice("only", 2) == 1 {
		// only this field
		o = sym.Obj()
		switch fd.kind {
		case kStr:
			if fd.js == "objectClassName" {
				return
			}
			o.Set(fd.js, f.mark())
		case kStrs:
			o.Set(fd.js, sym.Arr(f.mark(), sym.Str(""), f.mark()))
		case kBool:
			o.Set(fd.js, sym.Bln(sym.Fork(sym.Bool("b"))))
		case kU8, kU16, kU32, kU64:
			o.Set(fd.js, sym.Num([]float64{0, 1, 255, []float64{254, 65535, 4294967295, 4503599627370497}[fd.kind-kU8], 257}[sym.Choice("num", 5-b2i(fd.kind == kU8))]))
		case kPtr:
			o.Set(fd.js, f.object(typeNamed(fd.sub), 1))
		case kList:
			o.Set(fd.js, sym.Arr(f.object(typeNamed(fd.sub), 1), f.object(typeNamed(fd.sub), 0)))
		case kCard:
			return
		}
	} else {
		if fd.js == "objectClassName" || fd.js == "errorCode" || strings.HasSuffix(fd.js, "SearchResults") {
			return
		}
		f.skip = fd.js
		o = f.object(t, 1)
	}
	// the document around it
	top := t
	doc := o
	for top.parent != "" {
		pr := sym.Obj()
		if top.via.kind == kList {
			pr.Set(top.via.js, sym.Arr(doc))
		} else {
			pr.Set(top.via.js, doc)
		}
		doc, top = pr, typeNamed(top.parent)
	}
	discriminate(top, doc)
	checkFull(top, doc, p, f)
}

// C22_unknown: unknown fields are printed in sorted order, whatever the map order.
func C22_unknown() {
	t := &types_[sym.Choice("type", len(types_))]
	p := &rdap.Printer{BriefOutput: sym.Choice("brief", 2) == 1}
	if p.BriefOutput {
		for u := t; u.parent != ""; u = typeNamed(u.parent) {
			if hasStr(briefOut, u.via.js) {
				return
			}
		}
	}
	o := sym.Obj()
	var keys []string
	n := sym.Param("N", 2)
	for i := 0; i < n; i++ {
		k := "x" + textIn("k", 1, "aAb-0z") + []string{"", "q"}[sym.Choice("kl", 2)]
		for _, j := range keys {
			sym.Assume(j != k)
		}
		keys = append(keys, k)
		switch sym.Choice("kind", sym.Param("K", 6)) {
		case 0:
			o.Set(k, sym.Str(k))
		case 1:
			o.Set(k, sym.Obj().Set("b", sym.Str(k)).Set("a", sym.Str("v")))
		case 2:
			o.Set(k, sym.Nul())
		case 3:
			o.Set(k, sym.Arr(sym.Nul()))
		case 4:
			o.Set(k, sym.Num(0))
		case 5:
			o.Set(k, sym.Bln(false))
		}
	}
	doc := sym.JSON(wrap(t, o))
	res, err := rdap.NewDecoder(doc).Decode()
	sym.Assert(err == nil, "decoding failed")
	out := printed(p, res)
	if t.name == "Error" {
		out = dropErrorCode(out)
	}
	ls := linesOf(out)
	lv := levelOf(t)
	last := ""
	cnt := 0
	for i := lv; i < len(ls); i++ {
		l := ls[i]
		pre := ind(p, lv)
		sym.Assert(strings.HasPrefix(l, pre), "unknown field indented wrongly")
		if strings.HasPrefix(l, ind(p, lv+1)) {
			// inside an object: a before b
			sym.Assert(strings.HasPrefix(l[len(ind(p, lv+1)):], "a: v"), "nested fields not sorted")
			i++
			sym.Assert(i < len(ls) && strings.HasPrefix(ls[i], ind(p, lv+1)+"b: "), "nested fields not sorted")
			sym.Assert(ls[i][len(ind(p, lv+1))+3:] == last, "nested value altered")
			continue
		}
		k := l[len(pre):]
		k = k[:strings.IndexByte(k, ':')]
		sym.Assert(last < k, "unknown fields not sorted")
		last = k
		cnt++
	}
	sym.Assert(cnt == n, "unknown field lost or repeated")
}

// C22_many: many unknown fields, in any type, are all printed in order.
func C22_many() {
	t := &types_[sym.Choice("type", len(types_))]
	p := &rdap.Printer{}
	n := sym.Param("N", 24)
	o := sym.Obj()
	at := sym.Choice("at", 4) * (n - 1) / 3
	var keys []string
	for i := 0; i < n; i++ {
		k := "x" + strconv.Itoa(100+i*7%n)
		if i == at {
			k += textIn("k", upTo("kl", 1), "aZ0 -")
		}
		keys = append(keys, k)
		o.Set(k, sym.Str("v"+k))
	}
	out := printed(p, decoded(wrap(t, o)))
	if t.name == "Error" {
		out = dropErrorCode(out)
	}
	ls := linesOf(out)
	lv := levelOf(t)
	sym.Assert(len(ls) == lv+n, "unknown field lost or repeated")
	last := ""
	for _, l := range ls[lv:] {
		pre := ind(p, lv)
		sym.Assert(strings.HasPrefix(l, pre), "unknown field indented wrongly")
		k := l[len(pre):]
		k = k[:strings.IndexByte(k, ':')]
		sym.Assert(l == pre+k+": v"+k, "unknown field altered")
		sym.Assert(last < k, "unknown fields not sorted")
		last = k
		ok := false
		for _, x := range keys {
			ok = sym.Or(ok, x == k)
		}
		sym.Assert(ok, "unknown field invented")
	}
}

// C22_manual: objects that were not decoded.
func C22_manual() {
	h := text("h", upTo("hl", 1))
	link := rdap.Link{Href: "l1", Title: "l2", HrefLang: []string{"l3"}}
	notice := rdap.Notice{Title: "n1", Description: []string{"n2"}, Links: []rdap.Link{link}}
	var obj any
	want := 0
	switch sym.Choice("what", 13) {
	case 0:
		obj = &rdap.Domain{Handle: h, Notices: []rdap.Notice{notice}, SecureDNS: &rdap.SecureDNS{DS: []rdap.DSData{{}}, Keys: []rdap.KeyData{{}}}, Network: &rdap.IPNetwork{}, Variants: []rdap.Variant{{VariantNames: []rdap.VariantName{{}}}}}
		want = 1 + 3 + 4 + 3 + 1 + 2
	case 1:
		obj = &rdap.Entity{Handle: h, VCard: &rdap.VCard{}, Entities: []rdap.Entity{{}}, Autnums: []rdap.Autnum{{}}, AsEventActor: []rdap.Event{{}}}
		want = 4
	case 2:
		obj = &rdap.Nameserver{Handle: h, IPAddresses: &rdap.IPAddressSet{V4: []string{"a"}}}
		want = 3
	case 3:
		obj = &rdap.IPNetwork{Handle: h, Links: []rdap.Link{link}}
		want = 5
	case 4:
		obj = &rdap.Autnum{Handle: h, Remarks: []rdap.Remark{{Title: "r"}}}
		want = 3
	case 5:
		obj = &rdap.Error{Title: h}
		want = 1
	case 6:
		obj = &rdap.Help{Notices: []rdap.Notice{notice}}
		want = 1 + 3 + 4
		h = ""
	case 7:
		obj = &rdap.DomainSearchResults{Domains: []rdap.Domain{{Handle: h}}}
		want = 2
	case 8:
		obj = &rdap.EntitySearchResults{Entities: []rdap.Entity{{Handle: h}}}
		want = 2
	case 9:
		obj = &rdap.NameserverSearchResults{Nameservers: []rdap.Nameserver{{Handle: h}}}
		want = 2
	case 10:
		obj = nil
		h = ""
	case 11:
		obj = "text"
		h = ""
	case 12:
		obj = rdap.Domain{}
		h = ""
	}
	ls := linesOf(printed(&rdap.Printer{}, obj))
	if h != "" {
		want++
		ok := false
		for _, l := range ls {
			if strings.HasPrefix(l, "  ") && strings.HasSuffix(l, ": "+clean(h)) {
				ok = true
			}
		}
		sym.Assert(ok, "value not printed")
	}
	sym.Assert(len(ls) == want, "wrong number of lines for an object that was not decoded")
}
