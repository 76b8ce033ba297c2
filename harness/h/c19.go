package h

import (
	"strconv"
	"strings"

	"github.com/openrdap/rdap"

	"verifharness/sym"
)

func init() {
	All["C19_doc"] = Spec{F: C19_doc}
	All["C19_value"] = Spec{F: C19_value}
	All["C19_many"] = Spec{F: C19_many}
	All["C20_many"] = Spec{F: C20_many}
	All["C19_top"] = Spec{F: C19_top}
	All["C19_raw"] = Spec{F: C19_raw}
	All["C20_text"] = Spec{F: C20_text}
	All["C20_tel"] = Spec{F: C20_tel}
	All["C20_adr"] = Spec{F: C20_adr}
}

func isArr(n *sym.Node) bool { return n.Kind == sym.Array }

// valueDepth is the number of lists around the deepest scalar, 99 if there is an object.
func valueDepth(n *sym.Node) int {
	switch n.Kind {
	case sym.Object:
		return 99
	case sym.Array:
		d := 0
		for _, x := range n.A {
			if e := valueDepth(x); e > d {
				d = e
			}
		}
		return d + 1
	}
	return 0
}

func propValue(p *sym.Node) *sym.Node {
	if len(p.A) == 4 {
		return p.A[3]
	}
	return sym.Arr(p.A[3:]...)
}

func validProp(p *sym.Node) bool {
	return isArr(p) && len(p.A) >= 4 && p.A[0].Kind == sym.String && p.A[1].Kind == sym.Object && p.A[2].Kind == sym.String && valueDepth(propValue(p)) <= 3
}

func scalarText(n *sym.Node) string {
	switch n.Kind {
	case sym.Boolean:
		if n.B {
			return "true"
		}
		return "false"
	case sym.Number:
		return strconv.FormatFloat(n.F, 'f', -1, 64)
	case sym.String:
		return n.S
	}
	return ""
}

func flatNode(n *sym.Node) []string {
	if !isArr(n) {
		return []string{scalarText(n)}
	}
	var out []string
	for _, x := range n.A {
		out = append(out, flatNode(x)...)
	}
	return out
}

// paramTexts gives a parameter's texts.
func paramTexts(n *sym.Node) []string {
	if n.Kind == sym.String {
		return []string{n.S}
	}
	var out []string
	if isArr(n) {
		for _, x := range n.A {
			if x.Kind == sym.String {
				out = append(out, x.S)
			}
		}
	}
	return out
}

func checkProp(got *rdap.VCardProperty, p *sym.Node) {
	sym.Assert(got.Name == p.A[0].S, "property name altered")
	sym.Assert(got.Type == p.A[2].S, "property type altered")
	v := propValue(p)
	sym.Assert(rawEq(got.Value, v), "property value altered")
	sym.Assert(sameStrs(got.Values(), flatNode(v)), "flattened values wrong")
	n := 0
	for i, k := range p.A[1].K {
		want := paramTexts(p.A[1].A[i])
		if len(want) > 0 {
			n++
		}
		sym.Assert(sameStrs(got.Parameters[k], want), "parameter altered")
	}
	sym.Assert(len(got.Parameters) == n, "parameter added")
}

// checkCard decodes a document in all three ways.
func checkCard(doc *sym.Node) {
	top := isArr(doc) && len(doc.A) == 2 && doc.A[0].Kind == sym.String && isArr(doc.A[1])
	if top && !sym.Fork(doc.A[0].S == "vcard") {
		top = false
	}
	var good []*sym.Node
	all := top
	if top {
		for _, p := range doc.A[1].A {
			if validProp(p) {
				good = append(good, p)
			} else {
				all = false
			}
		}
	}
	b := sym.JSON(doc)
	mode := sym.Choice("mode", 4)
	var c *rdap.VCard
	var err error
	switch mode {
	case 0:
		c, err = rdap.NewVCard(b)
	case 1:
		c, err = rdap.NewVCardWithOptions(b, rdap.VCardOptions{})
	case 2:
		c, err = rdap.NewVCardWithOptions(b, rdap.VCardOptions{IgnoreInvalidProperties: true})
	case 3:
		res, e := rdap.NewDecoder(sym.JSON(sym.Obj().Set("objectClassName", sym.Str("entity")).Set("vcardArray", doc))).Decode()
		sym.Assert(e == nil, "entity rejected because of its card")
		ent, ok := res.(*rdap.Entity)
		sym.Assert(ok, "not an entity")
		c = ent.VCard
		notes := len(ent.DecodeData.Notes("vcardArray"))
		sym.Assert((notes > 0) == (c == nil), "card missing without a note, or noted although kept")
	}
	want := top && (all || mode == 2)
	if mode != 3 {
		sym.Assert((err == nil) == want, "card accepted or rejected wrongly")
	}
	sym.Assert((c != nil) == want, "card returned or missing wrongly")
	if !want {
		sym.Cover("rejected")
		return
	}
	sym.Assert(len(c.Properties) == len(good), "wrong number of properties")
	for i, p := range good {
		checkProp(c.Properties[i], p)
	}
	_ = c.String()
	// Get and GetFirst
	for i, p := range good {
		ps := c.Get(p.A[0].S)
		var same []*rdap.VCardProperty
		for j, q := range good {
			if sym.Fork(q.A[0].S == p.A[0].S) {
				same = append(same, c.Properties[j])
			}
		}
		ok := len(ps) == len(same)
		for k := range same {
			ok = ok && ps[k] == same[k]
		}
		sym.Assert(ok, "Get returns other properties")
		sym.Assert(c.GetFirst(p.A[0].S) == same[0], "GetFirst returns another property")
		_ = i
	}
	sym.Assert(c.Get("none such") == nil || len(c.Get("none such")) == 0, "Get invents a property")
	sym.Assert(c.GetFirst("none such") == nil, "GetFirst invents a property")
	sym.Cover("accepted")
}

func nest(n *sym.Node, d int) *sym.Node {
	for ; d > 0; d-- {
		n = sym.Arr(n)
	}
	return n
}

// junk is a value of any JSON type.
func junk(name string) *sym.Node {
	switch sym.Choice(name, 7) {
	case 0:
		return sym.Nul()
	case 1:
		return sym.Bln(sym.Bool("jb"))
	case 2:
		return sym.Num([]float64{0, -1.5, 1e21, 0.1, 16777217}[sym.Choice("jn", 5)])
	case 3:
		return sym.Str(text("js", 1))
	case 4:
		return sym.Arr()
	case 5:
		return sym.Arr(sym.Str(text("js", 1)), sym.Nul())
	}
	return sym.Obj().Set("a", sym.Str("b"))
}

func property(name string) *sym.Node {
	p := sym.Arr(sym.Str("n"+text("name", 1)), sym.Obj(), sym.Str(text("type", 1)), sym.Str(text("v", 1)))
	switch sym.Choice(name, 9) {
	case 0:
	case 1: // not a list
		return junk("whole")
	case 2: // shorter
		p.A = p.A[:upTo("cut", 3)]
	case 3:
		p.A[0] = junk("pname")
	case 4:
		p.A[1] = junk("params")
	case 5:
		p.A[2] = junk("ptype")
	case 6:
		p.A[3] = nest(junk("pval"), upTo("deep", 4))
	case 7: // several values
		for k := 1 + upTo("more", 1); k > 0; k-- {
			p.A = append(p.A, nest(junk("pval"), upTo("deep", 3)))
		}
	case 8:
		for k := 1 + upTo("np", 1); k > 0; k-- {
			v := sym.Str(text("pv", upTo("pvl", 1)))
			switch sym.Choice("pkind", 6) {
			case 1:
				v = sym.Arr(v)
			case 2:
				v = sym.Arr(v, sym.Str(text("pv", 1)))
			case 3:
				v = sym.Arr(sym.Num(1), v, sym.Nul(), sym.Arr(sym.Str("x")))
			case 4:
				v = sym.Num(1)
			case 5:
				v = sym.Obj()
			}
			p.A[1].Set([]string{"a", "type"}[k%2], v)
		}
	}
	return p
}

// C19_doc: cards of up to NP properties, each of any shape.
func C19_doc() {
	props := sym.Arr()
	for n := upTo("props", sym.Param("NP", 1)); n > 0; n-- {
		props.A = append(props.A, property("shape"))
	}
	// a good one before or after
	good := sym.Arr(sym.Str("fn"), sym.Obj(), sym.Str("text"), sym.Str("x"))
	switch sym.Choice("extra", 3) {
	case 1:
		props.A = append(props.A, good)
	case 2:
		props.A = append([]*sym.Node{good}, props.A...)
	}
	checkCard(sym.Arr(sym.Str("vcard"), props))
}

// val is an arbitrary value tree.
func val(d, w int) *sym.Node {
	k := sym.Choice("kind", 6)
	switch k {
	case 0:
		return sym.Str(text("s", 1))
	case 1:
		return sym.Num(16777217.1)
	case 2:
		return sym.Nul()
	case 3:
		return sym.Bln(true)
	case 4:
		if d > 0 {
			return sym.Obj()
		}
		return sym.Nul()
	}
	a := sym.Arr()
	if d > 0 {
		for n := upTo("w", w); n > 0; n-- {
			a.A = append(a.A, val(d-1, w))
		}
	}
	return a
}

// C19_value: value trees.
func C19_value() {
	p := sym.Arr(sym.Str("x"), sym.Obj(), sym.Str("text"), val(sym.Param("D", 2), sym.Param("W", 2)))
	if sym.Choice("two", 2) == 1 {
		p.A = append(p.A, sym.Str("last"))
	}
	checkCard(sym.Arr(sym.Str("vcard"), sym.Arr(p)))
}

// C19_many: large cards.
func C19_many() {
	n := sym.Param("N", 30)
	props := sym.Arr()
	at := sym.Choice("at", n)
	for i := 0; i < n; i++ {
		nm := "n" + strconv.Itoa(i%7)
		p := sym.Arr(sym.Str(nm), sym.Obj().Set("type", sym.Strs("a", "b")), sym.Str("text"), sym.Str("v"+strconv.Itoa(i)))
		if i == at {
			switch sym.Choice("odd", 6) {
			case 0:
				p.A[0] = sym.Str(text("name", 1))
			case 1:
				p = sym.Nul()
			case 2:
				p.A = p.A[:3]
			case 3: // a wide value
				p.A[3] = sym.Arr()
				for k := 0; k < n; k++ {
					p.A[3].A = append(p.A[3].A, sym.Str("w"+strconv.Itoa(k)))
				}
				in := sym.Arr()
				for k := 0; k < n; k++ {
					in.A = append(in.A, sym.Str("i"+strconv.Itoa(k)))
				}
				p.A[3].A[n/2-1] = in
				p.A[3].A[n/2] = sym.Arr(sym.Str(text("v", 1)), sym.Num(1), sym.Arr(sym.Str("deep")))
			case 4: // many values
				for k := 0; k < n; k++ {
					p.A = append(p.A, sym.Str("w"+strconv.Itoa(k)))
				}
			case 5: // many parameters
				l := sym.Arr()
				for k := 0; k < n; k++ {
					l.A = append(l.A, sym.Str("w"+strconv.Itoa(k)))
					p.A[1].Set("p"+strconv.Itoa(k), sym.Str(strconv.Itoa(k)))
				}
				l.A[n-2] = sym.Str(text("pv", 1))
				p.A[1].Set("long", l)
			}
		}
		props.A = append(props.A, p)
	}
	checkCard(sym.Arr(sym.Str("vcard"), props))
}

// C19_top: top level shapes.
func C19_top() {
	good := sym.Arr(sym.Arr(sym.Str("fn"), sym.Obj(), sym.Str("text"), sym.Str("x")))
	tag := sym.Str("vcard")
	switch sym.Choice("tag", 5) {
	case 1:
		tag = sym.Str(text("t", upTo("tlen", 1)))
	case 2:
		tag = junk("tagjunk")
	case 3:
		tag = sym.Str("vcard" + text("t", 1))
	case 4:
		b := []byte("vcard")
		c := sym.Byte("c")
		sym.Assume(c < 0x80)
		b[sym.Choice("pos", 5)] = c
		tag = sym.Str(string(b))
	}
	switch sym.Choice("top", 6) {
	case 0:
		checkCard(sym.Arr(tag, good))
	case 1:
		checkCard(sym.Arr(tag))
	case 2:
		checkCard(sym.Arr(tag, good, junk("third")))
	case 3:
		checkCard(sym.Arr(tag, junk("props")))
	case 4:
		checkCard(junk("doc"))
	case 5:
		checkCard(sym.Arr(good, tag))
	}
}

// C19_raw: text that is not JSON.
func C19_raw() {
	var b []byte
	good := `["vcard",[["fn",{"type":["a","b"]},"text","x\u0041"],["n",{},"text",["",1,null,true]]]]`
	switch sym.Choice("form", 4) {
	case 0:
		b = []byte(bytesN("raw", upTo("len", sym.Param("L", 3))))
	case 1:
		b = []byte(good[:sym.Choice("cut", len(good))])
	case 2:
		b = []byte(good + bytesN("tail", 2))
	case 3:
		b = []byte(good)
		b[sym.Choice("pos", len(b))] = sym.Byte("c")
	}
	c, err := rdap.NewVCardWithOptions(b, rdap.VCardOptions{IgnoreInvalidProperties: sym.Choice("ign", 2) == 1})
	sym.Assert((err == nil) == (c != nil), "both or neither of card and error")
	if err == nil {
		sym.Assert(b[0] == '[' || isWS(b[0]), "accepted although not a list")
		for _, p := range c.Properties {
			p.Values()
		}
	}
}

// ---- accessors ----

func newCard(ps ...*sym.Node) *rdap.VCard {
	c, err := rdap.NewVCard(sym.JSON(sym.Arr(sym.Str("vcard"), sym.Arr(ps...))))
	sym.Assert(err == nil && c != nil, "valid card rejected")
	return c
}

// shape is a property value of several shapes.
func shape(name string) *sym.Node {
	switch sym.Choice(name, 8) {
	case 0:
		return sym.Str("p" + text("v", 1))
	case 1:
		return sym.Str("")
	case 2:
		return sym.Nul()
	case 3:
		return sym.Arr()
	case 4:
		return sym.Arr(sym.Str("q"+text("v", 1)), sym.Str("r"))
	case 5:
		return sym.Num(12)
	case 6:
		return sym.Bln(sym.Bool("vb"))
	}
	return sym.Arr(sym.Arr(sym.Str("s"), sym.Nul()), sym.Str("t"+text("v", 1)))
}

// firstOf finds the first property with a name.
func firstOf(ps []*sym.Node, name string) *sym.Node {
	for _, p := range ps {
		if sym.Fork(p.A[0].S == name) {
			return p
		}
	}
	return nil
}

// C20_text: name, email and organisation.
func C20_text() {
	names := []string{"fn", "email", "org", "tel", "adr", "n", "FN", "?"}
	var ps []*sym.Node
	for n := upTo("props", sym.Param("NP", 2)); n > 0; n-- {
		nm := names[sym.Choice("name", len(names))]
		if nm == "?" {
			nm = text("any", 1+upTo("alen", 2))
		}
		p := sym.Arr(sym.Str(nm), sym.Obj().Set("type", sym.Str("voice")), sym.Str("text"), shape("val"))
		if sym.Choice("two", 2) == 1 {
			p.A = append(p.A, sym.Str("z"))
		}
		ps = append(ps, p)
	}
	c := newCard(ps...)
	for _, a := range []struct {
		prop string
		got  string
	}{{"fn", c.Name()}, {"email", c.Email()}, {"org", c.Org()}} {
		p := firstOf(ps, a.prop)
		if p == nil {
			sym.Assert(a.got == "", "text of a property that is not there")
			continue
		}
		sym.Assert(a.got == strings.Join(flatNode(propValue(p)), " "), "wrong text for "+a.prop)
		sym.Cover(a.prop)
	}
	if firstOf(ps, "tel") == nil {
		sym.Assert(c.Tel() == "" && c.Fax() == "", "telephone number out of nothing")
	}
	if firstOf(ps, "adr") == nil {
		sym.Assert(c.POBox()+c.ExtendedAddress()+c.StreetAddress()+c.Locality()+c.Region()+c.PostalCode()+c.Country() == "", "address out of nothing")
	}
}

// C20_tel: telephone and fax numbers.
func C20_tel() {
	var ps []*sym.Node
	tel, fax := "", ""
	tset, fset := false, false
	for n := upTo("props", sym.Param("NP", 3)); n > 0; n-- {
		nm := []string{"tel", "fax", "Tel", "voice"}[pick("name", 4)]
		o := sym.Obj()
		types := []string(nil)
		few := sym.Param("FEW", 0) == 1
		var kind int
		if few {
			kind = []int{0, 1, 2, 4, 7}[sym.Choice("types", 5)]
		} else {
			kind = sym.Choice("types", 8)
		}
		switch kind {
		case 0:
		case 1:
			types = []string{"voice"}
		case 2:
			types = []string{"fax"}
		case 3:
			types = []string{"work", "voice"}
		case 4:
			types = []string{"fax", "voice"}
		case 5:
			types = []string{textIn("ty", 3, "faxFXvoice")}
		case 6:
			types = []string{"work", "fax" + text("ty", upTo("tyl", 1))}
		case 7: // present but without text
			o.Set("type", sym.Arr())
		}
		if !few && len(types) == 1 && sym.Choice("single", 2) == 1 {
			o.Set("type", sym.Str(types[0]))
		} else if len(types) > 0 {
			o.Set("type", sym.Strs(types...))
		}
		if !few && sym.Choice("other", 2) == 1 {
			o.Set("pref", sym.Str("fax")).Set("TYPE", sym.Str("voice"))
		}
		var v *sym.Node
		switch sym.Choice("val", 4-2*sym.Param("FEW", 0)) {
		case 0:
			v = sym.Str("t" + text("v", 1))
		case 1:
			v = sym.Arr()
		case 2:
			v = sym.Str("")
		case 3:
			v = sym.Arr(sym.Str("u"), sym.Str("w"))
		}
		ps = append(ps, sym.Arr(sym.Str(nm), o, sym.Str("uri"), v))
		vals := flatNode(v)
		if nm != "tel" || len(vals) == 0 {
			continue
		}
		voice, isfax := len(types) == 0, false
		for _, t := range types {
			if sym.Fork(t == "voice") {
				voice = true
			}
			if sym.Fork(t == "fax") {
				isfax = true
			}
		}
		if voice && !tset {
			tel, tset = vals[0], true
		}
		if isfax && !fset {
			fax, fset = vals[0], true
		}
	}
	c := newCard(ps...)
	sym.Assert(c.Tel() == tel, "wrong telephone number")
	sym.Assert(c.Fax() == fax, "wrong fax number")
	if tset && fset {
		sym.Cover("both")
	}
}

// C20_adr: address components.
func C20_adr() {
	comp := func() *sym.Node {
		switch sym.Choice("comp", 5) {
		case 0:
			return sym.Str(text("c", upTo("clen", 1)))
		case 1:
			return sym.Arr(sym.Str("a"+text("c", 1)), sym.Str("b"))
		case 2:
			return sym.Arr()
		case 3:
			return sym.Num(10)
		}
		return sym.Nul()
	}
	n := upTo("n", 8)
	// up to K components vary, the others are plain
	comps := make([]*sym.Node, n)
	for i := range comps {
		comps[i] = sym.Str("plain" + strconv.Itoa(i))
	}
	for k := sym.Param("K", 2); k > 0 && n > 0; k-- {
		comps[sym.Choice("at", 8)%n] = comp()
	}
	p := sym.Arr(sym.Str("adr"), sym.Obj(), sym.Str("text"))
	want := comps
	switch sym.Choice("form", 3) {
	case 0:
		p.A = append(p.A, sym.Arr(comps...))
	case 1: // as separate values
		if n < 2 {
			return
		}
		p.A = append(p.A, comps...)
	case 2: // a single text
		s := sym.Str(text("c", upTo("clen", 1)))
		p.A = append(p.A, s)
		want = []*sym.Node{s}
	}
	other := sym.Arr(sym.Str("adr"), sym.Obj(), sym.Str("text"), sym.Strs("1", "2", "3", "4", "5", "6", "7"))
	ps := []*sym.Node{p}
	switch sym.Choice("around", 3) {
	case 1:
		ps = append(ps, other)
	case 2:
		other.A[0] = sym.Str("ADR")
		ps = append([]*sym.Node{other}, ps...)
	}
	c := newCard(ps...)
	got := []string{c.POBox(), c.ExtendedAddress(), c.StreetAddress(), c.Locality(), c.Region(), c.PostalCode(), c.Country()}
	for i, g := range got {
		w := ""
		if i < len(want) {
			w = strings.Join(flatNode(want[i]), " ")
		}
		sym.Assert(g == w, "wrong address component")
	}
}

// C20_many: the right property among many.
func C20_many() {
	n := sym.Param("N", 16)
	a, b := sym.Choice("first", n), sym.Choice("second", n)
	var ps []*sym.Node
	want := map[string]string{}
	set := func(k, v string) {
		if _, ok := want[k]; !ok {
			want[k] = v
		}
	}
	nm := []string{"fn", "email", "org", "tel", "telfax", "adr"}[sym.Choice("which", 6)]
	for i := 0; i < n; i++ {
		p := sym.Arr(sym.Str("x"+strconv.Itoa(i)), sym.Obj(), sym.Str("text"), sym.Str("no"))
		if i%3 == 1 { // telephone numbers for something else
			p.A[0] = sym.Str("tel")
			p.A[1].Set("type", sym.Strs("cell", "text"))
		}
		if i == a || i == b {
			s := "v" + strconv.Itoa(i)
			if i == a {
				s += text("s", 1)
			}
			p.A[0], p.A[3] = sym.Str(nm), sym.Str(s)
			p.A[1] = sym.Obj()
			key := nm
			switch nm {
			case "tel":
				p.A[1].Set("type", sym.Strs("cell", "home", "work", "text", "voice"))
			case "telfax":
				p.A[0] = sym.Str("tel")
				p.A[1].Set("type", sym.Strs("cell", "home", "work", "text", "fax"))
			case "adr":
				p.A[3] = sym.Strs("1", "2", "3", "4", "5", s, "7", "8", "9")
			}
			set(key, s)
		}
		ps = append(ps, p)
	}
	c := newCard(ps...)
	got := map[string]string{"fn": c.Name(), "email": c.Email(), "org": c.Org(), "tel": c.Tel(), "telfax": c.Fax(), "adr": c.PostalCode()}
	for k, g := range got {
		sym.Assert(g == want[k], "wrong "+k)
	}
}
