package h

import (
	"net/url"
	"reflect"
	"strings"

	"github.com/openrdap/rdap"

	"verifharness/sym"
)

func init() {
	All["C29_decode"] = Spec{F: C29_decode}
	All["C29_unfit"] = Spec{F: C29_unfit}
	All["C29_use"] = Spec{F: C29_use}
	All["C29_readers"] = Spec{F: C29_readers}
}

// sampleDoc is a document with an object of type t, and a check of its decoded form.
func sampleDoc(t *typeSpec, tag string, full bool) ([]byte, func(res any)) {
	o := sym.Obj()
	var checks []func(reflect.Value) bool
	var fds []fieldSpec
	for i, fd := range t.fields {
		if fd.js == "objectClassName" || !full && i > 4 && fd.kind != kPtr {
			continue
		}
		n, c := sampleValue(fd, tag)
		o.Set(fd.js, n)
		fds, checks = append(fds, fd), append(checks, c)
	}
	o.Set("x-"+tag, sym.Str("u"+tag))
	return sym.JSON(wrap(t, o)), func(res any) {
		v := locate(t, res)
		checkData(t, v, o)
		for i, fd := range fds {
			sym.Assert(checks[i](v.FieldByName(fd.gf)), "documented field not filled: "+t.name+"."+fd.js)
		}
	}
}

// pairOf picks the types decoded by the two goroutines.
func pairOf() (a, b *typeSpec) {
	i := sym.Choice("type", len(types_))
	j := i
	if k := sym.Choice("other", 1+sym.Param("OTHER", 2)); k > 0 {
		j = (i + 1 + (k-1)*7) % len(types_)
	}
	return &types_[i], &types_[j]
}

// C29_decode: two goroutines decode at once.
func C29_decode() {
	ta, tb := pairOf()
	da, ca := sampleDoc(ta, "a", true)
	db, cb := sampleDoc(tb, "b", false)
	if ta == tb && sym.Choice("same", 2) == 1 {
		// the same document, in the same memory
		db, cb = da, ca
		sym.Shared(da)
	}
	var ra, rb any
	var ea, eb error
	sym.Concurrent(func() { ra, ea = rdap.NewDecoder(da).Decode() }, func() { rb, eb = rdap.NewDecoder(db).Decode() })
	sym.Assert(ea == nil && eb == nil, "decoding failed")
	ca(ra)
	cb(rb)
}

// C29_unfit: two goroutines decode documents full of values that do not fit.
func C29_unfit() {
	ta, tb := pairOf()
	mk := func(t *typeSpec, name string) []byte {
		k := sym.Choice(name, 6)
		o := sym.Obj().Set("x-"+name, sym.Num(1))
		for _, fd := range t.fields {
			if fd.js == "objectClassName" {
				continue
			}
			o.Set(fd.js, []*sym.Node{sym.Num(1.5), sym.Arr(sym.Num(-1), sym.Str("s"), sym.Nul()), sym.Str("99999999999"), sym.Obj().Set("x", sym.Bln(true)), sym.Obj(), sym.Arr(sym.Obj(), sym.Obj().Set("handle", sym.Str("h")))}[k])
		}
		return sym.JSON(wrap(t, o))
	}
	da, db := mk(ta, "a"), mk(tb, "b")
	var ra, rb any
	var ea, eb error
	sym.Concurrent(func() { ra, ea = rdap.NewDecoder(da).Decode() }, func() { rb, eb = rdap.NewDecoder(db).Decode() })
	sa, fa := rdap.NewDecoder(da).Decode()
	sb, fb := rdap.NewDecoder(db).Decode()
	sym.Assert((ea == nil) == (fa == nil) && (eb == nil) == (fb == nil), "one goroutine's decoding fails because of the other")
	sym.Assert(ea != nil || reflect.DeepEqual(ra, sa), "result differs from that of a goroutine on its own")
	sym.Assert(eb != nil || reflect.DeepEqual(rb, sb), "result differs from that of a goroutine on its own")
}

func use(doc []byte) (res any, out, whois string) {
	res, err := rdap.NewDecoder(doc).Decode()
	if err != nil {
		return nil, "", ""
	}
	out = printedWith(&rdap.Printer{}, res)
	if e, ok := res.(*rdap.Entity); ok && e.VCard != nil {
		out += e.VCard.Name() + e.VCard.Tel() + e.VCard.StreetAddress() + e.VCard.String()
	}
	resp := &rdap.Response{Object: res}
	w := resp.ToWhoisStyleResponse()
	return res, out, strings.Join(w.KeyDisplayOrder, ",")
}

func printedWith(p *rdap.Printer, obj any) string {
	var sb strings.Builder
	p.Writer = &sb
	p.Print(obj)
	return sb.String()
}

// C29_use: two goroutines decode and print at once.
func C29_use() {
	ta, tb := pairOf()
	da, ca := sampleDoc(ta, "=", true)
	db, cb := sampleDoc(tb, "=", true)
	var ra, rb any
	var oa, ob, wa, wb string
	sym.Concurrent(func() { ra, oa, wa = use(da) }, func() { rb, ob, wb = use(db) })
	sym.Assert(ra != nil && rb != nil, "decoding failed")
	ca(ra)
	cb(rb)
	_, sa, va := use(da)
	_, sb, vb := use(db)
	sym.Assert(oa == sa && ob == sb, "text output differs from that of a goroutine on its own")
	sym.Assert(wa == va && wb == vb, "WHOIS output differs from that of a goroutine on its own")
}

// C29_readers: two goroutines read the same decoded response and request.
func C29_readers() {
	ta, _ := pairOf()
	da, ca := sampleDoc(ta, "=", true)
	res, err := rdap.NewDecoder(da).Decode()
	sym.Assert(err == nil, "decoding failed")
	req := rdap.NewDomainRequest("x" + text("q", 1))
	if sym.Choice("server", 2) == 1 {
		req = req.WithServer(&url.URL{Scheme: "https", Host: "h", Path: "/p", RawQuery: "a=b"})
	}
	read := func() (string, string, string) {
		out := printedWith(&rdap.Printer{}, res)
		if e, ok := res.(*rdap.Entity); ok && e.VCard != nil {
			out += e.VCard.Name() + e.VCard.Tel() + e.VCard.StreetAddress() + e.VCard.String()
		}
		w := (&rdap.Response{Object: res}).ToWhoisStyleResponse()
		dd := decodeData(reflect.ValueOf(res).Elem())
		for _, f := range dd.Fields() {
			dd.Value(f)
			dd.Notes(f)
		}
		dd.UnknownFields()
		u := ""
		if x := req.URL(); x != nil {
			u = x.String()
		}
		return out, strings.Join(w.KeyDisplayOrder, ","), u
	}
	sym.Shared(res)
	sym.Shared(req)
	var o [2]string
	var w [2]string
	var u [2]string
	sym.Concurrent(func() { o[0], w[0], u[0] = read() }, func() { o[1], w[1], u[1] = read() })
	ca(res)
	sym.Assert(o[0] == o[1] && w[0] == w[1] && u[0] == u[1], "readers of the same response disagree")
}
