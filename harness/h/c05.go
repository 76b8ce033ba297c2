package h

import (
	"encoding/json"
	"net/url"
	"strconv"
	"strings"

	"github.com/openrdap/rdap/bootstrap"

	"verifharness/sym"
)

func init() {
	All["C05_doc"] = Spec{F: C05_doc}
	All["C05_many"] = Spec{F: C05_many}
	All["C05_url"] = Spec{F: C05_url}
	All["C05_types"] = Spec{F: C05_types}
	All["C05_raw"] = Spec{F: C05_raw}
}

// C05_doc: services of any shape with arbitrary distinct entries.
func C05_doc() {
	ns := upTo("services", sym.Param("NS", 2))
	desc, pub, ver := text("desc", 2), text("pub", 2), text("ver", 1)
	doc := sym.Obj()
	if sym.Choice("head", 2) == 0 {
		doc.Set("description", sym.Str(desc)).Set("publication", sym.Str(pub)).Set("version", sym.Str(ver)).Set("other", sym.Num(7))
	} else {
		desc, pub, ver = "", "", ""
	}
	urlSets := [][]string{
		{"https://a.example/", "http://b.example/x/"},
		{"https://c.example/%zz", "http://d.example"},
		{"http://[bad", "%zz"},
		{},
	}
	wantSets := [][]string{
		{"https://a.example/", "http://b.example/x/"},
		{"http://d.example"},
		nil, nil,
	}
	var ents []string
	var want [][]string
	bad := false
	svcs := sym.Arr()
	for i := 0; i < ns; i++ {
		parts := sym.Choice("parts", 5)
		if parts != 2 && parts != 3 {
			bad = true
		}
		ne := sym.Choice("entries", sym.Param("NE", 2)+1)
		el := sym.Arr()
		u := sym.Choice("urls", len(urlSets))
		for j := 0; j < ne; j++ {
			e := text("entry", 1)
			for _, o := range ents {
				sym.Assume(o != e)
			}
			el.A = append(el.A, sym.Str(e))
			ents = append(ents, e)
			want = append(want, wantSets[u])
		}
		ul := sym.Strs(urlSets[u]...)
		s := sym.Arr()
		switch parts {
		case 1:
			s.A = append(s.A, el)
		case 2:
			s.A = append(s.A, el, ul)
		case 3:
			s.A = append(s.A, sym.Strs("contact@example.com", "x"), el, ul)
		case 4:
			s.A = append(s.A, sym.Strs("c"), el, ul, sym.Strs("d"))
		}
		svcs.A = append(svcs.A, s)
	}
	doc.Set("services", svcs)
	b := sym.JSON(doc)
	keep := append([]byte(nil), b...)
	f, err := bootstrap.NewFile(b)
	if bad {
		sym.Cover("bad")
		sym.Assert(err != nil, "service with a wrong number of parts accepted")
		return
	}
	sym.Assert(err == nil && f != nil, "valid registry file rejected")
	sym.Assert(sym.And(f.Description == desc, f.Publication == pub, f.Version == ver), "header strings not kept")
	sym.Assert(string(f.JSON) == string(keep), "JSON not kept")
	n := 0
	for i, e := range ents {
		us, ok := f.Entries[e]
		if len(want[i]) == 0 {
			sym.Assert(!ok, "entry without any parsable URL present")
			continue
		}
		n++
		sym.Assert(ok, "entry missing")
		sym.Assert(sameStrs(urlStrs(us), want[i]), "entry has other URLs than its service")
	}
	sym.Assert(len(f.Entries) == n, "entries that are not in the file")
	sym.Cover("ok")
	sym.Observe("n", len(f.Entries))
}

// C05_many: many services with long entry and URL lists, arbitrary entry text.
func C05_many() {
	ns, ne, nu := sym.Param("NS", 12), sym.Param("NE", 6), sym.Param("NU", 9)
	svcs := sym.Arr()
	want := map[string][]string{}
	free := text("entry", upTo("len", 2))
	at := sym.Choice("at", ns)
	bad := sym.Choice("badurl", nu+1)
	three := sym.Choice("parts", 2) == 1
	rep := []int{nu, 1, nu - 1}[sym.Choice("repeat", 3)] // a URL listed twice
	for i := 0; i < ns; i++ {
		el, ul := sym.Arr(), sym.Arr()
		var us []string
		for j := 0; j < nu; j++ {
			u := "https://s" + strconv.Itoa(i) + ".example/" + strconv.Itoa(j) + "/"
			if j == rep {
				u = "https://s" + strconv.Itoa(i) + ".example/0/"
			}
			if j == bad {
				ul.A = append(ul.A, sym.Str("http://[bad"))
				continue
			}
			ul.A = append(ul.A, sym.Str(u))
			us = append(us, u)
		}
		for j := 0; j < ne; j++ {
			e := "entry-" + strconv.Itoa(i) + "-" + strconv.Itoa(j)
			if i == at && j == ne-1 {
				e = free
			}
			el.A = append(el.A, sym.Str(e))
			if e != free {
				want[e] = us
			}
		}
		s := sym.Arr(el, ul)
		if three {
			s = sym.Arr(sym.Strs("c@example.com"), el, ul)
		}
		svcs.A = append(svcs.A, s)
	}
	f, err := bootstrap.NewFile(sym.JSON(sym.Obj().Set("services", svcs)))
	sym.Assert(err == nil && f != nil, "valid registry file rejected")
	for e, us := range want {
		sym.Assert(sameStrs(urlStrs(f.Entries[e]), us), "entry has other URLs than its service")
	}
	us, ok := f.Entries[free]
	first := "https://s" + strconv.Itoa(at) + ".example/"
	n := nu
	if bad < nu {
		n--
	}
	sym.Assert(ok && len(us) == n && strings.HasPrefix(us[0].String(), first), "entry missing or with other URLs")
	sym.Assert(len(f.Entries) == ns*ne, "entries that are not in the file")
}

// C05_url: arbitrary text as one of the URLs of a service.
func C05_url() {
	raw := text("url", upTo("len", sym.Param("L", 3)))
	switch sym.Choice("shape", 2) {
	case 1:
		raw = "http://h" + raw
	}
	doc := sym.Obj().Set("services", sym.Arr(
		sym.Arr(sym.Strs("x", "y"), sym.Strs("http://first.example/", raw, "http://last.example/")),
		sym.Arr(sym.Strs("z"), sym.Strs(raw))))
	f, err := bootstrap.NewFile(sym.JSON(doc))
	sym.Assert(err == nil, "file rejected because of a URL")
	u, perr := url.Parse(raw)
	want := []string{"http://first.example/"}
	if perr == nil {
		want = append(want, u.String())
	}
	want = append(want, "http://last.example/")
	sym.Assert(sameStrs(urlStrs(f.Entries["x"]), want), "URLs of the service altered")
	sym.Assert(sameStrs(urlStrs(f.Entries["y"]), want), "URLs of the second entry altered")
	z, ok := f.Entries["z"]
	sym.Assert(ok == (perr == nil), "entry of a service presence")
	if perr == nil {
		sym.Cover("parsable")
		sym.Assert(len(z) == 1 && z[0].String() == u.String(), "URL altered")
	} else {
		sym.Cover("unparsable")
	}
}

// value draws a JSON value of an arbitrary type.
func value(name string) *sym.Node {
	switch sym.Choice(name, 7) {
	case 0:
		return sym.Nul()
	case 1:
		return sym.Bln(sym.Bool(name))
	case 2:
		return sym.Num(float64(sym.Byte(name)))
	case 3:
		return sym.Str(text(name, 1))
	case 4:
		return sym.Arr()
	case 5:
		return sym.Arr(sym.Str(text(name, 1)))
	}
	return sym.Obj().Set("a", sym.Str("b"))
}

// C05_types: a value of a wrong type anywhere is an error, never a panic.
func C05_types() {
	v := value("v")
	doc := sym.Obj()
	where := sym.Choice("where", 9)
	good := func() *sym.Node { return sym.Arr(sym.Strs("e"), sym.Strs("http://u.example/")) }
	ok := false
	switch where {
	case 0, 1, 2:
		doc.Set([]string{"description", "publication", "version"}[where], v).Set("services", sym.Arr(good()))
		ok = v.Kind == sym.String
	case 3:
		doc.Set("services", v)
		ok = v.Kind == sym.Array && len(v.A) == 0
	case 4:
		doc.Set("services", sym.Arr(good(), v))
	case 5:
		doc.Set("services", sym.Arr(good(), sym.Arr(v, sym.Strs("http://w.example/"))))
		ok = v.Kind == sym.Array
	case 6:
		doc.Set("services", sym.Arr(good(), sym.Arr(sym.Strs("f"), v)))
		ok = v.Kind == sym.Array
	case 7:
		doc.Set("services", sym.Arr(good(), sym.Arr(sym.Arr(v), sym.Strs("http://w.example/"))))
		ok = v.Kind == sym.String
	case 8:
		doc = v
		ok = v.Kind == sym.Object
	}
	f, err := bootstrap.NewFile(sym.JSON(doc))
	if v.Kind == sym.Null {
		// null stands for an absent value wherever encoding/json accepts it
		return
	}
	if ok {
		sym.Cover("ok")
		sym.Assert(err == nil && f != nil, "valid file rejected")
		if where < 3 {
			got := []string{f.Description, f.Publication, f.Version}[where]
			sym.Assert(got == v.S, "header string not kept")
		}
		if where <= 7 && where != 3 {
			sym.Assert(sameStrs(urlStrs(f.Entries["e"]), []string{"http://u.example/"}) || where == 7 || where == 5, "other service disturbed")
		}
	} else {
		sym.Cover("error")
		sym.Assert(err != nil, "a file that is not a registry document is accepted")
	}
}

// C05_raw: damaged text of a valid file.
func C05_raw() {
	good := `{"services":[[["a"],["http://u.example/"]]],"version":"1"}`
	var b []byte
	ok := false
	switch sym.Choice("damage", 4) {
	case 0: // truncated, with an arbitrary last byte
		n := sym.Choice("cut", len(good))
		b = append([]byte(good[:n]), sym.Byte("b"))
		ok = n > 0 && json.Valid(b)
	case 1: // arbitrary bytes after the end
		b = append([]byte(good), sym.Byte("b"), sym.Byte("b"))
		ok = sym.And(isWS(b[len(good)]), isWS(b[len(good)+1]))
	case 2: // one arbitrary byte inside
		n := sym.Choice("at", len(good))
		b = append([]byte(nil), good...)
		b[n] = sym.Byte("b")
		f, err := bootstrap.NewFile(b)
		if !json.Valid(b) {
			sym.Assert(err != nil, "text that is not JSON accepted")
		} else if b[n] == good[n] {
			sym.Assert(err == nil && len(f.Entries) == 1, "valid file rejected")
		}
		return
	case 3: // short arbitrary text
		n := upTo("len", sym.Param("L", 3))
		b = []byte(bytesN("b", n))
		i, j := 0, len(b)
		for i < j && sym.Fork(isWS(b[i])) {
			i++
		}
		for j > i && sym.Fork(isWS(b[j-1])) {
			j--
		}
		ok = false
		if j-i >= 2 && sym.Fork(sym.And(b[i] == '{', b[j-1] == '}')) {
			ok = true
			for k := i + 1; k < j-1; k++ {
				if !sym.Fork(isWS(b[k])) {
					ok = false
				}
			}
		}
	}
	keep := string(b)
	f, err := bootstrap.NewFile(b)
	if ok {
		sym.Cover("ok")
		sym.Assert(err == nil && f != nil, "valid file rejected")
		sym.Assert(string(f.JSON) == keep, "JSON not kept")
	} else {
		sym.Cover("error")
		sym.Assert(err != nil, "damaged text accepted")
	}
}

func isWS(b byte) bool { return sym.Or(b == ' ', b == '\n', b == '\t', b == '\r') }

// bytesN draws n arbitrary bytes.
func bytesN(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = sym.Byte(name)
	}
	return string(b)
}
