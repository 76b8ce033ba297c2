package h

import (
	"github.com/openrdap/rdap/bootstrap"

	"verifharness/sym"
)

func init() {
	All["C05_file"] = Spec{F: C05_file}
}

// C05_file: the registry constructors accept what NewFile accepts, and File()
// shows the document as it is in the file, also after lookups.
func C05_file() {
	k := sym.Choice("kind", 5)
	good := []string{"AS1-AS9", "cOm", "10.0.0.0/8", "2001:DB8::/32", "TaG"}
	hit := []string{"AS5", "x.com", "10.1.2.3", "2001:db8::1", "1-TaG"}
	// The entries: a usable one, one of any text, and one that is often unusable.
	free := text("entry", upTo("len", 2))
	ents := []string{good[k%5], free, good[(k+1)%5]}
	sym.Assume(free != "")
	svc := func(e, u []string) *sym.Node { return sym.Arr(sym.Strs(e...), sym.Strs(u...)) }
	us := [][]string{{"https://A.example/x/", "http://b.example"}, {"http://c.example/"}}
	doc := sym.Obj().Set("description", sym.Str("d")).Set("publication", sym.Str("p")).Set("version", sym.Str("1.0"))
	shape := sym.Choice("shape", 4)
	switch shape {
	case 0:
		doc.Set("services", sym.Arr(svc(ents[:2], us[0]), svc(ents[2:], us[1])))
	case 1:
		doc.Set("services", sym.Arr(sym.Arr(sym.Strs("c"), sym.Strs(ents[:2]...), sym.Strs(us[0]...)), svc(ents[2:], us[1])))
	case 2:
		doc.Set("services", sym.Arr(svc(ents, us[0]), sym.Arr(sym.Strs("e"))))
	case 3:
		doc.Set("services", sym.Str("none"))
	}
	b := sym.JSON(doc)
	keep := string(b)
	var reg bootstrap.Registry
	var err error
	var file func() *bootstrap.File
	switch k {
	case 0:
		r, e := bootstrap.NewASNRegistry(b)
		if err = e; e == nil {
			reg, file = r, r.File
		}
	case 1:
		r, e := bootstrap.NewDNSRegistry(b)
		if err = e; e == nil {
			reg, file = r, r.File
		}
	case 2, 3:
		r, e := bootstrap.NewNetRegistry(b, 2*k)
		if err = e; e == nil {
			reg, file = r, r.File
		}
	case 4:
		r, e := bootstrap.NewServiceProviderRegistry(b)
		if err = e; e == nil {
			reg, file = r, r.File
		}
	}
	if shape >= 2 {
		sym.Cover("bad")
		sym.Assert(err != nil, "malformed registry file accepted")
		return
	}
	sym.Cover("ok")
	sym.Assert(err == nil && reg != nil, "valid registry file rejected")
	for round := 0; round < 2; round++ {
		f := file()
		sym.Assert(f != nil && f.Description == "d" && f.Publication == "p" && f.Version == "1.0", "header strings not kept")
		sym.Assert(string(f.JSON) == keep, "JSON not kept")
		sym.Assert(len(f.Entries) == 3, "entries dropped or added")
		for i, e := range ents {
			sym.Assert(sameStrs(urlStrs(f.Entries[e]), us[i/2]), "entry has other URLs than its service")
		}
		reg.Lookup(&bootstrap.Question{Query: hit[k]})
		reg.Lookup(&bootstrap.Question{Query: free})
	}
}
