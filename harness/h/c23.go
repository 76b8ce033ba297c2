package h

import (
	"net/http"
	"strings"

	"github.com/openrdap/rdap"

	"verifharness/sym"
)

func init() {
	All["C23_fields"] = Spec{F: C23_fields}
	All["C23_roles"] = Spec{F: C23_roles}
	All["C23_many"] = Spec{F: C23_many}
	All["C23_decoded"] = Spec{F: C23_decoded}
	All["C23_card"] = Spec{F: C23_card}
	All["C23_other"] = Spec{F: C23_other}
	All["C23_print"] = Spec{F: C23_print}
}

// kv is an expected WHOIS form.
type kv struct {
	keys []string
	vals [][]string
}

func (w *kv) add(k, v string) {
	if v == "" {
		return
	}
	for i := range w.keys {
		if w.keys[i] == k {
			w.vals[i] = append(w.vals[i], v)
			return
		}
	}
	w.keys = append(w.keys, k)
	w.vals = append(w.vals, []string{v})
}

func checkWhois(obj any, w *kv) {
	r := &rdap.Response{Object: obj}
	for round := 0; round < 2; round++ {
		got := r.ToWhoisStyleResponse()
		sym.Assert(got != nil, "no WHOIS form")
		sym.Assert(len(got.KeyDisplayOrder) == len(w.keys) && len(got.Data) == len(w.keys), "wrong number of WHOIS fields")
		for i, k := range w.keys {
			sym.Assert(got.KeyDisplayOrder[i] == k, "WHOIS field missing, added or out of order: "+k)
			sym.Assert(sameStrs(got.Data[k], w.vals[i]), "wrong WHOIS values for "+k)
		}
	}
}

var dateKey = map[string]string{"last changed": "Updated Date", "registration": "Creation Date", "expiration": "Expiration Date"}

// C23_fields: the domain's own fields.
func C23_fields() {
	d := &rdap.Domain{}
	w := &kv{}
	mk := func(n string) string { return text(n, upTo(n+"len", 1)) }
	if sym.Choice("part", 2) == 0 {
		d.LDHName, d.Handle, d.Port43 = mk("name"), mk("handle"), mk("port43")
		d.UnicodeName = "unicode"
		d.Lang = "l"
		w.add("Domain Name", d.LDHName)
		w.add("Handle", d.Handle)
		w.add("WHOIS Server", d.Port43)
		for n := upTo("status", sym.Param("N", 2)); n > 0; n-- {
			s := mk("st")
			d.Status = append(d.Status, s)
			w.add("Domain Status", s)
		}
		for n := upTo("ns", sym.Param("N", 2)); n > 0; n-- {
			s := mk("nsname")
			d.Nameservers = append(d.Nameservers, rdap.Nameserver{LDHName: s, UnicodeName: "u", Handle: "h"})
			w.add("Name Server", s)
		}
	} else {
		d.LDHName = "x"
		w.add("Domain Name", "x")
		for n := upTo("events", sym.Param("NE", 3)); n > 0; n-- {
			a := []string{"last changed", "registration", "expiration", "reregistration", "Registration", "last update of RDAP database", "?"}[sym.Choice("action", 7)]
			if a == "?" {
				a = text("act", upTo("alen", 1))
			}
			e := rdap.Event{Action: a, Actor: "someone", Date: mk("date")}
			d.Events = append(d.Events, e)
			if k := dateKey[a]; k != "" {
				w.add(k, e.Date)
			}
		}
		d.Nameservers = []rdap.Nameserver{{LDHName: "ns", Events: []rdap.Event{{Action: "registration", Date: "other"}}}}
		w.add("Name Server", "ns")
	}
	checkWhois(d, w)
}

func cardOf(name string) *rdap.VCard {
	return newCard(sym.Arr(sym.Str("fn"), sym.Obj(), sym.Str("text"), sym.Str(name)))
}

var roleKey = []struct{ role, key string }{{"registrant", "Registrant"}, {"administrative", "Admin"}, {"technical", "Tech"}, {"abuse", "Abuse"}}

// C23_roles: which entity is used for which contact.
func C23_roles() {
	d := &rdap.Domain{LDHName: "x"}
	ne := sym.Param("NE", 2)
	for i := 0; i < ne; i++ {
		e := rdap.Entity{}
		for n := upTo("roles", sym.Param("NR", 2)); n > 0; n-- {
			// the last letter is arbitrary
			e.Roles = append(e.Roles, []string{"registra", "registran", "administrativ", "technica", "abus"}[sym.Choice("role", 5)]+text("rl", 1))
		}
		if sym.Choice("card", 2) == 1 {
			e.VCard = cardOf("e" + string(rune('0'+i)))
		}
		if i == 0 {
			for n := 2 * sym.Choice("ids", 2); n > 0; n-- {
				e.PublicIDs = append(e.PublicIDs, rdap.PublicID{Type: "IANA Registrar I" + text("it", 1), Identifier: "id" + string(rune('0'+n))})
			}
		} else {
			e.PublicIDs = []rdap.PublicID{{Type: "IANA Registrar ID", Identifier: "77"}}
		}
		e.Entities = []rdap.Entity{{Roles: []string{"abuse", "registrar"}, VCard: cardOf("inner")}}
		d.Entities = append(d.Entities, e)
	}
	first := func(role string) *rdap.Entity {
		for i := range d.Entities {
			for _, r := range d.Entities[i].Roles {
				if sym.Fork(r == role) {
					return &d.Entities[i]
				}
			}
		}
		return nil
	}
	w := &kv{}
	w.add("Domain Name", "x")
	if e := first("registrar"); e != nil {
		if e.VCard != nil {
			w.add("Registrar", e.VCard.Properties[0].Value.(string))
		}
		for _, id := range e.PublicIDs {
			if sym.Fork(id.Type == "IANA Registrar ID") {
				w.add("Registrar IANA ID", id.Identifier)
			}
		}
		sym.Cover("registrar")
	}
	for _, rk := range roleKey {
		if e := first(rk.role); e != nil && e.VCard != nil {
			w.add(rk.key+" Name", e.VCard.Properties[0].Value.(string))
			sym.Cover(rk.role)
		}
	}
	checkWhois(d, w)
}

// C23_many: long lists of everything, with repeated and equal values.
func C23_many() {
	n := sym.Param("N", 14)
	d := &rdap.Domain{LDHName: "x", Handle: "x", Port43: "x", UnicodeName: "u", Network: &rdap.IPNetwork{Handle: "net", Status: []string{"no"}}}
	w := &kv{}
	w.add("Domain Name", "x")
	w.add("Handle", "x")
	w.add("WHOIS Server", "x")
	at := sym.Choice("at", n)
	v := func(p string, i int) string {
		if i == at {
			return text("s", upTo("sl", 1))
		}
		if i%5 == 4 {
			return "x"
		}
		return p + string(rune('a'+i))
	}
	all := []string{"registration", "last changed", "expiration", "deletion", "transfer", "locked", "last update of RDAP database", "registrar expiration", "enum validation expiration"}
	rot := sym.Choice("rot", 3)
	part := sym.Choice("part", 4)
	if part == 0 {
		for i := 0; i < n; i++ {
			e := rdap.Event{Action: all[(i+rot)%len(all)], Date: v("d", i), Actor: "x", Links: []rdap.Link{{Href: "l"}}}
			d.Events = append(d.Events, e)
			if k := dateKey[e.Action]; k != "" {
				w.add(k, e.Date)
			}
		}
	}
	roles := []string{"reseller", "sponsor", "proxy", "notifications", "noc", "billing"}
	if part == 3 {
		// contacts among other entities, several with the role
		rk := roleKey[sym.Choice("role", 4)]
		used := ""
		for i := 0; i < n; i++ {
			e := rdap.Entity{Handle: "x", Roles: []string{roles[i%6], roles[(i+1)%6], roles[(i+2)%6]}, VCard: cardOf("e" + string(rune('a'+i)))}
			if i == at || i == n-1 {
				e.Roles = append(e.Roles, rk.role)
				if used == "" {
					used = "e" + string(rune('a'+i))
				}
			}
			d.Entities = append(d.Entities, e)
		}
		w.add(rk.key+" Name", used)
	}
	if part == 1 {
		for i := 0; i < n; i++ {
			s := v("s", i)
			d.Status = append(d.Status, s)
			w.add("Domain Status", s)
		}
	}
	if part == 2 {
		for i := 0; i < n; i++ {
			s := v("n", i)
			ns := rdap.Nameserver{LDHName: s, UnicodeName: "u", Status: []string{"no"}}
			if i%2 == 0 {
				ns.IPAddresses = &rdap.IPAddressSet{V4: []string{"192.0.2.1"}}
			}
			d.Nameservers = append(d.Nameservers, ns)
			w.add("Name Server", s)
		}
	}
	checkWhois(d, w)
}

// C23_decoded: a whole response with every field.
func C23_decoded() {
	f := &filler{num: 100}
	o := f.object(typeNamed("Domain"), 1)
	ldh := text("l", 1)
	var es []*sym.Node
	roles := []string{"registrar", "registrant", "administrative", "technical", "abuse", "billing"}
	off, step := sym.Choice("off", 6), []int{1, 5}[sym.Choice("step", 2)]
	for i := range roles {
		e := f.object(typeNamed("Entity"), 0)
		for k := range e.K {
			if e.K[k] == "roles" {
				e.A[k] = sym.Strs("sponsor", roles[(off+i*step)%6])
			}
			if e.K[k] == "vcardArray" {
				e.A[k] = sym.Arr(sym.Str("vcard"), sym.Arr(sym.Arr(sym.Str("fn"), sym.Obj(), sym.Str("text"), sym.Str("of "+roles[(off+i*step)%6]))))
			}
		}
		es = append(es, e)
	}
	for k := range o.K {
		switch o.K[k] {
		case "entities":
			o.A[k] = sym.Arr(es...)
		case "ldhName":
			o.A[k] = sym.Str(ldh)
		}
	}
	d, ok := decoded(o).(*rdap.Domain)
	sym.Assert(ok, "not a domain")
	w := &kv{}
	w.add("Domain Name", ldh)
	w.add("Handle", d.Handle)
	w.add("WHOIS Server", d.Port43)
	w.add("Registrar", "of registrar")
	for _, s := range d.Status {
		w.add("Domain Status", s)
	}
	for _, rk := range roleKey {
		w.add(rk.key+" Name", "of "+rk.role)
	}
	for _, s := range d.Nameservers {
		w.add("Name Server", s.LDHName)
	}
	checkWhois(d, w)
}

// C23_card: the fields of a contact.
func C23_card() {
	rk := roleKey[sym.Choice("role", 4)]
	var ps []*sym.Node
	put := func(name string, o *sym.Node, v *sym.Node) {
		ps = append(ps, sym.Arr(sym.Str(name), o, sym.Str("text"), v))
	}
	some := func(n string) string {
		switch sym.Choice(n, 3) {
		case 1:
			return "v" + text(n+"s", 1)
		case 2:
			return n
		}
		return ""
	}
	w := &kv{}
	w.add("Domain Name", "x")
	name, email, tel, fax := "", "", "", ""
	adr := make([]string, 7)
	switch sym.Choice("part", 3) {
	case 0:
		name, email = some("name"), some("email")
		put("fn", sym.Obj(), sym.Str(name))
		put("email", sym.Obj(), sym.Str(email))
		put("org", sym.Obj(), sym.Str("org"))
	case 1:
		tel, fax = some("tel"), some("fax")
		put("tel", sym.Obj().Set("type", sym.Strs("work", "fax")), sym.Str(fax))
		put("tel", sym.Obj(), sym.Str(tel))
	case 2:
		var c []*sym.Node
		for i := range adr {
			if i == 2 || i == 6 {
				adr[i] = some("c" + string(rune('0'+i)))
			} else if sym.Choice("comp", 2) == 1 {
				adr[i] = "c" + string(rune('0'+i))
			}
			c = append(c, sym.Str(adr[i]))
		}
		put("adr", sym.Obj(), sym.Arr(c...))
	}
	w.add(rk.key+" Name", name)
	for i, k := range []string{"PO Box", "Extended Address", "Street", "Locality", "", "Post Code", "Country"} {
		if k != "" {
			w.add(rk.key+" "+k, adr[i])
		}
	}
	w.add(rk.key+" Tel", tel)
	w.add(rk.key+" Fax", fax)
	w.add(rk.key+" Email", email)
	d := &rdap.Domain{LDHName: "x", Entities: []rdap.Entity{{Roles: []string{rk.role}, VCard: newCard(ps...)}}}
	checkWhois(d, w)
}

// C23_other: other types of response.
func C23_other() {
	h := text("h", 1)
	var obj any
	switch sym.Choice("type", 12) {
	case 0:
		obj = &rdap.Entity{Handle: h}
	case 1:
		obj = &rdap.Nameserver{LDHName: h}
	case 2:
		obj = &rdap.IPNetwork{Handle: h}
	case 3:
		obj = &rdap.Autnum{Handle: h}
	case 4:
		obj = &rdap.Error{Title: h}
	case 5:
		obj = &rdap.Help{}
	case 6:
		obj = &rdap.DomainSearchResults{Domains: []rdap.Domain{{Handle: h}}}
	case 7:
		obj = &rdap.EntitySearchResults{}
	case 8:
		obj = &rdap.NameserverSearchResults{}
	case 9:
		obj = nil
	case 10:
		obj = strings.ToUpper(h)
	case 11:
		obj = &rdap.Domain{}
	}
	checkWhois(obj, &kv{})
}

// C23_print: printed values take one line each, whatever they contain.
func C23_print() {
	n := sym.Param("L", 2)
	v := text("v", upTo("len", n))
	w := text("w", 1)
	d := sym.Obj().Set("objectClassName", sym.Str("domain"))
	var lines [][2]string
	switch sym.Choice("part", 3) {
	case 0:
		d.Set("ldhName", sym.Str(v)).Set("handle", sym.Str("a"+w)).Set("port43", sym.Str("p"))
		lines = [][2]string{{"Domain Name", v}, {"Handle", "a" + w}, {"WHOIS Server", "p"}}
	case 1:
		d.Set("ldhName", sym.Str("x")).Set("status", sym.Strs(v, "b"+w, v))
		d.Set("nameservers", sym.Arr(sym.Obj().Set("ldhName", sym.Str("n"+w))))
		lines = [][2]string{{"Domain Name", "x"}, {"Domain Status", v}, {"Domain Status", "b" + w}, {"Domain Status", v}, {"Name Server", "n" + w}}
	case 2:
		d.Set("ldhName", sym.Str("x"))
		d.Set("events", sym.Arr(sym.Obj().Set("eventAction", sym.Str("registration")).Set("eventDate", sym.Str(v))))
		d.Set("entities", sym.Arr(sym.Obj().Set("objectClassName", sym.Str("entity")).Set("roles", sym.Strs("registrant")).Set("vcardArray",
			sym.Arr(sym.Str("vcard"), sym.Arr(sym.Arr(sym.Str("fn"), sym.Obj(), sym.Str("text"), sym.Str("c"+w)))))))
		lines = [][2]string{{"Domain Name", "x"}, {"Creation Date", v}, {"Registrant Name", "c" + w}}
	}
	body := sym.JSON(d)
	c := runCLI(rdap.CLIOptions{}, func(t *transport, r *http.Request) (*http.Response, error) {
		return t.resp(200, body, nil), nil
	}, "-s", "http://h", "-t", "domain", []string{"--whois", "-w"}[sym.Choice("opt", 2)], "x")
	sym.Assert(c.code == 0 && c.err == "", "exit status")
	want := ""
	for _, l := range lines {
		if l[1] == "" {
			continue
		}
		out := ""
		for i := 0; i < len(l[1]); i++ {
			switch b := l[1][i]; {
			case b == 0:
			case b == '\n' || b == '\r':
				out += " "
			default:
				out += l[1][i : i+1]
			}
		}
		want += l[0] + ": " + out + "\n"
	}
	sym.Assert(c.out == want, "not one line per value")
}
