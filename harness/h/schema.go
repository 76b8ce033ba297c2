package h

import (
	"reflect"

	"github.com/openrdap/rdap"

	"verifharness/sym"
)

// The documented response types: JSON name, Go field, kind.
const (
	kStr = iota
	kStrs
	kBool
	kU8
	kU16
	kU32
	kU64
	kPtr  // pointer to struct
	kList // list of structs
	kCard
)

type fieldSpec struct {
	js, gf string
	kind   int
	sub    string
}

type typeSpec struct {
	name   string
	fields []fieldSpec
	parent string    // containing type, "" for top level
	via    fieldSpec // field of parent
}

func f(js, gf string, kind int) fieldSpec            { return fieldSpec{js, gf, kind, ""} }
func fs(js, gf string, kind int, s string) fieldSpec { return fieldSpec{js, gf, kind, s} }

var lang = f("lang", "Lang", kStr)
var conf = f("rdapConformance", "Conformance", kStrs)
var ocn = f("objectClassName", "ObjectClassName", kStr)
var notices = fs("notices", "Notices", kList, "Notice")
var remarks = fs("remarks", "Remarks", kList, "Remark")
var links = fs("links", "Links", kList, "Link")
var events = fs("events", "Events", kList, "Event")
var entities = fs("entities", "Entities", kList, "Entity")
var publicIDs = fs("publicIds", "PublicIDs", kList, "PublicID")
var status = f("status", "Status", kStrs)
var port43 = f("port43", "Port43", kStr)
var handleF = f("handle", "Handle", kStr)
var ldh = f("ldhName", "LDHName", kStr)
var uni = f("unicodeName", "UnicodeName", kStr)

var types_ = []typeSpec{
	{"Domain", []fieldSpec{lang, conf, ocn, notices, handleF, ldh, uni, fs("variants", "Variants", kList, "Variant"), fs("nameservers", "Nameservers", kList, "Nameserver"),
		fs("secureDNS", "SecureDNS", kPtr, "SecureDNS"), entities, status, publicIDs, remarks, links, port43, events, fs("network", "Network", kPtr, "IPNetwork")}, "", fieldSpec{}},
	{"Entity", []fieldSpec{lang, conf, ocn, notices, handleF, f("vcardArray", "VCard", kCard), f("roles", "Roles", kStrs), publicIDs, entities, remarks, links, events,
		fs("asEventActor", "AsEventActor", kList, "Event"), status, port43, fs("networks", "Networks", kList, "IPNetwork"), fs("autnums", "Autnums", kList, "Autnum")}, "", fieldSpec{}},
	{"Nameserver", []fieldSpec{lang, conf, ocn, notices, handleF, ldh, uni, fs("ipAddresses", "IPAddresses", kPtr, "IPAddressSet"), entities, status, remarks, links, port43, events}, "", fieldSpec{}},
	{"IPNetwork", []fieldSpec{lang, conf, ocn, notices, handleF, f("startAddress", "StartAddress", kStr), f("endAddress", "EndAddress", kStr), f("ipVersion", "IPVersion", kStr),
		f("name", "Name", kStr), f("type", "Type", kStr), f("country", "Country", kStr), f("parentHandle", "ParentHandle", kStr), status, entities, remarks, links, port43, events}, "", fieldSpec{}},
	{"Autnum", []fieldSpec{lang, conf, ocn, notices, handleF, f("startAutnum", "StartAutnum", kU32), f("endAutnum", "EndAutnum", kU32), f("ipVersion", "IPVersion", kStr),
		f("name", "Name", kStr), f("type", "Type", kStr), status, f("country", "Country", kStr), entities, remarks, links, port43, events}, "", fieldSpec{}},
	{"Error", []fieldSpec{lang, conf, notices, f("errorCode", "ErrorCode", kU16), f("title", "Title", kStr), f("description", "Description", kStrs)}, "", fieldSpec{}},
	{"Help", []fieldSpec{lang, conf, notices}, "", fieldSpec{}},
	{"DomainSearchResults", []fieldSpec{lang, conf, notices, fs("domainSearchResults", "Domains", kList, "Domain")}, "", fieldSpec{}},
	{"EntitySearchResults", []fieldSpec{lang, conf, notices, fs("entitySearchResults", "Entities", kList, "Entity")}, "", fieldSpec{}},
	{"NameserverSearchResults", []fieldSpec{lang, conf, notices, fs("nameserverSearchResults", "Nameservers", kList, "Nameserver")}, "", fieldSpec{}},
	{"Notice", []fieldSpec{f("title", "Title", kStr), f("type", "Type", kStr), f("description", "Description", kStrs), links}, "Help", notices},
	{"Remark", []fieldSpec{f("title", "Title", kStr), f("type", "Type", kStr), f("description", "Description", kStrs), links}, "Entity", remarks},
	{"Link", []fieldSpec{f("value", "Value", kStr), f("rel", "Rel", kStr), f("href", "Href", kStr), f("hreflang", "HrefLang", kStrs), f("title", "Title", kStr), f("media", "Media", kStr), f("type", "Type", kStr)}, "Notice", links},
	{"Event", []fieldSpec{f("eventAction", "Action", kStr), f("eventActor", "Actor", kStr), f("eventDate", "Date", kStr), links}, "Domain", events},
	{"PublicID", []fieldSpec{f("type", "Type", kStr), f("identifier", "Identifier", kStr)}, "Entity", publicIDs},
	{"Variant", []fieldSpec{lang, f("relation", "Relation", kStrs), f("idnTable", "IDNTable", kStr), fs("variantNames", "VariantNames", kList, "VariantName")}, "Domain", fs("variants", "Variants", kList, "Variant")},
	{"VariantName", []fieldSpec{lang, ldh, uni}, "Variant", fs("variantNames", "VariantNames", kList, "VariantName")},
	{"SecureDNS", []fieldSpec{lang, f("zoneSigned", "ZoneSigned", kBool), f("delegationSigned", "DelegationSigned", kBool), f("maxSigLife", "MaxSigLife", kU64),
		fs("dsData", "DS", kList, "DSData"), fs("keyData", "Keys", kList, "KeyData")}, "Domain", fs("secureDNS", "SecureDNS", kPtr, "SecureDNS")},
	{"DSData", []fieldSpec{lang, f("keyTag", "KeyTag", kU64), f("algorithm", "Algorithm", kU8), f("digest", "Digest", kStr), f("digestType", "DigestType", kU8), events, links}, "SecureDNS", fs("dsData", "DS", kList, "DSData")},
	{"KeyData", []fieldSpec{f("flags", "Flags", kU16), f("protocol", "Protocol", kU8), f("algorithm", "Algorithm", kU8), f("publicKey", "PublicKey", kStr), events, links}, "SecureDNS", fs("keyData", "Keys", kList, "KeyData")},
	{"IPAddressSet", []fieldSpec{lang, f("v6", "V6", kStrs), f("v4", "V4", kStrs)}, "Nameserver", fs("ipAddresses", "IPAddresses", kPtr, "IPAddressSet")},
}

func typeNamed(n string) *typeSpec {
	for i := range types_ {
		if types_[i].name == n {
			return &types_[i]
		}
	}
	return nil
}

func (t *typeSpec) field(js string) *fieldSpec {
	for i := range t.fields {
		if t.fields[i].js == js {
			return &t.fields[i]
		}
	}
	return nil
}

var classOf = map[string]string{"Domain": "domain", "Entity": "entity", "Nameserver": "nameserver", "IPNetwork": "ip network", "Autnum": "autnum"}

func hasKey(o *sym.Node, k string) bool {
	for _, x := range o.K {
		if x == k {
			return true
		}
	}
	return false
}

// discriminate adds what selects type t at the top level.
func discriminate(t *typeSpec, o *sym.Node) {
	switch t.name {
	case "Error":
		if !hasKey(o, "errorCode") {
			o.Set("errorCode", sym.Num(404))
		}
	case "Help":
	case "DomainSearchResults", "EntitySearchResults", "NameserverSearchResults":
		k := t.fields[3].js
		if !hasKey(o, k) {
			o.Set(k, sym.Arr())
		}
	default:
		if !hasKey(o, "objectClassName") {
			o.Set("objectClassName", sym.Str(classOf[t.name]))
		}
	}
}

// wrap places an object of type t in a document.
func wrap(t *typeSpec, o *sym.Node) *sym.Node {
	for t.parent != "" {
		p := sym.Obj()
		if t.via.kind == kList {
			p.Set(t.via.js, sym.Arr(o))
		} else {
			p.Set(t.via.js, o)
		}
		o, t = p, typeNamed(t.parent)
	}
	discriminate(t, o)
	return o
}

// locate finds the object that wrap placed in a document.
func locate(t *typeSpec, res any) reflect.Value {
	if t.parent == "" {
		v := reflect.ValueOf(res)
		sym.Assert(v.Kind() == reflect.Pointer && v.Type().Elem().Name() == t.name, "decoded to another type than "+t.name)
		return v.Elem()
	}
	p := locate(typeNamed(t.parent), res)
	fv := p.FieldByName(t.via.gf)
	if t.via.kind == kList {
		sym.Assert(fv.Len() == 1, "nested object lost: "+t.parent+"."+t.via.js)
		return fv.Index(0)
	}
	sym.Assert(!fv.IsNil(), "nested object lost: "+t.parent+"."+t.via.js)
	return fv.Elem()
}

func decodeData(v reflect.Value) *rdap.DecodeData {
	return v.FieldByName("DecodeData").Interface().(*rdap.DecodeData)
}

// rawEq compares a decoded raw JSON value with the document.
func rawEq(v any, n *sym.Node) bool {
	switch n.Kind {
	case sym.Null:
		return v == nil
	case sym.Boolean:
		b, ok := v.(bool)
		return ok && b == n.B
	case sym.Number:
		x, ok := v.(float64)
		return ok && x == n.F
	case sym.String:
		s, ok := v.(string)
		return ok && s == n.S
	case sym.Array:
		a, ok := v.([]any)
		if !ok || len(a) != len(n.A) {
			return false
		}
		for i := range a {
			if !rawEq(a[i], n.A[i]) {
				return false
			}
		}
		return true
	}
	m, ok := v.(map[string]any)
	if !ok || len(m) != len(n.A) {
		return false
	}
	for i, k := range n.K {
		x, ok := m[k]
		if !ok || !rawEq(x, n.A[i]) {
			return false
		}
	}
	return true
}

func hasStr(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

// checkData: the decode data of v is exactly that of object o of type t.
func checkData(t *typeSpec, v reflect.Value, o *sym.Node) {
	dd := decodeData(v)
	sym.Assert(dd != nil, "no decode data for "+t.name)
	fs := dd.Fields()
	sym.Assert(len(fs) == len(o.K), "wrong number of fields listed for "+t.name)
	unk := dd.UnknownFields()
	n := 0
	for i, k := range o.K {
		sym.Assert(hasStr(fs, k), "field not listed for "+t.name)
		sym.Assert(rawEq(dd.Value(k), o.A[i]), "raw value altered in "+t.name)
		known := t.field(k) != nil
		sym.Assert(hasStr(unk, k) == !known, "wrongly reported as known or unknown in "+t.name)
		if !known {
			n++
		}
	}
	sym.Assert(len(unk) == n, "wrong number of unknown fields in "+t.name)
	sym.Assert(dd.Value("no such field") == nil, "value for a field that is not there")
}
