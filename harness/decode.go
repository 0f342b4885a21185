package main

import (
	"bytes"
	"encoding/json"
	"reflect"
	"slices"
	"strconv"
	"strings"

	"github.com/openrdap/rdap"
)

// J is a JSON tree: ["z"], ["b", bool], ["n", literal], ["s", text],
// ["a", [tree...]], ["o", [[name, tree]...]].
type J struct {
	tag  string
	b    bool
	s    string
	arr  []J
	keys []string
}

func (j *J) UnmarshalJSON(b []byte) error {
	var raw []json.RawMessage
	must(json.Unmarshal(b, &raw))
	must(json.Unmarshal(raw[0], &j.tag))
	switch j.tag {
	case "z":
	case "b":
		must(json.Unmarshal(raw[1], &j.b))
	case "n", "s":
		must(json.Unmarshal(raw[1], &j.s))
	case "a":
		must(json.Unmarshal(raw[1], &j.arr))
	case "o":
		var ms [][2]json.RawMessage
		must(json.Unmarshal(raw[1], &ms))
		for _, m := range ms {
			var k string
			var v J
			must(json.Unmarshal(m[0], &k))
			must(json.Unmarshal(m[1], &v))
			j.keys, j.arr = append(j.keys, k), append(j.arr, v)
		}
	default:
		panic("harness: bad JSON tree " + j.tag)
	}
	return nil
}

func quote(s string) string {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	must(e.Encode(s))
	return strings.TrimSuffix(b.String(), "\n")
}

func (j *J) text(w *strings.Builder) {
	switch j.tag {
	case "z":
		w.WriteString("null")
	case "b":
		w.WriteString(strconv.FormatBool(j.b))
	case "n":
		w.WriteString(j.s)
	case "s":
		w.WriteString(quote(j.s))
	case "a":
		w.WriteString("[")
		for i := range j.arr {
			if i > 0 {
				w.WriteString(", ")
			}
			j.arr[i].text(w)
		}
		w.WriteString("]")
	case "o":
		w.WriteString("{")
		for i := range j.arr {
			if i > 0 {
				w.WriteString(", ")
			}
			w.WriteString(quote(j.keys[i]) + ": ")
			j.arr[i].text(w)
		}
		w.WriteString("}")
	}
}

func (j *J) JSON() []byte {
	var w strings.Builder
	j.text(&w)
	return []byte(w.String())
}

// goValue is what encoding/json would make of the tree.
func (j *J) goValue() any {
	switch j.tag {
	case "b":
		return j.b
	case "n":
		f, err := strconv.ParseFloat(j.s, 64)
		must(err)
		return f
	case "s":
		return j.s
	case "a":
		r := []any{}
		for i := range j.arr {
			r = append(r, j.arr[i].goValue())
		}
		return r
	case "o":
		r := map[string]any{}
		for i := range j.arr {
			r[j.keys[i]] = j.arr[i].goValue()
		}
		return r
	}
	return nil
}

// tree is the JSON tree of a Go value as made by encoding/json.
func tree(v any) any {
	switch v := v.(type) {
	case nil:
		return []any{"z"}
	case bool:
		return []any{"b", v}
	case float64:
		return []any{"n", strconv.FormatFloat(v, 'f', -1, 64)}
	case string:
		return []any{"s", v}
	case []any:
		r := []any{}
		for _, x := range v {
			r = append(r, tree(x))
		}
		return []any{"a", r}
	case map[string]any:
		r := []any{}
		keys := []string{}
		for k := range v {
			keys = append(keys, k)
		}
		slices.Sort(keys)
		for _, k := range keys {
			r = append(r, []any{k, tree(v[k])})
		}
		return []any{"o", r}
	}
	return []any{"go", reflect.TypeOf(v).String()}
}

func projProps(v *rdap.VCard) []any {
	r := []any{}
	for _, p := range v.Properties {
		ps := []any{}
		keys := []string{}
		for k, vs := range p.Parameters {
			if len(vs) > 0 {
				keys = append(keys, k)
			}
		}
		slices.Sort(keys)
		for _, k := range keys {
			ps = append(ps, []any{k, slices.Clone(p.Parameters[k])})
		}
		r = append(r, map[string]any{"name": p.Name, "type": p.Type, "params": ps, "value": tree(p.Value), "values": p.Values()})
	}
	return r
}

var noteProbe = strings.Fields(`lang rdapConformance notices objectClassName handle status entities remarks links port43 events ldhName unicodeName
 value rel href hreflang title media type description eventAction eventActor eventDate identifier startAutnum endAutnum ipVersion name country variants
 nameservers secureDNS publicIds network relation idnTable variantNames zoneSigned delegationSigned maxSigLife dsData keyData keyTag algorithm digest
 digestType flags protocol publicKey vcardArray roles asEventActor networks autnums errorCode startAddress endAddress parentHandle ipAddresses v6 v4
 domainSearchResults nameserverSearchResults entitySearchResults Lang Title Handle unknown`)

func projData(d *rdap.DecodeData) any {
	if d == nil {
		return map[string]any{"fields": []string{}, "unknown": []string{}, "values": []any{}, "notes": []any{}, "missing": true}
	}
	orEmpty := func(s []string) []string {
		s = append([]string{}, s...)
		slices.Sort(s)
		return s
	}
	fields := orEmpty(d.Fields())
	values, notes := []any{}, []any{}
	for i, f := range fields {
		if i > 0 && fields[i-1] == f {
			continue
		}
		values = append(values, []any{f, tree(d.Value(f))})
	}
	probe := append(append([]string{""}, noteProbe...), fields...)
	slices.Sort(probe)
	for _, n := range slices.Compact(probe) {
		if c := len(d.Notes(n)); c > 0 {
			notes = append(notes, []any{n, c})
		}
	}
	return map[string]any{"fields": fields, "unknown": orEmpty(d.UnknownFields()), "values": values, "notes": notes}
}

// projObj shows an RDAP object: its type, its non-empty fields, its DecodeData.
func projObj(v reflect.Value) any {
	f := map[string]any{}
	var d any
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		for i := range v.NumField() {
			sf, fv := v.Type().Field(i), v.Field(i)
			if sf.Type == reflect.TypeFor[*rdap.DecodeData]() {
				d = projData(fv.Interface().(*rdap.DecodeData))
				continue
			}
			if sf.Anonymous {
				walk(fv)
				continue
			}
			switch x := fv.Interface().(type) {
			case string:
				if x != "" {
					f[sf.Name] = []any{"s", x}
				}
			case []string:
				if len(x) > 0 {
					f[sf.Name] = []any{"ss", slices.Clone(x)} // printing may not change it
				}
			case *rdap.VCard:
				if x != nil {
					f[sf.Name] = []any{"vc", projProps(x)}
				}
			case *bool:
				if x != nil {
					f[sf.Name] = []any{"b", *x}
				}
			default:
				switch {
				case fv.Kind() == reflect.Pointer && fv.IsNil():
				case fv.Kind() == reflect.Pointer && fv.Elem().CanUint():
					f[sf.Name] = []any{"u", strconv.FormatUint(fv.Elem().Uint(), 10)}
				case fv.Kind() == reflect.Pointer && fv.Elem().Kind() == reflect.Struct:
					f[sf.Name] = []any{"o", projObj(fv.Elem())}
				case fv.Kind() == reflect.Slice && sf.Type.Elem().Kind() == reflect.Struct:
					r := []any{}
					for i := range fv.Len() {
						r = append(r, projObj(fv.Index(i)))
					}
					if len(r) > 0 {
						f[sf.Name] = []any{"os", r}
					}
				default:
					f[sf.Name] = []any{"go", sf.Type.String()}
				}
			}
		}
	}
	walk(v)
	return map[string]any{"t": v.Type().Name(), "f": f, "d": d}
}

// strip makes an object look hand-made: without DecodeData anywhere.
func strip(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			strip(v.Elem())
		}
	case reflect.Slice:
		for i := range v.Len() {
			strip(v.Index(i))
		}
	case reflect.Struct:
		for i := range v.NumField() {
			if f := v.Field(i); f.Type() == reflect.TypeFor[*rdap.DecodeData]() {
				f.SetZero()
			} else if f.Type() != reflect.TypeFor[*rdap.VCard]() {
				strip(f)
			}
		}
	}
}

// project shows a decoding result.
func project(obj any, err error) map[string]any {
	o := map[string]any{"err": err != nil, "type": "error"}
	v := reflect.ValueOf(obj)
	if err == nil && v.IsValid() && v.Kind() == reflect.Pointer && !v.IsNil() {
		o["type"] = v.Type().Elem().Name()
		o["obj"] = projObj(v.Elem())
	}
	return o
}

type opts struct {
	N, R, B, L bool // omit notices, omit remarks, brief output, brief links
	Char       string
	Size       uint
}

func (o opts) printer(w *bytes.Buffer) *rdap.Printer {
	p := &rdap.Printer{Writer: w, OmitNotices: o.N, OmitRemarks: o.R, BriefOutput: o.B, BriefLinks: o.L, IndentSize: o.Size}
	for _, c := range o.Char {
		p.IndentChar = c
	}
	return p
}

func printed(obj any, o opts) string {
	var w bytes.Buffer
	o.printer(&w).Print(obj)
	return w.String()
}

var someOpts = []opts{{}, {N: true, L: true}, {R: true, Char: "\t", Size: 1}, {B: true}, {B: true, L: true, N: true, R: true, Size: 5}, {L: true}}

func init() {
	// a document: decoded, shown, and printed in several ways
	kinds["decode"] = func(in json.RawMessage) any {
		c := parse[struct {
			Doc J
			Raw T
		}](in)
		data := []byte(c.Raw.String())
		if c.Doc.tag != "" {
			data = c.Doc.JSON()
		}
		keep := bytes.Clone(data)
		obj, err := rdap.NewDecoder(data).Decode()
		o := project(obj, err)
		if c.Doc.tag == "" {
			delete(o, "obj")
		}
		o["untouched"] = bytes.Equal(keep, data)
		if err == nil {
			for _, op := range someOpts {
				printed(obj, op)
			}
			r := rdap.Response{Object: obj}
			r.ToWhoisStyleResponse()
		}
		return o
	}
	kinds["vcard"] = func(in json.RawMessage) any {
		c := parse[struct {
			Card   J
			Ignore bool
		}](in)
		v, err := rdap.NewVCardWithOptions(c.Card.JSON(), rdap.VCardOptions{IgnoreInvalidProperties: c.Ignore})
		if err == nil && !c.Ignore {
			v, err = rdap.NewVCard(c.Card.JSON())
		}
		if err != nil || v == nil {
			return map[string]any{"err": true, "nil": v == nil, "props": []any{}}
		}
		_ = v.String()
		return map[string]any{"err": false, "nil": false, "props": projProps(v)}
	}
	// accessors of a card made of the given properties
	kinds["accessors"] = func(in json.RawMessage) any {
		c := parse[struct {
			Props []struct {
				Name, Type string
				Params     [][2]json.RawMessage
				Value      J
			}
		}](in)
		v := &rdap.VCard{}
		for _, p := range c.Props {
			vp := &rdap.VCardProperty{Name: p.Name, Type: p.Type, Value: p.Value.goValue(), Parameters: map[string][]string{}}
			for _, x := range p.Params {
				var k string
				var vs []string
				must(json.Unmarshal(x[0], &k))
				must(json.Unmarshal(x[1], &vs))
				vp.Parameters[k] = vs
			}
			v.Properties = append(v.Properties, vp)
		}
		names := []string{"fn", "email", "tel", "adr", "org", "FN", "none", ""}
		index := map[*rdap.VCardProperty]int{nil: 0}
		for i, p := range v.Properties {
			names = append(names, p.Name)
			index[p] = i + 1
		}
		gets := []any{}
		for _, n := range names {
			is := []int{}
			for _, p := range v.Get(n) {
				is = append(is, index[p])
			}
			gets = append(gets, map[string]any{"name": n, "all": is, "first": index[v.GetFirst(n)]})
		}
		return map[string]any{"gets": gets, "Name": v.Name(), "Email": v.Email(), "Org": v.Org(), "Tel": v.Tel(), "Fax": v.Fax(), "POBox": v.POBox(), "ExtendedAddress": v.ExtendedAddress(),
			"StreetAddress": v.StreetAddress(), "Locality": v.Locality(), "Region": v.Region(), "PostalCode": v.PostalCode(), "Country": v.Country()}
	}
	// a document printed under several options, twice, and as WHOIS fields
	kinds["print"] = func(in json.RawMessage) any {
		c := parse[struct {
			Doc  J
			Opts []opts
		}](in)
		obj, err := rdap.NewDecoder(c.Doc.JSON()).Decode()
		o := project(obj, err)
		o["outs"], o["whois"], o["again"] = []any{}, []any{}, true
		if err != nil {
			return o
		}
		outs, again := []any{}, true
		for _, op := range c.Opts {
			var w bytes.Buffer
			p := op.printer(&w)
			p.Print(obj)
			s := w.String()
			w.Reset()
			p.Print(obj) // the same printer again
			again = again && w.String() == s && printed(obj, op) == s
			outs = append(outs, strings.Split(s, "\n"))
		}
		resp := rdap.Response{Object: obj}
		r := resp.ToWhoisStyleResponse()
		who := []any{}
		for _, k := range r.KeyDisplayOrder {
			who = append(who, []any{k, r.Data[k]})
		}
		o["whois"], o["whoisKeys"] = who, len(r.Data)
		after := project(obj, err)
		strip(reflect.ValueOf(obj))
		o["bare"] = []any{}
		if len(c.Opts) > 0 {
			o["bare"] = strings.Split(printed(obj, c.Opts[0]), "\n")
		}
		o["outs"], o["again"] = outs, again && reflect.DeepEqual(after["obj"], o["obj"])
		return o
	}
}
