package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"strings"
	"sync"

	"github.com/openrdap/rdap/bootstrap"
)

// rt is a RoundTripper made of a function.
type rt func(*http.Request) (*http.Response, error)

func (f rt) RoundTrip(r *http.Request) (*http.Response, error) {
	resp, err := f(r)
	track(resp)
	return resp, err
}

func httpResp(req *http.Request, status int, body []byte) *http.Response {
	return &http.Response{
		Status: fmt.Sprintf("%d %s", status, http.StatusText(status)), StatusCode: status,
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": {"application/json"}}, Request: req,
		Body: io.NopCloser(bytes.NewReader(body)), ContentLength: int64(len(body)),
	}
}

func registryDoc(services any) []byte {
	b, err := json.Marshal(map[string]any{
		"description": "d", "publication": "2024-01-01T00:00:00Z", "version": "1.0", "services": services,
	})
	must(err)
	return b
}

func newRegistry(t bootstrap.RegistryType, doc []byte) (bootstrap.Registry, error) {
	switch t {
	case bootstrap.ASN:
		r, err := bootstrap.NewASNRegistry(doc)
		if err != nil {
			return nil, err
		}
		return r, nil
	case bootstrap.DNS:
		r, err := bootstrap.NewDNSRegistry(doc)
		if err != nil {
			return nil, err
		}
		return r, nil
	case bootstrap.IPv4, bootstrap.IPv6:
		v := 4
		if t == bootstrap.IPv6 {
			v = 6
		}
		r, err := bootstrap.NewNetRegistry(doc, v)
		if err != nil {
			return nil, err
		}
		return r, nil
	default:
		r, err := bootstrap.NewServiceProviderRegistry(doc)
		if err != nil {
			return nil, err
		}
		return r, nil
	}
}

var regTypes = map[string]bootstrap.RegistryType{
	"dns": bootstrap.DNS, "asn": bootstrap.ASN, "ipv4": bootstrap.IPv4, "ipv6": bootstrap.IPv6, "tag": bootstrap.ServiceProvider,
}

// lookups answers each query twice: on a registry built directly, and through
// a bootstrap.Client that downloads the document. They must agree.
func lookups(t bootstrap.RegistryType, doc []byte, queries []string, f func(i int, a *bootstrap.Answer, err error) any) []any {
	reg, err := newRegistry(t, doc)
	c := &bootstrap.Client{HTTP: &http.Client{Transport: rt(func(r *http.Request) (*http.Response, error) {
		return httpResp(r, 200, doc), nil
	})}}
	res := make([]any, 0, len(queries))
	for i, q := range queries {
		if err != nil {
			res = append(res, f(i, nil, err))
			continue
		}
		a1, e1 := reg.Lookup(&bootstrap.Question{RegistryType: t, Query: q})
		o1 := f(i, a1, e1)
		a2, e2 := c.Lookup(&bootstrap.Question{RegistryType: t, Query: q})
		o2 := f(i, a2, e2)
		b1, _ := json.Marshal(o1)
		b2, _ := json.Marshal(o2)
		if !bytes.Equal(b1, b2) {
			res = append(res, map[string]any{"disagree": []any{o1, o2}})
			continue
		}
		res = append(res, o1)
	}
	return res
}

func urlStrings(us []*url.URL) []string {
	r := make([]string, 0, len(us))
	for _, u := range us {
		r = append(r, u.String())
	}
	return r
}

type textAns struct {
	St    string   `json:"st"`
	Query T        `json:"query"`
	Entry T        `json:"entry"`
	Urls  []string `json:"urls"`
}

func textAnswer(_ int, a *bootstrap.Answer, err error) any {
	if err != nil {
		return textAns{"err", T{}, T{}, []string{}}
	}
	return textAns{"ok", toT(a.Query), toT(a.Entry), urlStrings(a.URLs)}
}

// textual registries (dns, asn, tag): {type, services:[[[entry],[url]]], queries:[T]}
func init() {
	kinds["textlookup"] = func(in json.RawMessage) any {
		t, doc, qs := textCase(in)
		return lookups(t, doc, qs, textAnswer)
	}
	kinds["iplookup"] = func(in json.RawMessage) any {
		t, doc, qs := ipCase(in)
		return lookups(t, doc, qs, ipAnswer)
	}
	kinds["reguse"] = regUse
	kinds["regfile"] = regFile
}

func textCase(in json.RawMessage) (bootstrap.RegistryType, []byte, []string) {
	c := parse[struct {
		Type     string
		Services []struct {
			Entries []T
			Urls    []string
		}
		Queries []T
	}](in)
	var sv [][][]string
	for _, s := range c.Services {
		var es []string
		for _, e := range s.Entries {
			es = append(es, e.String())
		}
		if c.Type == "tag" {
			sv = append(sv, [][]string{{"x@example.net"}, es, s.Urls})
		} else {
			sv = append(sv, [][]string{es, s.Urls})
		}
	}
	var qs []string
	for _, q := range c.Queries {
		qs = append(qs, q.String())
	}
	return regTypes[c.Type], registryDoc(sv), qs
}

// A network: bits of the address as bytes, and a prefix length.
type ipNet struct {
	A   []int `json:"a"`
	Len int   `json:"len"`
}

func ipText(a []int, style int) string {
	ip := make(net.IP, len(a))
	for i, b := range a {
		ip[i] = byte(b)
	}
	if len(a) == 4 {
		return ip.String()
	}
	switch style % 4 {
	case 1: // fully expanded
		var p []string
		for i := 0; i < 16; i += 2 {
			p = append(p, fmt.Sprintf("%04x", int(ip[i])<<8|int(ip[i+1])))
		}
		return strings.Join(p, ":")
	case 2: // upper case, no compression
		var p []string
		for i := 0; i < 16; i += 2 {
			p = append(p, fmt.Sprintf("%X", int(ip[i])<<8|int(ip[i+1])))
		}
		return strings.Join(p, ":")
	case 3: // last 32 bits dotted
		var p []string
		for i := 0; i < 12; i += 2 {
			p = append(p, fmt.Sprintf("%x", int(ip[i])<<8|int(ip[i+1])))
		}
		return strings.Join(p, ":") + ":" + net.IP(ip[12:]).String()
	}
	// compressed; written here, because net.IP.String prints v4-mapped
	// addresses in dotted form
	best, bl := -1, 0
	for i := 0; i < 16; i += 2 {
		j := i
		for j < 16 && ip[j] == 0 && ip[j+1] == 0 {
			j += 2
		}
		if j-i > bl && j-i >= 4 {
			best, bl = i, j-i
		}
	}
	var sb strings.Builder
	for i := 0; i < 16; {
		if i == best {
			sb.WriteString("::")
			i += bl
			continue
		}
		if i > 0 && i != best+bl {
			sb.WriteString(":")
		}
		fmt.Fprintf(&sb, "%x", int(ip[i])<<8|int(ip[i+1]))
		i += 2
	}
	return sb.String()
}

// {ver, nets:[{a,len,style}], extra:[text], queries:[{a,len,style,plain}]}
func ipCase(in json.RawMessage) (bootstrap.RegistryType, []byte, []string) {
	type N struct {
		A     []int
		Len   int
		Style int
		Plain bool
		Text  T
		Host  []int
		Urls  []string
		Svc   int
	}
	c := parse[struct {
		Ver     int
		Nets    []N
		Extra   []T
		Queries []N
	}](in)
	sv := [][][]string{}
	for i, n := range c.Nets {
		h := n.A
		if n.Host != nil {
			h = n.Host
		}
		e := fmt.Sprintf("%s/%d", ipText(h, n.Style), n.Len)
		if i > 0 && n.Svc != 0 && n.Svc == c.Nets[i-1].Svc { // another entry of the same service
			sv[len(sv)-1][0] = append(sv[len(sv)-1][0], e)
			continue
		}
		sv = append(sv, [][]string{{e}, n.Urls})
	}
	for _, x := range c.Extra {
		sv = append(sv, [][]string{{x.String()}, {"https://extra.example/"}})
	}
	var qs []string
	for _, q := range c.Queries {
		switch {
		case q.Text != nil:
			qs = append(qs, q.Text.String())
		case q.Plain:
			qs = append(qs, ipText(q.A, q.Style))
		default:
			h := q.A
			if q.Host != nil {
				h = q.Host
			}
			qs = append(qs, fmt.Sprintf("%s/%d", ipText(h, q.Style), q.Len))
		}
	}
	t := bootstrap.IPv4
	if c.Ver == 6 {
		t = bootstrap.IPv6
	}
	return t, registryDoc(sv), qs
}

func ipAnswer(_ int, a *bootstrap.Answer, err error) any {
	type ans struct {
		St    string   `json:"st"`
		Entry ipNet    `json:"entry"`
		Urls  []string `json:"urls"`
	}
	r := ans{St: "ok", Entry: ipNet{A: []int{}, Len: -1}, Urls: []string{}}
	if err != nil {
		r.St = "err"
		return r
	}
	r.Urls = urlStrings(a.URLs)
	if a.Entry != "" {
		ip, n, e := net.ParseCIDR(a.Entry)
		if e != nil || !ip.Equal(n.IP) {
			r.St = "badentry:" + a.Entry
			return r
		}
		r.Entry.A = []int{}
		for _, b := range n.IP {
			r.Entry.A = append(r.Entry.A, int(b))
		}
		r.Entry.Len, _ = n.Mask.Size()
	}
	return r
}

// regUse asks one parsed registry the questions in the given order, or (conc
// > 0) all of them in conc goroutines at the same time.
func regUse(in json.RawMessage) any {
	c := parse[struct {
		Ver   int
		Order []int
		Conc  int
	}](in)
	t, doc, qs := bootstrap.RegistryType(0), []byte(nil), []string(nil)
	f := textAnswer
	if c.Ver != 0 {
		t, doc, qs = ipCase(in)
		f = ipAnswer
	} else {
		t, doc, qs = textCase(in)
	}
	reg, err := newRegistry(t, doc)
	must(err)
	file := func() string {
		m := map[string][]string{}
		for k, v := range reg.File().Entries {
			m[k] = urlStrings(v)
		}
		b, err := json.Marshal([]any{m, string(reg.File().JSON), reg.File().Description})
		must(err)
		return string(b)
	}
	type one struct {
		Q   int `json:"q"`
		Ans any `json:"ans"`
	}
	ask := func(q int) one {
		qu := &bootstrap.Question{RegistryType: t, Query: qs[q-1]}
		a, err := reg.Lookup(qu)
		qu.Query = "changed" // the question is the caller's own
		return one{q, f(0, a, err)}
	}
	before := file()
	answers := []any{}
	if c.Conc == 0 {
		for _, q := range c.Order {
			answers = append(answers, ask(q))
		}
	} else {
		start := make(chan bool)
		var wg sync.WaitGroup
		var mu sync.Mutex
		seen := map[string]bool{}
		for g := range c.Conc {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for r := range 3 {
					for i := range qs {
						o := ask((i*(1+g%3*2)+g+r)%len(qs) + 1)
						b, err := json.Marshal(o)
						must(err)
						mu.Lock()
						if !seen[string(b)] {
							seen[string(b)] = true
							answers = append(answers, json.RawMessage(b))
						}
						mu.Unlock()
					}
				}
				for i := range qs { // every question at least once
					b, err := json.Marshal(ask(i + 1))
					must(err)
					mu.Lock()
					if !seen[string(b)] {
						seen[string(b)] = true
						answers = append(answers, json.RawMessage(b))
					}
					mu.Unlock()
				}
			}()
		}
		close(start)
		wg.Wait()
	}
	return map[string]any{"answers": answers, "same": file() == before}
}

// {type, doc: T} -> parsed file
func regFile(in json.RawMessage) any {
	c := parse[struct {
		Services  json.RawMessage
		Meta      []string
		Raw       string
		Pre, Post string
		Types     []string
	}](in)
	var doc []byte
	if c.Raw != "" {
		doc = []byte(c.Raw)
	} else {
		m := map[string]any{"services": c.Services}
		if len(c.Meta) == 3 {
			m["description"], m["publication"], m["version"] = c.Meta[0], c.Meta[1], c.Meta[2]
		}
		var err error
		doc, err = json.Marshal(m)
		must(err)
		doc = []byte(c.Pre + string(doc) + c.Post)
	}
	type ent struct {
		Entry string   `json:"entry"`
		Urls  []string `json:"urls"`
	}
	type ans struct {
		St      string   `json:"st"`
		Entries []ent    `json:"entries"`
		Meta    []string `json:"meta"`
		JSON    bool     `json:"json"`
	}
	one := func(f *bootstrap.File, err error) ans {
		r := ans{St: "ok", Entries: []ent{}, Meta: []string{}, JSON: true}
		if err != nil {
			r.St = "err"
			return r
		}
		for k, v := range f.Entries {
			r.Entries = append(r.Entries, ent{k, urlStrings(v)})
		}
		sortBy(r.Entries, func(e ent) string { return e.Entry })
		r.Meta = []string{f.Description, f.Publication, f.Version}
		r.JSON = bytes.Equal(f.JSON, doc)
		return r
	}
	orig := append([]byte{}, doc...)
	res := []ans{one(bootstrap.NewFile(doc))}
	for _, t := range []bootstrap.RegistryType{bootstrap.DNS, bootstrap.ASN, bootstrap.IPv4, bootstrap.IPv6, bootstrap.ServiceProvider} {
		r, err := newRegistry(t, doc)
		if err != nil {
			res = append(res, one(nil, err))
			continue
		}
		res = append(res, one(r.File(), nil))
	}
	for i := range res {
		res[i].JSON = res[i].JSON && bytes.Equal(doc, orig)
	}
	for i := 1; i < len(res); i++ {
		a, _ := json.Marshal(res[0])
		b, _ := json.Marshal(res[i])
		if !bytes.Equal(a, b) {
			return map[string]any{"disagree": res}
		}
	}
	return res[0]
}
