package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/openrdap/rdap/bootstrap"
	"github.com/openrdap/rdap/bootstrap/cache"
)

const tick = time.Hour

// clockBase is the virtual start of every script.
var clockBase = time.Date(2026, 6, 1, 0, 0, 0, 0, time.UTC)

// ttlOf gives the timeout under which a file is fresh for less than that many
// ticks: any that lies between the ages possible before and after the last of
// them, which are whole ticks but for the few milliseconds that operations
// take. near selects one close to the upper or the lower end.
func ttlOf(ticks, near int) time.Duration {
	if ticks == 0 {
		return 0
	}
	if near%2 == 0 {
		return time.Duration(ticks)*tick - opTime*500
	}
	return time.Duration(ticks-1)*tick + opTime*500
}

// opTime passes with every operation.
const opTime = time.Millisecond

type bootClient struct {
	Kind string
	Dir  int
	Svc  int
	TTL  int
}

type bootOp struct {
	Op, F, T, K, How, Q string
	C, D, V, TTL, N     int
}

type bootScript struct {
	Cfg struct {
		Clients []bootClient
		Svcs    []string
		Types   []string
		Dirs    int
		Same    bool // serve the same document every time
		Pad     int  // bytes added to every document
	}
	Ops []bootOp
}

type bootObs struct {
	Res   string          `json:"res"`
	V     string          `json:"v"`
	Urls  []string        `json:"urls"`
	Files [][][][2]any    `json:"files"`
	Other json.RawMessage `json:"other,omitempty"`
}

// The query whose answer tells the version, and the entry it matches.
var verQuery = map[string][2]string{
	"dns": {"example.com", "com"}, "asn": {"as5", "1-10"}, "ipv4": {"10.1.2.3", "10.0.0.0/8"},
	"ipv6": {"2001:db8::1", "2001:db8::/32"}, "tag": {"X-TAG", "TAG"},
}

// queries that match nothing, and queries that are not valid (where there are any)
var otherQuery = map[string][2]string{
	"dns": {"example.org", "a b..c"}, "asn": {"AS11", "ASxyz"}, "ipv4": {"11.1.2.3/32", "2001:db8::1"}, "ipv6": {"2001:db9::1", "10.1.2.3"}, "tag": {"X-NOPE", "TAG"},
}

func versionDoc(id string) []byte {
	parts := strings.Split(id, "/")
	entry := verQuery[parts[1]][1]
	svc := fmt.Sprintf(`[["%s"], ["https://%s/"]]`, entry, strings.Join(parts, "."))
	if parts[1] == "tag" {
		svc = fmt.Sprintf(`[["m@x.example"], ["%s"], ["https://%s/"]]`, entry, strings.Join(parts, "."))
	}
	// Distinctive formatting: a cached file must be these bytes exactly.
	return []byte(fmt.Sprintf("{ \"description\":\"%s\",\n\t\"publication\" : \"2024-01-01T00:00:00Z\", \"version\":\"1.0\",\r\n \"services\": [ %s ] }  \n", id, svc))
}

func versionOfURL(u string) string {
	h := strings.TrimSuffix(strings.TrimPrefix(u, "https://"), "/")
	return strings.Join(strings.Split(h, "."), "/")
}

type bootWorld struct {
	sc      bootScript
	root    string
	now     time.Time
	ver     int
	fault   string
	n       int // operation number
	near    int // which timeouts to choose
	urls    []string
	clients []*bootstrap.Client
	ttls    map[int]time.Duration
	names   map[string]string // "svc/type" -> file name
	known   map[string]string // content bytes -> id
	svcOf   map[string]int    // URL -> service
}

func (w *bootWorld) dir(d int) string {
	return filepath.Join(w.root, fmt.Sprintf("d%d", d), "openrdap")
}

func (w *bootWorld) setClock() { time.VerifSet(w.now.UnixNano(), true) }

func (w *bootWorld) content(id string) []byte {
	b := w.doc(id)
	w.known[string(b)] = id
	return b
}

func (w *bootWorld) doc(id string) []byte {
	b := versionDoc(id)
	if w.sc.Cfg.Pad > 0 {
		b = append(b[:len(b)-4:len(b)-4], (",\"pad\":\"" + strings.Repeat("0123456789", w.sc.Cfg.Pad/10) + "\" }  \n")...)
	}
	return b
}

func (w *bootWorld) num(n int) int {
	if w.sc.Cfg.Same {
		return 1
	}
	return n
}

// bad documents, by operation number, so that scripts differ
func malformed(n int, t string) []byte {
	good := string(versionDoc("0/" + t + "/0"))
	switch n % 6 {
	case 0:
		return []byte("<html><body>hi</body></html>")
	case 1:
		return []byte(good[:len(good)-6])
	case 2:
		return []byte(strings.Replace(good, "[ [", "[ [[\"a\"]], [", 1))
	case 3:
		return []byte(strings.Replace(good, "\"services\": [", "\"services\": [ 1, ", 1))
	case 4:
		return []byte{}
	default:
		return []byte(strings.Replace(good, "\"services\": [", "\"services\": [ [], ", 1))
	}
}

var badStatuses = []int{500, 404, 204, 206, 302, 201, 304, 503, 429}

type cutBody struct {
	b   []byte
	err error
}

func (c *cutBody) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		return 0, c.err
	}
	n := copy(p, c.b)
	c.b = c.b[n:]
	return n, nil
}
func (c *cutBody) Close() error { return nil }

// serve answers a registry file request of any service.
func (w *bootWorld) serve(req *http.Request) (*http.Response, error) {
	u := req.URL.String()
	w.urls = append(w.urls, u)
	svc, typ := 0, ""
	for i, b := range w.sc.Cfg.Svcs {
		for _, t := range w.sc.Cfg.Types {
			if strings.TrimSuffix(b, "/")+"/"+fileNames[t] == u {
				svc, typ = i+1, t
			}
		}
	}
	if typ == "" {
		return httpResp(req, 404, []byte("no such file")), nil
	}
	doc := w.content(fmt.Sprintf("%d/%s/%d", svc, typ, w.num(w.ver+1)))
	switch w.fault {
	case "ok", "":
		w.ver++
		return httpResp(req, 200, doc), nil
	case "savefail":
		w.ver++
		os.VerifWriteFault([]int{0, 1, len(doc) / 2, len(doc) - 1}[w.n%4])
		return httpResp(req, 200, doc), nil
	case "neterr":
		return nil, errors.New("connection refused")
	case "status":
		return httpResp(req, badStatuses[w.n%len(badStatuses)], doc), nil
	case "short":
		r := httpResp(req, 200, doc)
		cut := []int{0, len(doc) / 2, len(doc)}[w.n%3] // also: everything arrives, then an error
		r.Body = io.NopCloser(&cutBody{doc[:cut], io.ErrUnexpectedEOF})
		return r, nil
	default: // malformed
		return httpResp(req, 200, malformed(w.n, typ)), nil
	}
}

var fileNames = map[string]string{"dns": "dns.json", "asn": "asn.json", "ipv4": "ipv4.json", "ipv6": "ipv6.json", "tag": "object-tags.json"}

func (w *bootWorld) newClient(i int) {
	cc := w.sc.Cfg.Clients[i]
	u, err := url.Parse(w.sc.Cfg.Svcs[cc.Svc-1])
	must(err)
	c := &bootstrap.Client{HTTP: &http.Client{Transport: rt(w.serve), CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}, BaseURL: u}
	if u.String() == bootstrap.DefaultBaseURL && i%2 == 0 {
		c.BaseURL = nil // the default
	}
	switch cc.Kind {
	case "disk":
		d := cache.NewDiskCache()
		d.Dir = w.dir(cc.Dir)
		d.SetTimeout(ttlOf(cc.TTL, w.near+i))
		c.Cache = d
	case "mem":
		m := cache.NewMemoryCache()
		m.SetTimeout(ttlOf(cc.TTL, w.near+i))
		c.Cache = m
	}
	w.clients[i] = c
	w.ttls[i] = ttlOf(cc.TTL, w.near+i)
}

// raceable: there is a fresh, good file to be replaced.
func (w *bootWorld) raceable(op bootOp) bool {
	cc := w.sc.Cfg.Clients[op.C-1]
	p := w.path(cc.Dir, cc.Svc, op.T)
	st, err := os.Stat(p)
	if cc.Kind != "disk" || err != nil || !st.Mode().IsRegular() || w.now.Sub(st.ModTime()) >= w.ttls[op.C-1] {
		return false
	}
	b, err := os.ReadFile(p)
	return err == nil && strings.Contains(w.known[string(b)], "/")
}

func (w *bootWorld) get(c *bootstrap.Client, t string) string {
	var f *bootstrap.File
	var r bootstrap.Registry
	switch t {
	case "dns":
		if x := c.DNS(); x != nil {
			f, r = x.File(), x
		}
	case "asn":
		if x := c.ASN(); x != nil {
			f, r = x.File(), x
		}
	case "ipv4":
		if x := c.IPv4(); x != nil {
			f, r = x.File(), x
		}
	case "ipv6":
		if x := c.IPv6(); x != nil {
			f, r = x.File(), x
		}
	case "tag":
		if x := c.ServiceProvider(); x != nil {
			f, r = x.File(), x
		}
	}
	if r == nil {
		return "none"
	}
	a, err := r.Lookup(&bootstrap.Question{RegistryType: regTypes[t], Query: verQuery[t][0]})
	if err != nil || len(a.URLs) != 1 {
		return "mixed"
	}
	id := versionOfURL(a.URLs[0].String())
	if f.Description != id || !bytes.Equal(f.JSON, w.doc(id)) {
		return "mixed"
	}
	return id
}

func (w *bootWorld) lookup(c *bootstrap.Client, t, q string) (string, string) {
	query := verQuery[t][0]
	if q == "miss" || q == "bad" {
		query = otherQuery[t][map[string]int{"miss": 0, "bad": 1}[q]]
	}
	a, err := c.Lookup(&bootstrap.Question{RegistryType: regTypes[t], Query: query})
	if err != nil {
		if a != nil {
			return "err", "answer"
		}
		return "err", "none"
	}
	if a != nil && len(a.URLs) == 0 {
		return "ok", "nomatch"
	}
	if a == nil || len(a.URLs) != 1 {
		return "ok", "no answer"
	}
	return "ok", versionOfURL(a.URLs[0].String())
}

func (w *bootWorld) path(d, v int, t string) string {
	return filepath.Join(w.dir(d), w.names[fmt.Sprintf("%d/%s", v, t)])
}

func (w *bootWorld) putFile(path string, data []byte) {
	must(os.MkdirAll(filepath.Dir(path), 0o755))
	os.RemoveAll(path)
	must(os.WriteFile(path, data, 0o600))
	must(os.Chtimes(path, w.now, w.now))
}

// ext is what another process does to a cached file.
func (w *bootWorld) ext(op bootOp) {
	p := w.path(op.D, op.V, op.T)
	switch op.K {
	case "remove":
		must(os.RemoveAll(p))
	case "new":
		w.ver++
		w.putFile(p, w.content(fmt.Sprintf("%d/%s/%d", op.V, op.T, w.num(w.ver))))
	case "corrupt":
		b := []byte([]string{"not json", "{\"services\": [[[\"com\"]]]}", "[]", "\x00\xff"}[w.n%4])
		w.known[string(b)] = "corrupt"
		w.putFile(p, b)
	case "empty":
		w.known[""] = "empty"
		w.putFile(p, nil)
	case "trunc":
		b := versionDoc(fmt.Sprintf("%d/%s/99", op.V, op.T))
		b = b[:len(b)*(1+w.n%3)/4]
		w.known[string(b)] = "trunc"
		w.putFile(p, b)
	case "wrongtype":
		b := []byte(`{"description":"","services":{"a":1}}`)
		w.known[string(b)] = "wrongtype"
		w.putFile(p, b)
	case "dir":
		must(os.RemoveAll(p))
		must(os.MkdirAll(p, 0o755))
		must(os.Chtimes(p, w.now, w.now))
	default:
		panic("harness: ext " + op.K)
	}
}

// race runs an operation while the file it loads is replaced: the new file
// takes its place just before the operation first reads from the old one.
func (w *bootWorld) race(op bootOp) (string, string) {
	c := w.clients[op.C-1]
	cc := w.sc.Cfg.Clients[op.C-1]
	p := w.path(cc.Dir, cc.Svc, op.T)
	w.ver++
	newDoc := w.content(fmt.Sprintf("%d/%s/%d", cc.Svc, op.T, w.num(w.ver)))
	// the new file waits beside, with the current time
	nf := filepath.Join(w.root, "new")
	must(os.WriteFile(nf, newDoc, 0o600))
	must(os.Chtimes(nf, w.now, w.now))
	var once sync.Once
	replace := func() { once.Do(func() { must(os.Rename(nf, p)) }) }
	os.VerifOnRead(func(name string) {
		if name == p {
			replace()
		}
	})
	res, v := "ok", ""
	if op.How == "lookup" {
		res, v = w.lookup(c, op.T, "hit")
	} else {
		v = w.get(c, op.T)
	}
	os.VerifOnRead(nil)
	// If nothing was read, the replacement happens now.
	replace()
	return res, v
}

func (w *bootWorld) snapshot() [][][][2]any {
	var res [][][][2]any
	for d := 1; d <= w.sc.Cfg.Dirs; d++ {
		var dv [][][2]any
		for v := range w.sc.Cfg.Svcs {
			var dt [][2]any
			for _, t := range w.sc.Cfg.Types {
				p := w.path(d, v+1, t)
				st, err := os.Stat(p)
				if err != nil {
					dt = append(dt, [2]any{"absent", 0})
					continue
				}
				m := int(st.ModTime().Sub(clockBase) / tick)
				if st.ModTime().Before(clockBase) {
					m = -1
				}
				if st.IsDir() {
					dt = append(dt, [2]any{"dir", m})
					continue
				}
				b, err := os.ReadFile(p)
				must(err)
				id, ok := w.known[string(b)]
				if !ok {
					id = fmt.Sprintf("unknown:%.60q", b)
				}
				dt = append(dt, [2]any{id, m})
			}
			dv = append(dv, dt)
		}
		res = append(res, dv)
	}
	return res
}

// learnNames finds out under which name each service's file is cached.
func (w *bootWorld) learnNames() {
	key := strings.Join(w.sc.Cfg.Svcs, " ") + "|" + strings.Join(w.sc.Cfg.Types, " ")
	if n, ok := namesCache[key]; ok {
		w.names = n
		return
	}
	w.names = map[string]string{}
	w.fault = "ok"
	for i, b := range w.sc.Cfg.Svcs {
		for _, t := range w.sc.Cfg.Types {
			d := cache.NewDiskCache()
			d.Dir = filepath.Join(w.root, "learn", fmt.Sprint(i), t)
			u, _ := url.Parse(b)
			c := &bootstrap.Client{HTTP: &http.Client{Transport: rt(func(r *http.Request) (*http.Response, error) {
				return httpResp(r, 200, versionDoc(fmt.Sprintf("%d/%s/0", i+1, t))), nil
			})}, BaseURL: u, Cache: d}
			err := c.Download(regTypes[t])
			es, _ := os.ReadDir(d.Dir)
			if err == nil && len(es) == 1 {
				w.names[fmt.Sprintf("%d/%s", i+1, t)] = es[0].Name()
			} else {
				w.names[fmt.Sprintf("%d/%s", i+1, t)] = fmt.Sprintf("unknown-%d-%s", i, t)
			}
		}
	}
	os.RemoveAll(filepath.Join(w.root, "learn"))
	namesCache[key] = w.names
}

var namesCache = map[string]map[string]string{}
var worldN int

func init() {
	kinds["boot"] = func(in json.RawMessage) any {
		w := &bootWorld{sc: parse[bootScript](in), now: clockBase, known: map[string]string{}, ttls: map[int]time.Duration{}}
		w.near = len(in)
		worldN++
		w.root = filepath.Join(os.Getenv("VH_SCRATCH"), fmt.Sprintf("w%d", worldN))
		must(os.MkdirAll(w.root, 0o755))
		defer os.RemoveAll(w.root)
		defer time.VerifSet(0, false)
		defer os.VerifWriteFault(-1)
		w.setClock()
		w.learnNames()
		w.clients = make([]*bootstrap.Client, len(w.sc.Cfg.Clients))
		for i := range w.clients {
			w.newClient(i)
		}
		var obs []bootObs
		for i, op := range w.sc.Ops {
			w.now = w.now.Add(opTime)
			w.setClock()
			w.n, w.fault, w.urls = i, op.F, []string{}
			o := bootObs{Res: "ok", V: "none"}
			switch op.Op {
			case "lookup":
				o.Res, o.V = w.lookup(w.clients[op.C-1], op.T, op.Q)
			case "download":
				if err := w.clients[op.C-1].Download(regTypes[op.T]); err != nil {
					o.Res = "err"
				} else {
					o.V = fmt.Sprintf("%d/%s/%d", w.sc.Cfg.Clients[op.C-1].Svc, op.T, w.num(w.ver))
				}
			case "get":
				o.V = w.get(w.clients[op.C-1], op.T)
			case "race":
				if !w.raceable(op) {
					o.Res = "skip"
				} else {
					o.Res, o.V = w.race(op)
				}
			case "ttl":
				c := w.clients[op.C-1]
				if c.Cache == nil { // default client: its cache appears at first use
					c.Cache = cache.NewMemoryCache()
				}
				c.Cache.SetTimeout(ttlOf(op.TTL, w.near+op.C))
				w.ttls[op.C-1] = ttlOf(op.TTL, w.near+op.C)
			case "tick":
				w.now = w.now.Add(time.Duration(op.N) * tick).Truncate(tick)
				w.setClock()
			case "ext":
				w.ext(op)
			case "rmdir":
				os.RemoveAll(w.dir(op.D))
			case "new":
				w.newClient(op.C - 1)
			case "client", "seed":
				old := w.clients[op.C-1]
				cc := w.sc.Cfg.Clients[op.C-1]
				if op.Op == "seed" {
					w.ver++
					must(old.Cache.Save(w.names[fmt.Sprintf("%d/%s", cc.Svc, op.T)], w.content(fmt.Sprintf("%d/%s/%d", cc.Svc, op.T, w.num(w.ver)))))
				}
				// the cache object lives on
				ttl := w.ttls[op.C-1]
				w.newClient(op.C - 1)
				w.clients[op.C-1].Cache, w.ttls[op.C-1] = old.Cache, ttl
			default:
				panic("harness: op " + op.Op)
			}
			os.VerifWriteFault(-1)
			o.Urls = w.urls
			stepDone(w.root, w.strays())
			o.Files = w.snapshot()
			obs = append(obs, o)
		}
		return map[string]any{"steps": obs, "names": w.nameTable()}
	}
}

// strays lists the files in the cache directories that are no cache files.
func (w *bootWorld) strays() []string {
	known := map[string]bool{}
	for _, n := range w.names {
		known[n] = true
	}
	var r []string
	for d := 1; d <= w.sc.Cfg.Dirs; d++ {
		es, _ := os.ReadDir(w.dir(d))
		for _, e := range es {
			if !known[e.Name()] {
				r = append(r, e.Name())
			}
		}
	}
	return r
}

// nameTable lists the cache file names, by service and type.
func (w *bootWorld) nameTable() [][]string {
	var r [][]string
	for v := range w.sc.Cfg.Svcs {
		var q []string
		for _, t := range w.sc.Cfg.Types {
			q = append(q, w.names[fmt.Sprintf("%d/%s", v+1, t)])
		}
		r = append(r, q)
	}
	return r
}
