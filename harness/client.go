package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"path"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/openrdap/rdap"
	"github.com/openrdap/rdap/bootstrap"
)

var requestTypes = func() map[string]rdap.RequestType {
	m := map[string]rdap.RequestType{}
	for t := rdap.AutnumRequest; t <= rdap.RawRequest; t++ {
		m[t.String()] = t
	}
	return m
}()

type clientReq struct {
	Api, Type, Q, Server, Boot, Match, Ctx, Timeout string
	Servers, Outs                                   []string
	Same                                            int         // > 0: the request object of that step
	Params                                          [][2]string // the request's own parameters
	With                                            bool        // through WithServer of one shared request
}

type attempt struct {
	URL  string `json:"url"`
	Err  bool   `json:"err"`
	Body string `json:"body"`
}

type clientObs struct {
	R struct {
		Err string `json:"err"`
		Obj struct {
			Type string `json:"type"`
			From string `json:"from"`
		} `json:"obj"`
		Attempts []attempt `json:"attempts"`
		Sent     []string  `json:"sent"`
		Boot     []string  `json:"boot"`
		Answer   []string  `json:"answer"`
	} `json:"r"`
	Carried []carried `json:"carried"`
	Same    bool      `json:"same"` // the request is as it was
	Kept    bool      `json:"kept"` // the response is as it was, at the end of the session
}

// snapshot is everything a caller can see of a request.
func snapshot(r *rdap.Request) string {
	if r == nil {
		return "nil"
	}
	p := []string{}
	for k, v := range r.Params {
		p = append(p, fmt.Sprintf("%q=%q/%v", k, v, v == nil))
	}
	sort.Strings(p)
	return fmt.Sprintf("%v %q %v %q %v %p %#v %v %T%v", r.Type, r.Query, r.Timeout, r.FetchRoles, p, r.Server, r.Server, r.Params == nil, r.Context(), r.Context().Value(ctxKey{}))
}

// kept is everything a caller can see of a response.
func kept(resp *rdap.Response) string {
	if resp == nil {
		return "nil"
	}
	s := fmt.Sprintf("%p ", resp.Object)
	if resp.Object != nil {
		s += printed(resp.Object, opts{})
	}
	for _, h := range resp.HTTP {
		s += fmt.Sprintf("\n%p %q %q %v %v %p", h, h.URL, h.Body, h.Error, h.Duration, h.Response)
	}
	if a := resp.BootstrapAnswer; a != nil {
		s += fmt.Sprintf("\n%q %q %q", a.Query, a.Entry, urlStrings(a.URLs))
	}
	return s
}

// withoutParams takes the request's own parameters out of a URL.
func withoutParams(u string, params [][2]string) string {
	if len(params) == 0 {
		return u
	}
	x, err := url.Parse(u)
	if err != nil {
		return u + " unparsable"
	}
	q := x.Query()
	for _, p := range params {
		if len(q[p[0]]) != 1 || q[p[0]][0] != p[1] {
			return u + " without " + p[0]
		}
		delete(q, p[0])
	}
	x.RawQuery = q.Encode()
	return x.String()
}

type carried struct {
	Dl  string `json:"dl"`
	Ctx bool   `json:"ctx"`
}

type ctxKey struct{}

var deadlines = map[string]time.Duration{"soon": 500 * time.Millisecond, "30s": 30 * time.Second, "10m": 10 * time.Minute, "1h": time.Hour, "2h": 2 * time.Hour}

// serverBody is what an outcome's server sends; the marker names the server.
func serverBody(out, server string) (status int, body string) {
	obj := func(class, name string) string {
		return fmt.Sprintf(`{"objectClassName":"%s","%s":%q}`, class, name, server)
	}
	switch out {
	case "dom":
		return 200, obj("domain", "handle")
	case "domws":
		return 200, " \r\n\t" + obj("domain", "handle") + "\n\n"
	case "domhtmltype", "domnotype", "domrdap":
		return 200, obj("domain", "handle")
	case "dombig", "domhuge":
		n := map[string]int{"dombig": 100 << 10, "domhuge": 5 << 20}[out]
		return 200, fmt.Sprintf(`{"port43":%q,"objectClassName":"domain","handle":%q}`, strings.Repeat("whois.", n/6), server)
	case "ws":
		return 200, " \n"
	case "bom":
		return 200, "\xef\xbb\xbf" + obj("domain", "handle")
	case "trail":
		return 200, obj("domain", "handle") + " x"
	case "twice":
		return 200, obj("domain", "handle") + obj("domain", "handle")
	case "ip":
		return 200, obj("ip network", "handle")
	case "as":
		return 200, obj("autnum", "handle")
	case "ent":
		return 200, obj("entity", "handle")
	case "ns":
		return 200, obj("nameserver", "handle")
	case "help":
		return 200, fmt.Sprintf(`{"notices":[{"title":%q}]}`, server)
	case "rerr":
		return 200, fmt.Sprintf(`{"errorCode":451,"title":%q,"description":["first part","second part"]}`, server)
	case "rerrnull", "rerrstr", "rerrbig", "rerrneg":
		code := map[string]string{"rerrnull": "null", "rerrstr": `"oops"`, "rerrbig": "70000", "rerrneg": "-5"}[out]
		return 200, fmt.Sprintf(`{"errorCode":%s,"title":%q,"description":["first part","second part, odd"]}`, code, server)
	case "rerr0", "rerr200", "rerr404", "rerr429", "rerr500", "rerr1000", "rerr65535":
		return 200, fmt.Sprintf(`{"errorCode":%s,"title":%q,"description":["first part","second part"]}`, out[4:], server)
	case "srch":
		return 200, fmt.Sprintf(`{"domainSearchResults":[{"objectClassName":"domain","handle":%q}]}`, server)
	case "nf":
		return 404, ""
	case "nfbody":
		return 404, obj("domain", "handle")
	case "nfcut":
		return 404, obj("domain", "handle")
	case "html":
		return 200, "<html>" + server + "</html>"
	case "array":
		return 200, fmt.Sprintf(`[%q]`, server)
	case "badclass":
		return 200, obj("planet", "handle")
	case "partial":
		b := obj("domain", "handle")
		return 200, b[:len(b)-2]
	case "500":
		return 500, "oops"
	case "empty":
		return 200, ""
	case "204":
		return 204, ""
	case "cut", "hangbody":
		return 200, obj("domain", "handle")
	}
	if code, err := strconv.Atoi(out[1:]); err == nil {
		switch out[0] {
		case 'd':
			return code, obj("domain", "handle")
		case 'e':
			return code, fmt.Sprintf(`{"errorCode":%d,"title":%q}`, code, server)
		}
	}
	panic("harness: outcome " + out)
}

type waitBody struct {
	ctx  context.Context
	data io.Reader
}

func (b *waitBody) Read(p []byte) (int, error) {
	if n, err := b.data.Read(p); err == nil {
		return n, nil
	}
	return 0, waitCtx(b.ctx)
}
func (b *waitBody) Close() error { return nil }

func waitCtx(ctx context.Context) error {
	select {
	case <-ctx.Done():
		return ctx.Err()
	case <-time.After(5 * time.Second):
		return errors.New("harness: no deadline came")
	}
}

func deadlineName(ctx context.Context, start time.Time) string {
	d, ok := ctx.Deadline()
	if !ok {
		return "none"
	}
	for n, x := range deadlines {
		if diff := d.Sub(start.Add(x)); diff > -time.Second && diff < time.Second && n != "soon" {
			return n
		}
	}
	if diff := d.Sub(start); diff > 0 && diff < time.Second {
		return "soon"
	}
	return fmt.Sprintf("at %s", d.Sub(start))
}

// registryFile is the world's registry document of one type.
func registryFile(file string, servers []string) []byte {
	sv := [][][]string{}
	entry := map[string]string{"dns.json": "example", "asn.json": "1-10", "ipv4.json": "10.0.0.0/8", "ipv6.json": "2001:db8::/32", "object-tags.json": "TAG"}[file]
	other := map[string]string{"dns.json": "other", "asn.json": "20-30", "ipv4.json": "192.0.2.0/24", "ipv6.json": "2001:dead::/32", "object-tags.json": "OTHER"}[file]
	pre := [][]string{}
	if file == "object-tags.json" {
		pre = [][]string{{"m@example.net"}}
	}
	sv = append(sv, append(append([][]string{}, pre...), []string{other}, []string{"https://decoy.example/"}))
	sv = append(sv, append(append([][]string{}, pre...), []string{entry}, servers))
	return registryDoc(sv)
}

// serverOf is the server that a request URL belongs to.
func serverOf(servers []string, u string) int {
	res := -1
	for i, s := range servers {
		if strings.HasPrefix(u, s) && (res < 0 || len(s) > len(servers[res])) {
			res = i
		}
	}
	return res
}

// bodyID names the recorded body of an attempt: the one its server sent.
func bodyID(r clientReq, u string, body []byte, err error) string {
	servers := r.Servers
	if r.Server != "" {
		servers = []string{r.Server}
	}
	if i := serverOf(servers, u); i >= 0 {
		s := servers[i]
		switch r.Outs[i] {
		case "neterr", "timeouterr", "hang", "cut", "nfcut", "hangbody":
			if err == nil {
				return "accepted an incomplete body"
			}
			return ""
		}
		if _, b := serverBody(r.Outs[i], s); b == string(body) {
			return r.Outs[i] + "@" + s
		}
	}
	return fmt.Sprintf("other: %.60q", body)
}

func objInfo(o rdap.RDAPObject) (string, string) {
	switch x := o.(type) {
	case *rdap.Domain:
		return "Domain", x.Handle
	case *rdap.IPNetwork:
		return "IPNetwork", x.Handle
	case *rdap.Autnum:
		return "Autnum", x.Handle
	case *rdap.Entity:
		return "Entity", x.Handle
	case *rdap.Nameserver:
		return "Nameserver", x.Handle
	case *rdap.Help:
		if len(x.Notices) == 1 {
			return "Help", x.Notices[0].Title
		}
		return "Help", "?"
	case *rdap.Error:
		return "Error", x.Title
	case *rdap.DomainSearchResults:
		if len(x.Domains) == 1 {
			return "DomainSearchResults", x.Domains[0].Handle
		}
	case nil:
		return "", ""
	}
	return fmt.Sprintf("%T", o), "?"
}

func errClass(err error, out string) string {
	if err == nil {
		return ""
	}
	var ce *rdap.ClientError
	if errors.As(err, &ce) {
		switch ce.Type {
		case rdap.InputError:
			return "input"
		case rdap.BootstrapNotSupported:
			return "notsupported"
		case rdap.BootstrapNoMatch:
			return "nomatch"
		case rdap.WrongResponseType:
			return "wrongtype"
		case rdap.NoWorkingServers:
			return "noservers"
		case rdap.ObjectDoesNotExist:
			return "notfound"
		case rdap.RDAPServerError:
			// carries the code (where the server sent one), title and description
			code := map[string]string{"rerr": "451", "rerr200": "200", "rerr404": "404", "rerr429": "429", "rerr500": "500", "rerr1000": "1000", "rerr65535": "65535"}[out]
			if !strings.Contains(ce.Text, code) {
				return "server error without the code"
			}
			for _, n := range []string{"://", "first part", "second part"} {
				if !strings.Contains(ce.Text, n) {
					return "server error without " + n
				}
			}
			return "server"
		}
		return fmt.Sprintf("ClientError %d", ce.Type)
	}
	if errors.Is(err, context.DeadlineExceeded) {
		return "deadline"
	}
	return "other"
}

func init() {
	kinds["client"] = func(in json.RawMessage) any {
		sc := parse[struct{ Reqs []clientReq }](in)
		now := clockBase
		time.VerifSet(now.UnixNano(), true)
		defer time.VerifSet(0, false)
		var cur clientReq
		var obs *clientObs
		lastOut := ""
		var start time.Time
		see := func(r *http.Request) {
			obs.Carried = append(obs.Carried, carried{deadlineName(r.Context(), start), r.Context().Value(ctxKey{}) == "mine"})
			if cur.Ctx != "soon" && cur.Timeout != "soon" {
				// time passes with every request
				now = now.Add(7 * time.Second)
				time.VerifSet(now.UnixNano(), true)
			}
		}
		bootRT := rt(func(r *http.Request) (*http.Response, error) {
			if r.Context().Err() != nil {
				return nil, r.Context().Err()
			}
			f := path.Base(r.URL.Path)
			obs.R.Boot = append(obs.R.Boot, f)
			see(r)
			switch cur.Boot {
			case "ok":
				return httpResp(r, 200, registryFile(f, cur.Servers)), nil
			case "neterr":
				return nil, errors.New("no route to host")
			case "status":
				return httpResp(r, 503, registryFile(f, cur.Servers)), nil
			case "malformed":
				return httpResp(r, 200, []byte("{")), nil
			case "hang":
				return nil, waitCtx(r.Context())
			}
			panic("harness: boot " + cur.Boot)
		})
		rdapRT := rt(func(r *http.Request) (*http.Response, error) {
			if r.Context().Err() != nil {
				return nil, r.Context().Err()
			}
			u := r.URL.String()
			obs.R.Sent = append(obs.R.Sent, withoutParams(u, cur.Params))
			see(r)
			if r.Header.Get("User-Agent") != "agent/1" || !strings.Contains(r.Header.Get("Accept"), "application/rdap+json") || r.Method != "GET" {
				return nil, errors.New("bad header")
			}
			servers := cur.Servers
			if cur.Server != "" {
				servers = []string{cur.Server}
			}
			out, server := "", ""
			if i := serverOf(servers, u); i >= 0 {
				out, server = cur.Outs[i], servers[i]
			}
			lastOut = out
			switch out {
			case "":
				return httpResp(r, 200, []byte(`{"objectClassName":"domain","handle":"unknown server"}`)), nil
			case "neterr":
				return nil, errors.New("connection refused")
			case "timeouterr":
				return nil, context.DeadlineExceeded // the transport's own timeout, not the context's
			case "hang":
				return nil, waitCtx(r.Context())
			}
			status, body := serverBody(out, server)
			resp := httpResp(r, status, []byte(body))
			switch out {
			case "domhtmltype":
				resp.Header.Set("Content-Type", "text/html; charset=iso-8859-1")
			case "domnotype":
				resp.Header.Del("Content-Type")
			case "domrdap":
				resp.Header.Set("Content-Type", `application/rdap+json; profile="x"`)
				resp.ContentLength = -1
			case "cut", "nfcut":
				resp.Body = &cutBody{[]byte(body)[:len(body)-3], io.ErrUnexpectedEOF}
			case "hangbody":
				resp.Body = &waitBody{r.Context(), bytes.NewReader([]byte(body)[:5])}
			}
			return resp, nil
		})
		noRedir := func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }
		c := &rdap.Client{
			HTTP:      &http.Client{Transport: rdapRT, CheckRedirect: noRedir},
			Bootstrap: &bootstrap.Client{HTTP: &http.Client{Transport: bootRT, CheckRedirect: noRedir}},
			UserAgent: "agent/1",
		}
		var steps []*clientObs
		var objects []*rdap.Request
		var checks []func()
		serverURLs := map[string]*url.URL{} // requests for one server share its URL
		for _, r := range sc.Reqs {
			cur = r
			obs = &clientObs{Carried: []carried{}, Same: true, Kept: true}
			objects = append(objects, nil)
			obs.R.Attempts, obs.R.Sent, obs.R.Boot, obs.R.Answer = []attempt{}, []string{}, []string{}, []string{}
			start = now
			var err error
			var obj rdap.RDAPObject
			switch r.Api {
			case "nil":
				var resp *rdap.Response
				resp, err = c.Do(nil)
				if resp != nil {
					obj = resp.Object
				}
			case "domain":
				var x *rdap.Domain
				x, err = c.QueryDomain(r.Q)
				if x != nil {
					obj = x
				}
			case "autnum":
				var x *rdap.Autnum
				x, err = c.QueryAutnum(r.Q)
				if x != nil {
					obj = x
				}
			case "ip":
				var x *rdap.IPNetwork
				x, err = c.QueryIP(r.Q)
				if x != nil {
					obj = x
				}
			case "do":
				var req *rdap.Request
				if r.Same > 0 {
					req = objects[r.Same-1]
				} else {
					req = &rdap.Request{Type: requestTypes[r.Type], Query: r.Q}
					for _, p := range r.Params {
						if req.Params == nil {
							req.Params = url.Values{}
						}
						req.Params.Set(p[0], p[1])
					}
					ctx := context.WithValue(context.Background(), ctxKey{}, "mine")
					switch r.Ctx {
					case "none", "":
					case "past":
						var cancel func()
						ctx, cancel = context.WithDeadline(ctx, now.Add(-time.Hour))
						defer cancel()
					default:
						var cancel func()
						ctx, cancel = context.WithTimeout(ctx, deadlines[r.Ctx])
						defer cancel()
					}
					if d, ok := deadlines[r.Timeout]; ok {
						req.Timeout = d
					}
					req = req.WithContext(ctx)
				}
				if r.Server != "" && (r.Same == 0 || r.With) {
					u := serverURLs[r.Server]
					if u == nil {
						var e error
						u, e = url.Parse(r.Server)
						must(e)
						serverURLs[r.Server] = u
					}
					if r.With {
						base, was := req, snapshot(req)
						req = base.WithServer(u)
						checks = append(checks, func(o *clientObs) func() {
							return func() { o.Same = o.Same && snapshot(base) == was }
						}(obs))
					} else {
						req.Server = u
					}
				}
				objects[len(objects)-1] = req
				was := snapshot(req)
				var resp *rdap.Response
				resp, err = c.Do(req)
				first := kept(resp)
				checks = append(checks, func(o *clientObs) func() {
					return func() {
						o.Same = o.Same && snapshot(req) == was
						o.Kept = kept(resp) == first
					}
				}(obs))
				if resp != nil {
					obj = resp.Object
					for _, h := range resp.HTTP {
						a := attempt{URL: withoutParams(h.URL, r.Params), Err: h.Error != nil}
						if len(obs.R.Attempts) >= len(obs.R.Sent) {
							continue // refused by the expired context before being sent
						}
						a.Body = bodyID(r, h.URL, h.Body, h.Error)
						obs.R.Attempts = append(obs.R.Attempts, a)
					}
					if resp.BootstrapAnswer != nil {
						obs.R.Answer = urlStrings(resp.BootstrapAnswer.URLs)
					}
				} else if err == nil {
					obs.R.Err = "no response"
				}
			}
			if e := errClass(err, lastOut); e != "" {
				obs.R.Err = e
			}
			obs.R.Obj.Type, obs.R.Obj.From = objInfo(obj)
			steps = append(steps, obs)
			stepDone("", nil)
		}
		for _, f := range checks {
			f()
		}
		return map[string]any{"steps": steps}
	}
}
