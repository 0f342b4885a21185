package main

import (
	"encoding/json"
	"net/url"
	"reflect"

	"github.com/openrdap/rdap"
)

type param struct {
	name T
	vals []T
}

func (p *param) UnmarshalJSON(b []byte) error {
	return json.Unmarshal(b, &[]any{&p.name, &p.vals})
}

func init() {
	kinds["auto"] = func(in json.RawMessage) any {
		c := parse[struct{ T T }](in)
		r := rdap.NewAutoRequest(c.T.String())
		s := T{}
		if r.Server != nil {
			s = toT(r.Server.String())
		}
		return map[string]any{"type": r.Type.String(), "q": toT(r.Query), "server": s}
	}
	// the URL of a request, and whether building it left its parts alone
	kinds["requrl"] = func(in json.RawMessage) any {
		c := parse[struct {
			Type   string
			Q      T
			Server T
			Params []param
		}](in)
		build := func() *rdap.Request {
			r := &rdap.Request{Type: requestTypes[c.Type], Query: c.Q.String()}
			if len(c.Server) > 0 {
				u, err := url.Parse(c.Server.String())
				must(err)
				r.Server = u
			}
			if len(c.Params) > 0 {
				r.Params = url.Values{}
				for _, p := range c.Params {
					vs := []string{}
					for _, v := range p.vals {
						vs = append(vs, v.String())
					}
					r.Params[p.name.String()] = vs
				}
			}
			return r
		}
		r, twin := build(), build()
		u := r.URL()
		pure := reflect.DeepEqual(r, twin)
		if u == nil {
			return map[string]any{"nil": true, "pure": pure, "url": T{}}
		}
		s := u.String()
		again := r.URL()
		pure = pure && again != nil && again.String() == s
		// the result is the caller's
		u.Host, u.Path, u.RawQuery, u.Fragment = "changed", "/changed", "changed=1", "changed"
		pure = pure && reflect.DeepEqual(r, twin) && r.URL().String() == s
		return map[string]any{"nil": false, "pure": pure, "url": toT(s)}
	}
}
