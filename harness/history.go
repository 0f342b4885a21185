package main

import (
	"bytes"
	"encoding/json"
	"reflect"
	"strings"
	"sync"

	"github.com/openrdap/rdap"
)

// scramble modifies everything reachable from a decoded object.
func scramble(v reflect.Value, done map[any]bool) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() || done[v.Pointer()] {
			return
		}
		done[v.Pointer()] = true
		if d, ok := v.Interface().(*rdap.DecodeData); ok {
			for _, f := range d.Fields() {
				scrambleJSON(d.Value(f))
				for i, n := 0, d.Notes(f); i < len(n); i++ {
					n[i] = "scrambled"
				}
			}
			for _, l := range [][]string{d.Fields(), d.UnknownFields()} {
				for i := range l {
					l[i] = "scrambled"
				}
			}
			return
		}
		scramble(v.Elem(), done)
	case reflect.Slice:
		for i := range v.Len() {
			scramble(v.Index(i), done)
		}
		if v.CanSet() && v.Len() > 0 {
			v.Set(reflect.AppendSlice(v, v)) // grows into whatever spare capacity there is
		}
	case reflect.Struct:
		for i := range v.NumField() {
			if v.Type().Field(i).IsExported() {
				scramble(v.Field(i), done)
			}
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			scramble(v.MapIndex(k), done)
			v.SetMapIndex(k, reflect.Zero(v.Type().Elem()))
		}
		if v.Type().Key().Kind() == reflect.String && v.Len() > 0 {
			v.SetMapIndex(reflect.ValueOf("scrambled").Convert(v.Type().Key()), reflect.Zero(v.Type().Elem()))
		}
	case reflect.Interface:
		scrambleJSON(v.Interface())
	case reflect.String:
		if v.CanSet() {
			v.SetString("scrambled")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	default:
		if v.CanUint() && v.CanSet() {
			v.SetUint(99)
		}
	}
}

func scrambleJSON(v any) {
	switch v := v.(type) {
	case []any:
		for i := range v {
			scrambleJSON(v[i])
			v[i] = "scrambled"
		}
	case map[string]any:
		for k := range v {
			scrambleJSON(v[k])
			v[k] = "scrambled"
		}
		v["scrambled"] = true
	}
}

func resultOf(doc int, obj any, err error) map[string]any {
	o := project(obj, err)
	o["doc"] = doc
	o["out"] = []string{}
	if err == nil {
		o["out"] = strings.Split(printed(obj, opts{}), "\n")
	}
	return o
}

func init() {
	// a history of decodes, prints and modifications in one process
	kinds["history"] = func(in json.RawMessage) any {
		c := parse[struct {
			Docs []J
			Ops  [][2]json.RawMessage
		}](in)
		type res struct {
			doc     int
			obj     any
			err     error
			tainted bool
		}
		var rs []*res
		var w bytes.Buffer
		pr := &rdap.Printer{Writer: &w}
		for _, op := range c.Ops {
			var what string
			var k int
			must(json.Unmarshal(op[0], &what))
			must(json.Unmarshal(op[1], &k))
			switch what {
			case "d":
				data := c.Docs[k-1].JSON()
				obj, err := rdap.NewDecoder(data).Decode()
				for i := range data {
					data[i] = 'x' // the caller's buffer is its own
				}
				rs = append(rs, &res{doc: k, obj: obj, err: err})
			case "m":
				r := rs[k-1]
				r.tainted = true
				if r.err == nil {
					scramble(reflect.ValueOf(r.obj), map[any]bool{})
				}
			case "p":
				if r := rs[k-1]; r.err == nil {
					pr.Print(r.obj)
					(&rdap.Printer{Writer: &w, BriefOutput: true, BriefLinks: true, OmitNotices: true, IndentChar: '\t'}).Print(r.obj)
					(&rdap.Response{Object: r.obj}).ToWhoisStyleResponse()
				}
			}
		}
		out := []any{}
		for _, r := range rs {
			if !r.tainted {
				out = append(out, resultOf(r.doc, r.obj, r.err))
			}
		}
		return map[string]any{"objs": out}
	}
	// the documents decoded and printed by several goroutines at the same time
	kinds["concurrent"] = func(in json.RawMessage) any {
		c := parse[struct {
			Docs   []J
			N      int
			Rounds int
		}](in)
		start := make(chan bool)
		var wg sync.WaitGroup
		var mu sync.Mutex
		seen := map[string]bool{}
		out := []any{}
		for g := range c.N {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						mu.Lock()
						defer mu.Unlock()
						out = append(out, map[string]any{"doc": 1, "err": false, "type": "panic", "out": []string{}})
					}
				}()
				<-start
				for r := range c.Rounds {
					for i := range c.Docs {
						k := (i*(1+g%3) + g + r) % len(c.Docs)
						obj, err := rdap.NewDecoder(c.Docs[k].JSON()).Decode()
						o := resultOf(k+1, obj, err)
						b, e := json.Marshal(o)
						must(e)
						mu.Lock()
						if !seen[string(b)] {
							seen[string(b)] = true
							out = append(out, json.RawMessage(b))
						}
						mu.Unlock()
						if err == nil {
							scramble(reflect.ValueOf(obj), map[any]bool{})
						}
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		return map[string]any{"objs": out}
	}
}
