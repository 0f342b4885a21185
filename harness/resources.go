package main

import (
	"encoding/json"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
)

// Resources held by operations of the code under test: response bodies that
// were delivered and not closed, open files, files left in cache directories.

type resEvent struct {
	K  string `json:"k"`
	ID int    `json:"id"`
}

type resStep struct {
	Ev   []resEvent `json:"ev"`
	Fds  []string   `json:"fds"`
	Left []string   `json:"left"`
}

var res struct {
	sync.Mutex
	on    bool
	n     int
	cur   []resEvent
	steps []resStep
}

type trackedBody struct {
	io.ReadCloser
	id   int
	once sync.Once
}

func (b *trackedBody) Close() error {
	b.once.Do(func() { resAdd("close", b.id) })
	return b.ReadCloser.Close()
}

func resAdd(k string, id int) {
	res.Lock()
	res.cur = append(res.cur, resEvent{k, id})
	res.Unlock()
}

// track follows a response's body.
func track(r *http.Response) {
	res.Lock()
	on := res.on
	res.n++
	id := res.n
	res.Unlock()
	if !on || r == nil || r.Body == nil {
		return
	}
	resAdd("open", id)
	r.Body = &trackedBody{ReadCloser: r.Body, id: id}
}

// stepDone notes what an operation returned with. left lists files that do not
// belong where they are.
func stepDone(root string, left []string) {
	res.Lock()
	defer res.Unlock()
	if !res.on {
		return
	}
	s := resStep{append([]resEvent{}, res.cur...), []string{}, append([]string{}, left...)}
	if root != "" {
		es, _ := os.ReadDir("/proc/self/fd")
		for _, e := range es {
			if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(t, root+"/") {
				s.Fds = append(s.Fds, filepath.Base(t))
			}
		}
		sort.Strings(s.Fds)
	}
	res.cur = nil
	res.steps = append(res.steps, s)
}

func init() {
	for _, k := range []string{"boot", "client"} {
		kinds["res"+k] = func(in json.RawMessage) any {
			res.Lock()
			res.on, res.cur, res.steps, res.n = true, nil, []resStep{}, 0
			res.Unlock()
			kinds[k](in)
			res.Lock()
			defer res.Unlock()
			res.on = false
			return map[string]any{"res": res.steps}
		}
	}
}
