// Command vh executes inputs, one JSON value per line, on the real code in
// /repo through its exported API, and writes one observation per line.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type handler func(in json.RawMessage) any

var kinds = map[string]handler{}

// T is text as a byte sequence (the specifications' representation).
type T []int

func (t T) String() string {
	b := make([]byte, len(t))
	for i, c := range t {
		b[i] = byte(c)
	}
	return string(b)
}

func toT(s string) T {
	t := make(T, len(s))
	for i := 0; i < len(s); i++ {
		t[i] = int(s[i])
	}
	return t
}

func toTs(ss []string) []T {
	r := make([]T, 0, len(ss))
	for _, s := range ss {
		r = append(r, toT(s))
	}
	return r
}

func must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

func parse[V any](in json.RawMessage) V {
	var v V
	d := json.NewDecoder(bytes.NewReader(in))
	must(d.Decode(&v))
	return v
}

// caseTimeout bounds one case; a case that exceeds it is observed as a hang.
const caseTimeout = 40 * time.Second

// hangs counts the cases that hung; after a few, no further case is tried.
var hangs atomic.Int32

func runCase(h handler, in json.RawMessage) (out any) {
	if hangs.Load() >= 3 {
		return map[string]any{"hang": true}
	}
	done := make(chan any, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				msg := fmt.Sprint(p)
				if strings.HasPrefix(msg, "harness: ") {
					fmt.Fprintf(os.Stderr, "%s\n%s\ninput: %.2000s\n", msg, debug.Stack(), in)
					os.Exit(3)
				}
				done <- map[string]any{"panic": msg, "stack": stackTop()}
			}
		}()
		done <- h(in)
	}()
	t := time.NewTimer(caseTimeout)
	defer t.Stop()
	select {
	case out = <-done:
		return out
	case <-t.C:
		hangs.Add(1)
		return map[string]any{"hang": true}
	}
}

func stackTop() string {
	var keep []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.Contains(l, "/repo/") {
			keep = append(keep, strings.TrimSpace(l))
		}
	}
	if len(keep) > 4 {
		keep = keep[:4]
	}
	return strings.Join(keep, " | ")
}

func main() {
	if len(os.Args) == 2 && os.Args[1] == "cli-child" {
		cliChild()
		return
	}
	if len(os.Args) < 5 {
		fmt.Fprintln(os.Stderr, "usage: vh KIND IN OUT WORKERS")
		os.Exit(2)
	}
	h, ok := kinds[os.Args[1]]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown kind", os.Args[1])
		os.Exit(2)
	}
	workers, _ := strconv.Atoi(os.Args[4])
	runtime.GOMAXPROCS(runtime.NumCPU())
	data, err := os.ReadFile(os.Args[2])
	must(err)
	lines := bytes.Split(bytes.TrimSuffix(data, []byte("\n")), []byte("\n"))
	if len(data) == 0 {
		lines = nil
	}
	outs := make([][]byte, len(lines))
	one := func(i int) {
		b, err := json.Marshal(runCase(h, lines[i]))
		must(err)
		outs[i] = b
	}
	if workers <= 1 {
		for i := range lines {
			one(i)
		}
	} else {
		var wg sync.WaitGroup
		next := make(chan int)
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := range next {
					one(i)
				}
			}()
		}
		for i := range lines {
			next <- i
		}
		close(next)
		wg.Wait()
	}
	f, err := os.Create(os.Args[3])
	must(err)
	w := bufio.NewWriter(f)
	for _, o := range outs {
		w.Write(o)
		w.WriteByte('\n')
	}
	must(w.Flush())
	must(f.Close())
}
