package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"time"

	"github.com/openrdap/rdap/bootstrap/cache"
)

type cacheScript struct {
	Cfg struct {
		Caches []struct {
			Kind string
			Dir  int
			TTL  int
		}
		Dirs, Files int
	}
	Ops []struct {
		Op, X           string
		C, F, D, TTL, N int
	}
}

// contentBytes turns a content name into bytes: text, empty, binary, large.
func contentBytes(x string) []byte {
	switch x {
	case "empty":
		return []byte{}
	case "big":
		return bytes.Repeat([]byte("0123456789abcdef\n"), 9000)
	case "bom":
		return []byte("\xef\xbb\xbf{\"a\": 1}")
	case "ws":
		return []byte(" \t\n{}\n\n ")
	case "crlf":
		return []byte("{\r\n\"a\":\r1\x1a}\x00")
	case "huge":
		return bytes.Repeat([]byte("0123456789abcdef\n"), 200000)
	case "bin":
		b := make([]byte, 512)
		for i := range b {
			b[i] = byte(i)
		}
		return b
	}
	return []byte("content " + x)
}

func contentName(b []byte) string {
	for _, x := range []string{"a", "b", "c", "empty", "big", "bin", "bom", "ws", "crlf", "huge"} {
		if bytes.Equal(b, contentBytes(x)) {
			return x
		}
	}
	return fmt.Sprintf("unknown:%.40q", b)
}

func init() {
	kinds["cacheapi"] = func(in json.RawMessage) any {
		sc := parse[cacheScript](in)
		worldN++
		root := filepath.Join(os.Getenv("VH_SCRATCH"), fmt.Sprintf("c%d", worldN))
		must(os.MkdirAll(root, 0o755))
		defer os.RemoveAll(root)
		now := clockBase
		time.VerifSet(now.UnixNano(), true)
		defer time.VerifSet(0, false)
		defer os.VerifWriteFault(-1)
		dir := func(d int) string { return filepath.Join(root, fmt.Sprintf("d%d", d), "sub", "openrdap") }
		name := func(f int) string { return []string{"", "dns.json", "DNS.json", "dns"}[f] }
		var caches []cache.RegistryCache
		for i, c := range sc.Cfg.Caches {
			var rc cache.RegistryCache
			if c.Kind == "disk" {
				d := cache.NewDiskCache()
				d.Dir = dir(c.Dir)
				rc = d
			} else {
				rc = cache.NewMemoryCache()
			}
			if c.TTL != 24 { // 24: the default
				rc.SetTimeout(ttlOf(c.TTL, len(in)+i))
			}
			caches = append(caches, rc)
		}
		type obs struct {
			Res string `json:"res"`
			X   string `json:"x"`
		}
		var steps []obs
		var bufs [][]byte
		put := func(p string, data []byte) {
			must(os.MkdirAll(filepath.Dir(p), 0o755))
			must(os.WriteFile(p, data, 0o600))
			must(os.Chtimes(p, now, now))
		}
		for i, op := range sc.Ops {
			now = now.Add(opTime)
			time.VerifSet(now.UnixNano(), true)
			o := obs{Res: "ok"}
			switch op.Op {
			case "save", "savefail":
				x := op.X
				if op.Op == "savefail" {
					x = "c"
					os.VerifWriteFault([]int{0, 3, len(contentBytes(x)) - 1}[i%3])
				}
				b := contentBytes(x)
				if err := caches[op.C-1].Save(name(op.F), b); err != nil {
					o.Res = "err"
				}
				os.VerifWriteFault(-1)
				bufs = append(bufs, b)
			case "load":
				b, err := caches[op.C-1].Load(name(op.F))
				if err != nil {
					o.Res = "err"
				} else {
					o.X = contentName(b)
					bufs = append(bufs, b)
				}
			case "state":
				st := caches[op.C-1].State(name(op.F))
				o.Res = map[cache.FileState]string{cache.Absent: "absent", cache.Good: "good", cache.ShouldReload: "reload", cache.Expired: "expired"}[st]
			case "initdir":
				created, err := caches[op.C-1].(*cache.DiskCache).InitDir()
				o.Res = "exists"
				if created {
					o.Res = "created"
				}
				if err != nil {
					o.Res = "err"
				}
			case "ttl":
				caches[op.C-1].SetTimeout(ttlOf(op.TTL, len(in)+op.C))
			case "tick":
				now = now.Add(time.Duration(op.N) * tick).Truncate(tick)
			case "extput":
				if st, err := os.Stat(dir(op.D)); err != nil || st.IsDir() {
					put(filepath.Join(dir(op.D), name(op.F)), contentBytes(op.X))
				}
			case "extfuture":
				p := filepath.Join(dir(op.D), name(op.F))
				put(p, contentBytes(op.X))
				must(os.Chtimes(p, now.Add(3*tick), now.Add(3*tick)))
			case "extdir":
				p := filepath.Join(dir(op.D), name(op.F))
				os.RemoveAll(p)
				must(os.MkdirAll(p, 0o755))
				must(os.Chtimes(p, now, now))
			case "extrm":
				os.RemoveAll(filepath.Join(dir(op.D), name(op.F)))
			case "rmdir":
				must(os.RemoveAll(dir(op.D)))
			case "break":
				must(os.RemoveAll(dir(op.D)))
				put(dir(op.D), []byte("in the way"))
			case "scribble":
				for _, b := range bufs {
					for j := range b {
						b[j] ^= 0x55
					}
				}
			default:
				panic("harness: op " + op.Op)
			}
			steps = append(steps, o)
		}
		return map[string]any{"steps": steps}
	}
}
