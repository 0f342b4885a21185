package main

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"embed"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/big"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/openrdap/rdap"
)

//go:embed pki
var pkiFiles embed.FS

// One run of the command line client. "{D}" in Args, Xdg and Pre stands for
// the case's directory, "{W}" for the working directory.
type cliRun struct {
	Proc    int      // runs with the same number share a process
	Args    []string // command line
	Sandbox bool
	Now     int    // virtual time, in seconds
	Xdg     string // XDG_CACHE_HOME, or ""
	Servers []string
	Hosts   []cliHost
	Body    T // body of outcome "body"
	Pre     [][2]string
}

// cliHost says what is found at a host name.
type cliHost struct{ Host, Out, Cert string }

type cliReq struct {
	URL    T      `json:"url"`
	Method string `json:"method"`
	UA     string `json:"ua"`
	Accept string `json:"accept"`
	Cert   string `json:"cert"`
}

type cliObs struct {
	Exit   int         `json:"exit"`
	Panic  string      `json:"panic"`
	Out    T           `json:"out"`
	Text   string      `json:"text"` // standard output as text
	Stderr []string    `json:"stderr"`
	Reqs   []cliReq    `json:"reqs"`
	Dials  []string    `json:"dials"`
	Files  [][2]string `json:"files"` // accesses: operation, path
	Tree   []cliEnt    `json:"tree"`  // what exists afterwards
	BodyS  string      `json:"bodytext"`
	Body   T           `json:"body"` // the last body served by an RDAP server
	Obj    any         `json:"obj"`  // what it decodes to
	Ms     int64       `json:"ms"`
}

type cliEnt struct {
	Path string `json:"path"`
	Dir  bool   `json:"dir"`
	At   int64  `json:"at"`
	What string `json:"what"`
}

type childIn struct {
	Dir, Pki string
	Runs     []cliRun
}

const sandboxFiles = "DigiCert_RDAP_Pilot_Client_Certificate"

// ---- certificates

var cliHosts = []string{"data.iana.org", "test.rdap.net", "s1.example", "s2.example", "s3.example", "bs1.example", "bs2.example", "rdap.example"}

var cliAddrs = []net.IP{net.IPv4(192, 0, 2, 9)}

// bigFill is what @BIG@ stands for in a body.
var bigFill = "@" + strings.Repeat("x", 11<<20) + "@"

func contract(s string) string {
	s = strings.ReplaceAll(s, bigFill, "@BIG@")
	if len(s) > 1<<20 {
		s = s[:1000] + "..."
	}
	return s
}

func makePKI(dir string) {
	serial := int64(0)
	base := clockBase
	mk := func(cn string, names []string, from, to time.Time, ca bool, parent *x509.Certificate, pkey *ecdsa.PrivateKey) (*x509.Certificate, *ecdsa.PrivateKey) {
		serial++
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		must(err)
		t := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: cn}, NotBefore: from, NotAfter: to, DNSNames: names,
			IsCA: ca, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign,
			ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}}
		if len(names) > 1 {
			t.IPAddresses = cliAddrs
		}
		if parent == nil {
			parent, pkey = t, k
		}
		der, err := x509.CreateCertificate(rand.Reader, t, parent, &k.PublicKey, pkey)
		must(err)
		c, err := x509.ParseCertificate(der)
		must(err)
		kb, err := x509.MarshalECPrivateKey(k)
		must(err)
		must(os.WriteFile(dir+"/"+cn+".pem", pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o600))
		must(os.WriteFile(dir+"/"+cn+".key", pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb}), 0o600))
		return c, k
	}
	from, to := base.AddDate(-10, 0, 0), base.AddDate(20, 0, 0)
	ca, ck := mk("ca", nil, from, to, true, nil, nil)
	oca, ok := mk("otherca", nil, from, to, true, nil, nil)
	mk("good", cliHosts, from, to, false, ca, ck)
	mk("wronghost", []string{"elsewhere.example"}, from, to, false, ca, ck)
	mk("untrusted", cliHosts, from, to, false, oca, ok)
	mk("expired", cliHosts, from, base.AddDate(-1, 0, 0), false, ca, ck)
	mk("future", cliHosts, base.AddDate(5, 0, 0), to, false, ca, ck)
	mk("self", cliHosts, from, to, false, nil, nil)
	mk("client1", nil, from, to, false, oca, ok)
	mk("client2", nil, from, to, false, oca, ok)
	es, err := pkiFiles.ReadDir("pki")
	must(err)
	for _, e := range es {
		b, err := pkiFiles.ReadFile("pki/" + e.Name())
		must(err)
		must(os.WriteFile(dir+"/"+e.Name(), b, 0o600))
	}
	must(os.WriteFile(dir+"/garbage", []byte("not a certificate\n"), 0o600))
}

// ---- the stand-in network of one child process

type addrKey struct{}

type pipeConn struct {
	net.Conn
	addr string
}

type chanListener chan net.Conn

func (l chanListener) Accept() (net.Conn, error) {
	c, ok := <-l
	if !ok {
		return nil, net.ErrClosed
	}
	return c, nil
}
func (l chanListener) Close() error   { return nil }
func (l chanListener) Addr() net.Addr { return &net.TCPAddr{} }

type world struct {
	mu   sync.Mutex
	run  cliRun
	obs  *cliObs
	pki  string
	last []byte
	stop chan bool
}

func (w *world) host(addr string) *cliHost {
	h, _, _ := net.SplitHostPort(addr)
	for i := range w.run.Hosts {
		if w.run.Hosts[i].Host == h {
			return &w.run.Hosts[i]
		}
	}
	return nil
}

func (w *world) dial(l chanListener) func(ctx context.Context, network, address string) (net.Conn, error) {
	return func(ctx context.Context, network, address string) (net.Conn, error) {
		w.mu.Lock()
		defer w.mu.Unlock()
		w.obs.Dials = append(w.obs.Dials, address)
		h := w.host(address)
		if h == nil || h.Out == "neterr" {
			return nil, &net.OpError{Op: "dial", Net: network, Err: errors.New("no route to host")}
		}
		a, b := socketPair()
		var srv net.Conn = pipeConn{b, address}
		if strings.HasSuffix(address, ":443") {
			cert, err := tls.LoadX509KeyPair(w.pki+"/"+h.Cert+".pem", w.pki+"/"+h.Cert+".key")
			must(err)
			srv = tls.Server(srv, &tls.Config{Certificates: []tls.Certificate{cert}, ClientAuth: tls.RequestClientCert})
		}
		l <- srv
		return a, nil
	}
}

// socketPair is a connection with buffers, as a real one has.
func socketPair() (net.Conn, net.Conn) {
	fds, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	must(err)
	var c [2]net.Conn
	for i, fd := range fds {
		f := os.NewFile(uintptr(fd), "socket")
		c[i], err = net.FileConn(f)
		must(err)
		f.Close()
	}
	return c[0], c[1]
}

func (w *world) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
	addr := r.Context().Value(addrKey{}).(string)
	scheme, cert := "http", ""
	if r.TLS != nil {
		scheme = "https"
		if len(r.TLS.PeerCertificates) > 0 {
			cert = r.TLS.PeerCertificates[0].Subject.CommonName
		}
	}
	w.mu.Lock()
	h := w.host(addr)
	w.obs.Reqs = append(w.obs.Reqs, cliReq{toT(scheme + "://" + r.Host + r.RequestURI), r.Method, r.Header.Get("User-Agent"), r.Header.Get("Accept"), cert})
	run := w.run
	stop := w.stop
	w.mu.Unlock()
	if h == nil {
		rw.WriteHeader(500)
		return
	}
	if strings.HasPrefix(h.Out, "boot") {
		reg := registryFileAll(path.Base(r.URL.Path), run.Servers)
		switch h.Out {
		case "boot":
			rw.Write(reg)
		case "boot500":
			rw.WriteHeader(500)
			rw.Write(reg)
		case "bootbad":
			rw.Write([]byte("{"))
		case "bootcut":
			rw.Header().Set("Content-Length", fmt.Sprint(len(reg)))
			rw.Write(reg[:len(reg)/2])
		case "boothang":
			<-stop
		case "bootslow":
			select {
			case <-stop:
			case <-time.After(1200 * time.Millisecond):
			}
			rw.Write(reg)
		default:
			panic("harness: " + h.Out)
		}
		return
	}
	status, body := 200, ""
	full := -1
	switch {
	case h.Out == "body":
		body = strings.ReplaceAll(run.Body.String(), "@BIG@", bigFill)
	case h.Out == "hang":
		<-stop
		return
	case h.Out == "slow":
		select {
		case <-stop:
			return
		case <-time.After(2500 * time.Millisecond):
		}
		_, body = serverBody("dom", "slow")
	case h.Out == "slow500":
		select {
		case <-stop:
		case <-time.After(1200 * time.Millisecond):
		}
		rw.WriteHeader(500)
		return
	case strings.HasPrefix(h.Out, "redir:"):
		rw.Header().Set("Location", h.Out[6:])
		rw.WriteHeader(302)
		return
	default:
		status, body = serverBody(h.Out, h.Host)
		if h.Out == "cut" || h.Out == "nfcut" {
			full = len(body)
			body = body[:len(body)/2]
		}
	}
	w.mu.Lock()
	w.last = []byte(body)
	w.mu.Unlock()
	rw.Header().Set("Content-Type", "application/rdap+json")
	if full >= 0 {
		rw.Header().Set("Content-Length", fmt.Sprint(full))
	}
	rw.WriteHeader(status)
	rw.Write([]byte(body))
}

func registryFileAll(file string, servers []string) []byte {
	entry := map[string]string{"dns.json": "example", "asn.json": "0-4294967295", "ipv4.json": "0.0.0.0/0", "ipv6.json": "::/0", "object-tags.json": "TEST"}[file]
	if entry == "" {
		return []byte("no such file")
	}
	e := [][]string{{entry}, servers}
	if file == "object-tags.json" {
		e = [][]string{{"m@example.net"}, {entry}, servers}
	}
	return registryDoc([][][]string{e})
}

// ---- child process: executes runs

func (in *childIn) real(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(s, "{D}", in.Dir), "{P}", in.Pki), "{W}", in.Dir+"/cwd")
}

func (in *childIn) symbolic(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, in.Dir, "{D}"), in.Pki, "{P}")
}

func cliTree(dir string) []cliEnt {
	es := []cliEnt{}
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil || p == dir {
			return nil
		}
		e := cliEnt{Path: "{D}" + p[len(dir):], Dir: d.IsDir()}
		if !d.IsDir() {
			if i, err := d.Info(); err == nil {
				e.At = int64(i.ModTime().Sub(clockBase) / time.Second)
			}
			b, _ := os.ReadFile(p)
			switch {
			case bytes.Contains(b, []byte(`"services"`)) && json.Valid(b):
				e.What = "registry"
			case len(b) < 40:
				e.What = string(b)
			default:
				e.What = "other"
			}
		}
		es = append(es, e)
		return nil
	})
	return es
}

// cleanPath is a recorded path, absolute and with symbolic directories;
// the built-in sandbox certificates are named by their base name.
func (in *childIn) cleanAccess(op string) string {
	i := strings.IndexByte(op, ' ')
	p := op[i+1:]
	if !filepath.IsAbs(p) {
		p = filepath.Join(in.Dir, "cwd", p)
	}
	p = filepath.Clean(p)
	if b := filepath.Base(p); filepath.Base(filepath.Dir(p)) == "sandbox" && strings.HasPrefix(b, sandboxFiles) && !strings.HasPrefix(p, in.Dir) {
		return op[:i+1] + "{S}/" + b
	}
	return op[:i+1] + in.symbolic(p)
}

func cliChild() {
	var in childIn
	must(json.NewDecoder(os.Stdin).Decode(&in))
	w := &world{pki: in.Pki}
	l := make(chanListener)
	net.VerifDial = w.dial(l)
	srv := &http.Server{Handler: w, ConnContext: func(ctx context.Context, c net.Conn) context.Context {
		if t, ok := c.(*tls.Conn); ok {
			c = t.NetConn()
		}
		return context.WithValue(ctx, addrKey{}, c.(pipeConn).addr)
	}, ErrorLog: nopLog}
	go srv.Serve(l)
	out := []*cliObs{}
	for _, r := range in.Runs {
		for _, p := range r.Pre {
			f := in.real(p[1])
			switch p[0] {
			case "mkdir":
				must(os.MkdirAll(f, 0o755))
			case "file":
				must(os.MkdirAll(filepath.Dir(f), 0o755))
				must(os.WriteFile(f, []byte("precious\n"), 0o644))
			case "rmdir":
				must(os.RemoveAll(f))
			default:
				panic("harness: " + p[0])
			}
		}
		o := &cliObs{Reqs: []cliReq{}, Dials: []string{}, Files: [][2]string{}, Stderr: []string{}, Body: T{}, Obj: map[string]any{"none": true}}
		w.mu.Lock()
		w.run, w.obs, w.last, w.stop = r, o, nil, make(chan bool)
		w.mu.Unlock()
		args := []string{}
		for _, a := range r.Args {
			args = append(args, in.real(a))
		}
		var so, se bytes.Buffer
		t0 := time.Now()
		time.VerifSet(clockBase.Add(time.Duration(r.Now)*time.Second).UnixNano(), true)
		os.VerifRecord(true)
		func() {
			defer func() {
				if p := recover(); p != nil {
					o.Panic = fmt.Sprint(p) + " " + stackTop()
				}
			}()
			o.Exit = rdap.RunCLI(args, &so, &se, rdap.CLIOptions{Sandbox: r.Sandbox})
		}()
		acc := os.VerifRecord(false)
		time.VerifSet(0, false)
		w.mu.Lock()
		close(w.stop)
		o2 := *o
		body := w.last
		w.obs = &cliObs{}
		w.mu.Unlock()
		o2.Ms = int64(time.Since(t0) / time.Millisecond)
		for _, a := range acc {
			if c := in.cleanAccess(a); !systemAccess(c) {
				i := strings.IndexByte(c, ' ')
				o2.Files = append(o2.Files, [2]string{c[:i], c[i+1:]})
			}
		}
		outText := contract(so.String())
		o2.Out = toT(outText)
		o2.Text = in.symbolic(outText)
		if se.Len() > 0 {
			o2.Stderr = strings.Split(in.symbolic(contract(se.String())), "\n")
		}
		o2.Tree = cliTree(in.Dir)
		if body != nil {
			body = []byte(contract(string(body)))
			o2.Body, o2.BodyS = toT(string(body)), string(body)
			if x, err := rdap.NewDecoder(body).Decode(); err == nil {
				o2.Obj = project(x, nil)["obj"]
			}
		}
		out = append(out, &o2)
	}
	must(json.NewEncoder(os.Stdout).Encode(out))
}

// systemAccess: reads of the trust store and the like, the same in every run.
func systemAccess(a string) bool {
	for _, p := range []string{"read /etc/", "read /proc/", "read /sys/", "read /usr/", "read /dev/", "read {P}/ca.pem", "read /nonexistent", "read {P}/good.", "read {P}/wronghost.", "read {P}/untrusted.", "read {P}/expired.", "read {P}/future.", "read {P}/self."} {
		if strings.HasPrefix(a, p) {
			return true
		}
	}
	return false
}

var pkiOnce sync.Once
var cliSeq struct {
	sync.Mutex
	n int
}

func init() {
	kinds["cli"] = func(in json.RawMessage) any {
		c := parse[struct{ Runs []cliRun }](in)
		base := os.Getenv("VH_SCRATCH")
		pki := base + "/pki"
		pkiOnce.Do(func() {
			must(os.MkdirAll(pki, 0o755))
			makePKI(pki)
		})
		cliSeq.Lock()
		cliSeq.n++
		dir := fmt.Sprintf("%s/case%d", base, cliSeq.n)
		cliSeq.Unlock()
		for _, d := range []string{"/home", "/cwd"} {
			must(os.MkdirAll(dir+d, 0o755))
		}
		defer os.RemoveAll(dir)
		all := []json.RawMessage{}
		for i := 0; i < len(c.Runs); {
			j := i
			for j < len(c.Runs) && c.Runs[j].Proc == c.Runs[i].Proc {
				j++
			}
			ci := childIn{Dir: dir, Pki: pki, Runs: c.Runs[i:j]}
			b, err := json.Marshal(ci)
			must(err)
			cmd := exec.Command("/proc/self/exe", "cli-child")
			cmd.Dir = dir + "/cwd"
			cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + dir + "/home", "SSL_CERT_FILE=" + pki + "/ca.pem", "SSL_CERT_DIR=/nonexistent", "GORACE=" + os.Getenv("GORACE")}
			if x := c.Runs[i].Xdg; x != "" {
				cmd.Env = append(cmd.Env, "XDG_CACHE_HOME="+ci.real(x))
			}
			cmd.Stdin = bytes.NewReader(b)
			var so, se bytes.Buffer
			cmd.Stdout, cmd.Stderr = &so, &se
			err = cmd.Run()
			if err != nil && strings.Contains(se.String(), "harness: ") {
				panic("harness: child: " + se.String())
			}
			var obs []json.RawMessage
			if err == nil {
				must(json.Unmarshal(so.Bytes(), &obs))
				all = append(all, obs...)
			} else {
				for range c.Runs[i:j] {
					d, _ := json.Marshal(map[string]any{"died": fmt.Sprintf("%.800s", se.String())})
					all = append(all, d)
				}
			}
			i = j
		}
		return map[string]any{"runs": all}
	}
}

var nopLog = newNopLog(io.Discard)
