package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

// The programs of /cmd as they are run in production, with their flags. run.sh builds them into $VERIF_BIN.

func program(name string) string {
	p := filepath.Join(os.Getenv("VERIF_BIN"), name)
	if _, err := os.Stat(p); os.Getenv("VERIF_BIN") == "" || err != nil {
		return ""
	}
	return p
}

type binProc struct {
	addr   string
	cmd    *exec.Cmd
	exited chan struct{}
	log    *bytes.Buffer
}

func freePort() string {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	defer ln.Close()
	return ln.Addr().String()
}

// startBinary starts one of the programs and waits until it listens.
func startBinary(name string, flags ...string) *binProc {
	p := &binProc{addr: freePort(), exited: make(chan struct{}), log: &bytes.Buffer{}}
	p.cmd = exec.Command(program(name), append(flags, "-listen-address", p.addr)...)
	p.cmd.Stderr = &limited{b: p.log}
	p.cmd.Stdout = p.cmd.Stderr
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	must(p.cmd.Start())
	go func() {
		p.cmd.Wait()
		close(p.exited)
	}()
	for end := time.Now().Add(60 * time.Second); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
		if c, err := net.Dial("tcp", p.addr); err == nil {
			c.Close()
			return p
		}
		select {
		case <-p.exited:
			return p
		default:
		}
	}
	return p
}

func (p *binProc) kill() {
	p.cmd.Process.Kill()
	<-p.exited
}

// request is a request over the network; a nil answer means none came within the limit.
func (p *binProc) request(method, target string, body []byte, limit time.Duration) *Resp {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	req, err := http.NewRequestWithContext(ctx, method, "http://"+p.addr+target, bytes.NewReader(body))
	if err != nil {
		return nil
	}
	r, err := http.DefaultClient.Do(req)
	if err != nil {
		return nil
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	if err != nil {
		return nil
	}
	return &Resp{Code: r.StatusCode, Body: b, Header: r.Header}
}

// ServeHTTP lets the process be used where a handler is.
func (p *binProc) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	a := p.request(r.Method, r.URL.RequestURI(), nil, 30*time.Second)
	if a == nil {
		w.WriteHeader(599)
		return
	}
	w.WriteHeader(a.Code)
	w.Write(a.Body)
}

// monitorBinaries has the read program serve logs of several mask sizes from a directory and from a web server.
func monitorBinaries(t *T) {
	if program("itko-monitor") == "" {
		return
	}
	masks := []int{1, 2, 5, 7, 12}
	t.Parallel(t.N(6, 20), 3, func(i int) {
		rng := t.Rand(fmt.Sprint("binary", i))
		fs := i%2 == 1
		n := []uint64{1, 300, 70, 700}[i%4]
		w := NewWorld(WorldOpt{FS: fs, Mask: masks[i%len(masks)]})
		defer w.Close()
		w.Prefill(rng, n)
		flags := []string{"-mask-size", fmt.Sprint(w.Opt.Mask)}
		if fs {
			flags = append(flags, "-store-directory", w.FSDir)
		} else {
			gw := env.S3.Gateway(w.Store, w.Name+"-bin")
			flags = append(flags, "-store-address", env.S3.URL+"/"+gw.Name+"/")
		}
		p := startBinary("itko-monitor", flags...)
		defer p.kill()
		m := &MonClient{H: p}
		for k := 0; k < 25; k++ {
			i := uint64(rng.Int63n(int64(n)))
			s := i + 1 + uint64(rng.Int63n(int64(n-i)))
			var err error
			var kind string
			switch k % 4 {
			case 0:
				kind, err = "proof by hash", m.CheckProofByHash(w, i, n)
			case 1:
				kind, err = "entry and proof", m.CheckEntryAndProof(w, i, n)
			case 2:
				kind, err = "consistency", m.CheckConsistency(w, s, n)
			case 3:
				kind, err = "entries", m.CheckEntries(w, i, s-1, n)
			}
			if err != nil {
				select {
				case <-p.exited:
					t.Violate("binary-monitor", "itko-monitor %s ended: %.300s", strings.Join(flags, " "), p.log)
				default:
					t.Violate("binary-monitor", "itko-monitor %s, %s of entry %d in %d: %v", strings.Join(flags, " "), kind, i, n, err)
				}
				return
			}
			t.Count("answers of the monitor program", 1)
			t.Eval("itko-monitor/" + kind + "/directory=" + fmt.Sprint(fs))
		}
	})
}

// submitBinaries runs the submission program: the first holds the lock and accepts, the second waits, and takes over when
// the first ends. The program only talks to the Consul agent at port 8500; if that port is taken, nothing is run.
func submitBinaries(t *T, scope map[string]bool) {
	if program("itko-submit") == "" {
		return
	}
	ln, err := net.Listen("tcp", "127.0.0.1:8500")
	if err != nil {
		t.Count("port 8500 taken", 1)
		return
	}
	c := NewConsul(false)
	defer c.srv.Close()
	srv := &http.Server{Handler: c}
	go srv.Serve(ln)
	defer srv.Close()
	w := NewWorld(WorldOpt{FlushMs: 30})
	defer w.Close()
	gw := env.S3.Gateway(w.Store, w.Name+"-bin")
	b, err := json.Marshal(w.Config(gw.Name))
	must(err)
	c.Put(w.Name+"/config", b)
	rng := t.Rand("submit binaries")
	bad := func(cat, f string, a ...any) { t.report(scope, Finding{Cat: cat, Msg: fmt.Sprintf(f, a...)}, w) }
	p := startBinary("itko-submit", "-kv-path", w.Name)
	defer func() { p.kill() }()
	var led Ledger
	sub := func(p *binProc, s *Sub) bool {
		w.Aud.Register(s)
		r := p.request("POST", s.Path(), s.Body(), 20*time.Second)
		if r == nil || r.Code != 200 {
			return false
		}
		sct, err := parseSCT(r.Body)
		if err != nil {
			bad("no-progress", "itko-submit: %v", err)
			return false
		}
		for _, f := range w.Aud.CheckPromise(s, sct, w.LogID) {
			t.report(scope, f, w)
		}
		led.Add(Promise{s, sct})
		t.Count("scts of the program", 1)
		return true
	}
	until := func(p *binProc, s *Sub) bool {
		for end := time.Now().Add(60 * time.Second); time.Now().Before(end); time.Sleep(50 * time.Millisecond) {
			if sub(p, s) {
				return true
			}
			select {
			case <-p.exited:
				return false
			default:
			}
		}
		return false
	}
	for round := 0; round < 3; round++ {
		if !until(p, w.PKI.Small(rng)) {
			bad("no-progress", "itko-submit does not accept a submission (round %d): %.400s", round, p.log)
			return
		}
		next := startBinary("itko-submit", "-kv-path", w.Name)
		q := next
		defer q.kill()
		for k := 0; k < 5; k++ {
			sub(p, w.PKI.Random(rng))
		}
		s := w.PKI.Small(rng)
		w.Aud.Register(s)
		if r := next.request("POST", s.Path(), s.Body(), time.Second); r != nil {
			bad("two-active", "a second itko-submit answers %v while the first one holds the lock", r)
			return
		}
		sig := []os.Signal{syscall.SIGINT, syscall.SIGTERM, syscall.SIGKILL}[round]
		session := c.Holder(w.Name + "/lock")
		p.cmd.Process.Signal(sig)
		select {
		case <-p.exited:
		case <-time.After(60 * time.Second):
			bad("lives-on", "itko-submit does not end on %v", sig)
			return
		}
		if session != "" {
			c.Expire(session)
		}
		t.Eval(fmt.Sprintf("itko-submit/%v", sig))
		p = next
	}
	if !until(p, w.PKI.Small(rng)) {
		bad("no-takeover", "the last itko-submit does not accept submissions: %.400s", p.log)
	}
	for _, f := range w.Aud.Findings() {
		t.report(scope, f, w)
	}
}
