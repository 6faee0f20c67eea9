package main

import (
	"bytes"
	"context"
	"crypto/elliptic"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/mod/sumdb/note"
	"itko.dev/internal/ctsubmit"
	"itko.dev/internal/sunlight"
)

func init() {
	checks["C18"] = Check{
		Level: "exploration",
		Rule: "built with the Go race detector; one evaluation = one request (submission, resubmission, invalid submission or read) or restart executed concurrently with others, the detector watching all memory accesses of the system; " +
			"distinct = (storage, kind of request, answer class, kinds of request under way at the same moment) combinations",
		Run: runC18,
	}
	helpers["c18canary"] = func([]string) {
		// an unsynchronised write that the detector must report
		x := 0
		var wg sync.WaitGroup
		for i := 0; i < 2; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				x++
			}()
		}
		wg.Wait()
		fmt.Println(x)
	}
}

// canary tells whether the race detector is alive in this build and environment.
func canary() bool {
	for i := 0; i < 5; i++ {
		lp := filepath.Join(env.Dir, fmt.Sprintf("canary%d", i))
		cmd := helperCmd("c18canary")
		for _, e := range os.Environ() {
			if !strings.HasPrefix(e, "GORACE=") {
				cmd.Env = append(cmd.Env, e)
			}
		}
		cmd.Env = append(cmd.Env, "GORACE=exitcode=0 log_path="+lp)
		cmd.Run()
		m, _ := filepath.Glob(lp + "*")
		for _, f := range m {
			if b, _ := os.ReadFile(f); bytes.Contains(b, []byte("DATA RACE")) {
				return true
			}
		}
	}
	return false
}

// inflight describes what kinds of request are under way.
type inflight struct {
	n [5]atomic.Int64
}

const (
	kFresh = iota
	kAgain
	kBad
	kRead
	kRestart
)

func (f *inflight) enter(k int) string {
	f.n[k].Add(1)
	s := ""
	for i, c := range "farms" {
		if f.n[i].Load() > 0 {
			s += string(c)
		}
	}
	return s
}

func (f *inflight) leave(k int) { f.n[k].Add(-1) }

func runC18(t *T) {
	if !raceBuild {
		t.Inconclusive("the harness was built without the race detector")
		return
	}
	if !canary() {
		t.Inconclusive("the race detector does not report a planted race")
		return
	}
	t.Count("planted races reported by the detector", 1)
	c18library(t)
	t.Parallel(t.N(6, 60), 3, func(i int) { c18churn(t, i) })
	if !t.Failed() {
		t.Parallel(t.N(3, 24), 3, func(i int) { c18procs(t, i) })
	}
	if !t.Failed() {
		c18storage(t)
	}
	if !t.Failed() && (t.Get("scts") < 300 || t.Get("reads answered") < 300) {
		t.Inconclusive("only %d SCTs and %d reads", t.Get("scts"), t.Get("reads answered"))
	}
}

// c18churn runs one log with everything at once and restarts it several times.
func c18churn(t *T, i int) {
	rng := t.Rand(fmt.Sprint("churn", i))
	fs := i%3 == 2
	st := map[bool]string{false: "s3", true: "fs"}[fs]
	w := NewWorld(WorldOpt{FS: fs, NoAudit: true, Mask: []int{1, 5, 2}[i%3], FlushMs: []int{1, 10, 40}[i%3]})
	defer w.Close()
	if n := []uint64{0, 200, 0, 1000, 65400, 510}[i%6]; n > 0 {
		w.Prefill(rng, n)
	}
	var fl inflight
	var cur atomic.Pointer[Inst]
	var oldMu sync.Mutex
	var old []*Sub
	boot := func() bool {
		in, err := w.BootWith(nil, nil)
		if err != nil {
			t.Inconclusive("the log does not start: %v", err)
			return false
		}
		if !fs {
			in.GW.SetPolicy(jitter(rand.New(rand.NewSource(rng.Int63())), 8*time.Millisecond))
		}
		cur.Store(in)
		return true
	}
	if !boot() {
		return
	}
	mon, _ := w.Monitor()
	stop := make(chan struct{})
	var wg sync.WaitGroup
	spin := func(f func(r *rand.Rand)) {
		r := rand.New(rand.NewSource(rng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
					f(r)
				}
			}
		}()
	}
	submit := func(k int, path string, body []byte) *Resp {
		in := cur.Load()
		c := fl.enter(k)
		r := callQ(in.H, "POST", path, body, 20*time.Second, in.dead)
		fl.leave(k)
		t.Eval(fmt.Sprintf("%s/%s/%d/%s", st, []string{"fresh", "again", "bad", "read", "restart"}[k], r.Code/100, c))
		if r.Code == 200 {
			t.Count("scts", 1)
		}
		return r
	}
	for c := 0; c < 10; c++ {
		spin(func(r *rand.Rand) {
			s := w.PKI.Random(r)
			if submit(kFresh, s.Path(), s.Body()).Code == 200 {
				oldMu.Lock()
				old = append(old, s)
				oldMu.Unlock()
			}
		})
	}
	for c := 0; c < 3; c++ {
		spin(func(r *rand.Rand) {
			oldMu.Lock()
			var s *Sub
			if len(old) > 0 {
				s = old[r.Intn(len(old))]
			}
			oldMu.Unlock()
			if s == nil {
				time.Sleep(time.Millisecond)
				return
			}
			if r.Intn(2) == 0 {
				s = s.ToggleRoot()
			}
			submit(kAgain, s.Path(), s.Body())
		})
	}
	// the same new certificate by several clients at once
	spin(func(r *rand.Rand) {
		s := w.PKI.Random(r)
		var g sync.WaitGroup
		for k := 0; k < 4; k++ {
			g.Add(1)
			go func() {
				defer g.Done()
				submit(kFresh, s.Path(), s.Body())
			}()
		}
		g.Wait()
	})
	spin(func(r *rand.Rand) {
		path, body, _ := hostileBody(r, w)
		submit(kBad, path, body)
		time.Sleep(2 * time.Millisecond)
	})
	for c := 0; c < 5; c++ {
		spin(func(r *rand.Rand) {
			c := fl.enter(kRead)
			target := c18read(w, mon, r)
			x := call(mon, "GET", target, nil, 20*time.Second)
			fl.leave(kRead)
			ep, _, _ := strings.Cut(target, "?")
			t.Eval(fmt.Sprintf("%s/%s/%d/%s", st, ep, x.Code/100, c))
			if x.Code == 200 {
				t.Count("reads answered", 1)
			}
		})
	}
	for round := 0; round < t.N(3, 8); round++ {
		time.Sleep(time.Duration(t.N(1500, 4000)+rng.Intn(500)) * time.Millisecond)
		in := cur.Load()
		c := fl.enter(kRestart)
		in.cancel()
		if fs {
			time.Sleep(400 * time.Millisecond) // lets the batch under way be finished
		} else if round%2 == 0 {
			in.Kill()
		} else {
			in.Quiesce()
		}
		in.markDead()
		ok := boot()
		fl.leave(kRestart)
		t.Eval(fmt.Sprintf("%s/restart/%v/%s", st, ok, c))
		t.Count("restarts", 1)
		if !ok {
			break
		}
	}
	close(stop)
	cur.Load().markDead()
	wg.Wait()
	time.Sleep(200 * time.Millisecond)
	t.Sample(map[string]any{"storage": st, "mask": w.Opt.Mask, "flush interval (ms)": w.Opt.FlushMs, "distinct accepted certificates": len(old)})
}

// c18read makes a read request that is mostly valid.
func c18read(w *World, mon http.Handler, r *rand.Rand) string {
	d, _ := w.Get("ct/v1/get-sth")
	h, _ := verifySTH(d, &w.Key.PublicKey)
	n := int64(h.Size) + 1
	switch r.Intn(7) {
	case 0:
		return "/ct/v1/get-sth"
	case 1:
		return "/ct/v1/get-roots"
	case 2:
		a, b := r.Int63n(n), r.Int63n(n)
		return fmt.Sprintf("/ct/v1/get-sth-consistency?first=%d&second=%d", min(a, b), max(a, b))
	case 3:
		a := r.Int63n(n)
		return fmt.Sprintf("/ct/v1/get-entries?start=%d&end=%d", a, a+r.Int63n(40))
	case 4:
		return fmt.Sprintf("/ct/v1/get-entry-and-proof?leaf_index=%d&tree_size=%d", r.Int63n(n), n-1)
	case 5:
		var x Hash
		r.Read(x[:])
		return fmt.Sprintf("/ct/v1/get-proof-by-hash?hash=%s&tree_size=%d", esc(x[:]), n-1)
	}
	// the hash of a real entry
	a := r.Int63n(n)
	x := call(mon, "GET", fmt.Sprintf("/ct/v1/get-entries?start=%d&end=%d", a, a), nil, 20*time.Second)
	var j entriesAnswer
	if json.Unmarshal(x.Body, &j) == nil && len(j.Entries) == 1 {
		lh := leafHash(j.Entries[0].LeafInput)
		return fmt.Sprintf("/ct/v1/get-proof-by-hash?hash=%s&tree_size=%d", esc(lh[:]), n-1)
	}
	return "/ct/v1/get-sth"
}

// c18procs runs complete processes that are interrupted, lose the lock, or have their storage fail.
func c18procs(t *T, i int) {
	rng := t.Rand(fmt.Sprint("procs", i))
	w := NewWorld(WorldOpt{Mask: 5, FlushMs: 10, NoAudit: true})
	defer w.Close()
	cl := newCluster(t, w, cats())
	defer cl.c.srv.Close()
	for round := 0; round < t.N(2, 5); round++ {
		p := cl.start(rng)
		if cl.holder(60*time.Second) == nil {
			t.Inconclusive("nobody acquired the lock")
			p.kill()
			return
		}
		stop := make(chan struct{})
		var wg sync.WaitGroup
		var good atomic.Int64
		for c := 0; c < 8; c++ {
			cr := rand.New(rand.NewSource(rng.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					select {
					case <-stop:
						return
					case <-p.exited:
						return
					default:
					}
					s := w.PKI.Small(cr)
					resp, err := cl.client.Post("http://"+p.addr+s.Path(), "application/json", bytes.NewReader(s.Body()))
					if err != nil {
						time.Sleep(5 * time.Millisecond)
						continue
					}
					io.Copy(io.Discard, resp.Body)
					resp.Body.Close()
					t.Eval(fmt.Sprintf("process/submission/%d", resp.StatusCode/100))
					if resp.StatusCode == 200 {
						good.Add(1)
						t.Count("scts", 1)
					}
				}
			}()
		}
		for k := 0; k < 8000 && good.Load() < 25; k++ {
			time.Sleep(5 * time.Millisecond)
		}
		cause := []string{"interrupt", "two interrupts", "storage", "invalidate"}[(i+round)%4]
		_, sess := cl.c.HolderTag(cl.lock)
		switch cause {
		case "two interrupts":
			p.gw.SetPolicy(slowed(p.gw, 30*time.Millisecond))
			p.cmd.Process.Signal(os.Interrupt)
			time.Sleep(10 * time.Millisecond)
			p.cmd.Process.Signal(os.Interrupt)
		case "interrupt":
			p.cmd.Process.Signal(os.Interrupt)
		case "invalidate":
			cl.c.Invalidate(sess)
		case "storage":
			p.gw.SetPolicy(func(op *Op) Action {
				if op.Method == "PUT" && opKind(op.Key) == "data tile" {
					return Action{Status: 403, Drop: true}
				}
				return Action{}
			})
		}
		cl.exitWithin(p, 20*time.Second)
		close(stop)
		wg.Wait()
		p.kill()
		p.drained()
		cl.c.Invalidate(sess)
		t.Eval("process/ended by " + cause)
		t.Count("processes ended", 1)
	}
}

// c18library uses the shared code of all commands from many goroutines, with shared keys and messages.
func c18library(t *T) {
	for _, c := range []elliptic.Curve{elliptic.P256(), elliptic.P384()} {
		key := detKey(c, "c18")
		origin := "race.example/log"
		// the very first uses are concurrent
		vkey, err := sunlight.NewRFC6962Verifier(origin, key.Public(), func(uint64) {})
		must(err)
		e := &sunlight.LogEntry{Certificate: bytes.Repeat([]byte{7}, 100), LeafIndex: 77, Timestamp: 1234567}
		e.ChainFp = append(e.ChainFp, [32]byte{1}, [32]byte{2})
		root := [32]byte{9}
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for k := 0; k < t.N(12, 100); k++ {
					leaf := e.MerkleTreeLeaf()
					sig, err := sunlight.DigitallySign(key, leaf)
					if err != nil {
						t.Inconclusive("signing fails: %v", err)
						return
					}
					sunlight.SignTreeHead(key, uint64(k), 5, root)
					cp, err := sunlight.SignTreeHeadCheckpoint(origin, key, int64(k), 5, root)
					if err == nil {
						note.Open(cp, note.VerifierList(vkey))
					}
					b := sunlight.AppendTileLeaf(nil, e)
					sunlight.ReadTileLeaf(b)
					x, _ := sunlight.MarshalExtensions(sunlight.Extensions{LeafIndex: 5})
					sunlight.ParseExtensions(x)
					sunlight.KAnonHashPath(leaf[:16], 5)
					_ = sig
					t.Eval("library/" + c.Params().Name)
				}
			}()
		}
		close(start)
		wg.Wait()
	}
}

// c18storage uses one storage object and its bucket from many goroutines.
func c18storage(t *T) {
	dir := filepath.Join(env.Dir, "c18fs")
	must(os.MkdirAll(dir, 0755))
	defer os.RemoveAll(dir)
	f := ctsubmit.NewFsStorage(dir)
	gw := env.S3.Gateway(NewStore(), "c18-storage")
	s := ctsubmit.NewS3Storage("us-east-1", gw.Name, env.S3.URL, "u", "p")
	for name, st := range map[string]ctsubmit.Storage{"fs": &f, "s3": &s} {
		ctx := context.Background()
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			r := t.Rand(fmt.Sprint("storage", name, g))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < t.N(60, 600); k++ {
					key := fmt.Sprintf("a/%d/x", r.Intn(4))
					switch r.Intn(3) {
					case 0:
						st.Set(ctx, key, bytes.Repeat([]byte{byte(k)}, r.Intn(5000)))
					case 1:
						st.Get(ctx, key)
					case 2:
						st.Exists(ctx, key)
					}
					t.Eval("storage/" + name)
				}
			}()
		}
		wg.Wait()
	}
}
