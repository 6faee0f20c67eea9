package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"itko.dev/internal/ctsubmit"
)

func init() {
	checks["C12"] = Check{
		Level: "fault_enumeration",
		Rule: "one evaluation = one loss of leadership (of a real process under load) with everything that reached storage attributed to a process and compared with who held the lock, then the takeover by a standby; " +
			"distinct = (how leadership was lost, number of standbys, standby started before or after the last entries, round) combinations",
		Run: runC12,
	}
	helpers["c12inst"] = func(args []string) {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		must(os.WriteFile(args[2]+".tmp", []byte(ln.Addr().String()), 0644))
		must(os.Rename(args[2]+".tmp", args[2]))
		ctsubmit.MainMain(context.Background(), ln, args[0], args[1], nil)
	}
}

// proc is one instance of the log in a process of its own.
type proc struct {
	tag    string
	cmd    *exec.Cmd
	front  *Front
	gw     *Gateway
	s3     *S3Front
	addr   string
	exited chan struct{}
	log    *bytes.Buffer

	heldOnce atomic.Bool
	lost     atomic.Bool // held the lock and lost it
	ended    atomic.Bool // by the test
}

type cluster struct {
	t      *T
	w      *World
	scope  map[string]bool
	c      *Consul
	lock   string
	mu     sync.Mutex
	procs  map[string]*proc
	reader string // last instance that read the log state
	n      int
	how    atomic.Value // what made the last active instance stop
	client *http.Client
}

func (cl *cluster) bad(cat, f string, args ...any) {
	cl.t.report(cl.scope, Finding{Cat: cat, Msg: fmt.Sprintf(f, args...)}, nil)
}

func newCluster(t *T, w *World, scope map[string]bool) *cluster {
	cl := &cluster{t: t, w: w, scope: scope, c: NewConsul(false), lock: w.Name + "/lock", procs: map[string]*proc{},
		client: &http.Client{Timeout: 20 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 64}}}
	cl.c.onAcquire = func(tag string) {
		cl.mu.Lock()
		if p := cl.procs[tag]; p != nil {
			p.heldOnce.Store(true)
		}
		cl.mu.Unlock()
	}
	cl.c.onRelease = func(tag string) {
		cl.mu.Lock()
		if p := cl.procs[tag]; p != nil {
			p.lost.Store(true)
		}
		cl.mu.Unlock()
	}
	// in storage order: no write of an instance takes effect after another one has read the state to continue from
	w.Store.observers = append(w.Store.observers, func(op *Op, get func(string) ([]byte, bool)) {
		cl.mu.Lock()
		r := cl.reader
		cl.mu.Unlock()
		tag := strings.TrimPrefix(op.Gateway, w.Name+"-")
		if r != "" && r != tag {
			cl.bad("late-write", "a write of %s by instance %s takes effect after instance %s has read the log state to continue it (%s was made to stop by: %v)", op.Key, tag, r, tag, cl.how.Load())
		}
	})
	return cl
}

func (cl *cluster) start(rng *rand.Rand) *proc {
	cl.mu.Lock()
	cl.n++
	tag := fmt.Sprintf("p%d", cl.n)
	cl.mu.Unlock()
	p := &proc{tag: tag, exited: make(chan struct{}), log: &bytes.Buffer{}}
	p.front = cl.c.Front(tag)
	p.gw = env.S3.Gateway(cl.w.Store, cl.w.Name+"-"+tag)
	delays := jitter(rand.New(rand.NewSource(rng.Int63())), 15*time.Millisecond)
	p.gw.SetPolicy(func(op *Op) Action {
		switch {
		case !p.heldOnce.Load():
			cl.bad("standby-touches-storage", "instance %s, which never held the lock: %s %s", tag, op.Method, op.Key)
		case p.lost.Load() && op.Method == "PUT" && cl.released(tag):
			cl.bad("write-without-lock", "instance %s writes %s after it released the lock", tag, op.Key)
		case op.Method == "GET" && op.Key == "ct/v1/get-sth":
			cl.mu.Lock()
			cl.reader = tag
			cl.mu.Unlock()
			cl.t.Count("state loads", 1)
		}
		cl.t.Count("storage operations attributed", 1)
		return delays(op)
	})
	p.s3 = env.S3.Front()
	gc := cl.w.Config(p.gw.Name)
	gc.S3EndpointUrl = p.s3.URL
	b, err := json.Marshal(gc)
	must(err)
	cl.c.Put(cl.w.Name+"/config@"+tag, b)
	cl.mu.Lock()
	cl.procs[tag] = p
	cl.mu.Unlock()
	self, err := os.Executable()
	must(err)
	af := filepath.Join(env.Dir, cl.w.Name+"-"+tag+".addr")
	p.cmd = exec.Command(self, "c12inst", cl.w.Name, p.front.Addr, af)
	p.cmd.Stderr = &limited{b: p.log}
	p.cmd.Stdout = p.cmd.Stderr
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	must(p.cmd.Start())
	go func() {
		p.cmd.Wait()
		close(p.exited)
	}()
	for end := time.Now().Add(60 * time.Second); time.Now().Before(end); time.Sleep(2 * time.Millisecond) {
		if b, err := os.ReadFile(af); err == nil {
			p.addr = string(b)
			break
		}
	}
	return p
}

// released tells whether the instance gave the lock back itself (and did not merely lose it).
func (cl *cluster) released(tag string) bool {
	cl.c.mu.Lock()
	defer cl.c.mu.Unlock()
	for _, e := range cl.c.Events {
		if e.What == "release" && cl.c.tags[e.Session] == tag {
			return true
		}
	}
	return false
}

// holder waits until somebody holds the lock.
func (cl *cluster) holder(limit time.Duration) *proc {
	for end := time.Now().Add(limit); time.Now().Before(end); time.Sleep(3 * time.Millisecond) {
		if tag, _ := cl.c.HolderTag(cl.lock); tag != "" {
			cl.mu.Lock()
			p := cl.procs[tag]
			cl.mu.Unlock()
			return p
		}
	}
	return nil
}

// submit sends a submission to one process.
func (cl *cluster) submit(p *proc, s *Sub, led *Ledger, limit time.Duration) (ok bool) {
	cl.w.Aud.Register(s)
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	req, err := http.NewRequestWithContext(ctx, "POST", "http://"+p.addr+s.Path(), bytes.NewReader(s.Body()))
	must(err)
	resp, err := cl.client.Do(req)
	if err != nil {
		return false
	}
	body, err := io.ReadAll(resp.Body)
	resp.Body.Close()
	if !p.heldOnce.Load() {
		cl.bad("standby-answers", "instance %s, which never held the lock, answers a submission: %d %.200q", p.tag, resp.StatusCode, body)
	}
	if err != nil || resp.StatusCode != 200 {
		return false
	}
	sct, err := parseSCT(body)
	if err != nil {
		return false
	}
	for _, f := range cl.w.Aud.CheckPromise(s, sct, cl.w.LogID) {
		cl.t.report(cl.scope, f, cl.w)
	}
	cl.t.Count("scts", 1)
	led.Add(Promise{s, sct})
	return true
}

// expire ends the session of an instance that cannot renew it any more.
func (cl *cluster) expire(sess string) {
	if !cl.c.Expire(sess) {
		cl.bad("no-takeover", "the session with which an instance held the lock has no TTL: after the instance crashed or was cut off, the lock stays held and nobody takes over")
		cl.c.Invalidate(sess)
	}
}

func (cl *cluster) exitWithin(p *proc, limit time.Duration) bool {
	select {
	case <-p.exited:
		return true
	case <-time.After(limit):
		return false
	}
}

func (p *proc) kill() {
	p.ended.Store(true)
	p.cmd.Process.Kill()
	<-p.exited
	p.front.srv.Close()
}

// drained waits until nothing that an ended process sent to storage is on its way any more.
func (p *proc) drained() {
	p.s3.Drained(15 * time.Second)
}

func runC12(t *T) {
	scope := cats("late-write", "standby-touches-storage", "write-without-lock", "standby-answers", "lives-on", "no-takeover", "two-active",
		"head-root", "head-shrink", "entry-changed", "sct-early", "sct-entry", "sct-sig", "promise-lost", "no-progress", "stale-state", "immutable-overwritten", "entry-index")
	causes := []string{"interrupt", "invalidate", "kill", "storage", "partition", "interrupt busy", "agent errors"}
	n := t.N(14, 90)
	patience := make(chan bool)
	go func() {
		defer close(patience)
		submitBinaries(t, scope)
		c12State(t, scope)
		c12Interrupted(t, scope, false)
		c12Patience(t, scope)
	}()
	defer func() { <-patience }()
	stalled := make(chan bool)
	go func() {
		defer close(stalled)
		c12Interrupted(t, scope, true)
	}()
	defer func() { <-stalled }()
	t.Parallel(n, 7, func(i int) {
		rng := t.Rand(fmt.Sprint("cluster", i))
		w := NewWorld(WorldOpt{Mask: []int{2, 5}[i%2], FlushMs: []int{5, 30, 100}[i%3]})
		defer w.Close()
		if s := []uint64{0, 255, 300, 0, 65535}[i%5]; s > 0 {
			w.Prefill(rng, s)
		}
		cl := newCluster(t, w, scope)
		defer cl.c.srv.Close()
		defer func() {
			cl.mu.Lock()
			ps := cl.procs
			cl.procs = map[string]*proc{}
			cl.mu.Unlock()
			for _, p := range ps {
				p.kill()
			}
		}()
		var led Ledger
		live := []*proc{}
		for k := 0; k < 1+rng.Intn(3); k++ {
			live = append(live, cl.start(rng))
		}
		for round := 0; round < t.N(2, 4); round++ {
			act := cl.holder(60 * time.Second)
			if act == nil {
				t.Inconclusive("nobody acquired the lock")
				return
			}
			if rng.Intn(2) == 0 || len(live) < 2 {
				live = append(live, cl.start(rng)) // a standby
			}
			// load on the active instance, and attempts at the others
			stop := make(chan struct{})
			var wg sync.WaitGroup
			var good atomic.Int64
			for c := 0; c < 8; c++ {
				cr := rand.New(rand.NewSource(rng.Int63()))
				wg.Add(1)
				go func() {
					defer wg.Done()
					for {
						select {
						case <-stop:
							return
						default:
						}
						if cl.submit(act, w.PKI.Small(cr), &led, 15*time.Second) {
							good.Add(1)
						} else {
							time.Sleep(5 * time.Millisecond)
						}
						select {
						case <-act.exited:
							return
						default:
						}
					}
				}()
			}
			for _, p := range live {
				if p != act {
					pr := p
					cr := rand.New(rand.NewSource(rng.Int63()))
					wg.Add(1)
					go func() {
						defer wg.Done()
						cl.submit(pr, w.PKI.Small(cr), &led, 400*time.Millisecond)
					}()
				}
			}
			for k := 0; k < 6000 && good.Load() < 30; k++ {
				select {
				case <-act.exited:
					k = 6000
				default:
				}
				time.Sleep(5 * time.Millisecond)
			}
			if good.Load() < 30 {
				cl.bad("no-progress", "the active instance %s accepted only %d submissions (round %d); its output ends: %s", act.tag, good.Load(), round, tailStr(act.log.String(), 600))
				close(stop)
				wg.Wait()
				return
			}
			time.Sleep(time.Duration(rng.Intn(60)) * time.Millisecond)
			cause := causes[(i+round*2)%len(causes)]
			_, sess := cl.c.HolderTag(cl.lock)
			standbys := len(live) - 1
			limit := 20 * time.Second
			cl.how.Store(cause)
			gone := func() {
				if !cl.exitWithin(act, limit) {
					cl.bad("lives-on", "instance %s still runs %v after it lost the lock (%s)", act.tag, limit, cause)
					act.kill()
				}
				act.drained()
			}
			switch cause {
			case "interrupt", "interrupt busy":
				if cause == "interrupt busy" {
					// writes are slow, so that some are under way
					act.gw.SetPolicy(slowed(act.gw, 40*time.Millisecond))
					time.Sleep(time.Duration(30+rng.Intn(100)) * time.Millisecond)
				}
				act.cmd.Process.Signal(os.Interrupt)
				gone()
			case "invalidate":
				cl.c.SetLockDelay(true)
				cl.c.Invalidate(sess)
				gone()
				cl.c.SetLockDelay(false)
			case "kill":
				act.cmd.Process.Kill()
				gone()
				cl.expire(sess)
			case "partition":
				act.front.Cut()
				limit = 40 * time.Second
				gone()
				cl.expire(sess)
			case "agent errors":
				act.front.Sicken()
				limit = 40 * time.Second
				gone()
				cl.expire(sess)
			case "storage":
				var once sync.Once
				old := slowed(act.gw, 150*time.Millisecond)
				act.gw.SetPolicy(func(op *Op) Action {
					a := old(op)
					if op.Method == "PUT" && (opKind(op.Key) == "sth" || opKind(op.Key) == "data tile") {
						once.Do(func() { a.Status, a.Drop, a.Delay = 403, true, 20*time.Millisecond })
					}
					return a
				})
				gone()
				for _, s := range cl.c.SessionsOf(act.tag) {
					if s == sess {
						if tag, h := cl.c.HolderTag(cl.lock); h == sess {
							cl.bad("no-takeover", "instance %s ended after a refused write without giving up its lock", tag)
						}
						cl.c.Invalidate(s)
					}
				}
			}
			close(stop)
			wg.Wait()
			for k, p := range live {
				if p == act {
					live = append(live[:k:k], live[k+1:]...)
					break
				}
			}
			act.kill()
			before := len(led.All())
			sizeBefore := w.Aud.Size()
			if len(live) == 0 {
				live = append(live, cl.start(rng))
			}
			next := cl.holder(60 * time.Second)
			if next == nil {
				cl.bad("no-takeover", "60 s after %s (%s) no other instance holds the lock; output of a standby: %s", act.tag, cause, tailStr(live[0].log.String(), 600))
				return
			}
			ok := 0
			for k := 0; k < 200 && ok < 3; k++ {
				if cl.submit(next, w.PKI.Small(rng), &led, 15*time.Second) {
					ok++
				} else {
					time.Sleep(50 * time.Millisecond)
				}
				select {
				case <-next.exited:
					k = 200
				default:
				}
			}
			if ok < 3 {
				cl.bad("no-progress", "instance %s took over after %s but accepts no submissions; its output ends: %s", next.tag, cause, tailStr(next.log.String(), 600))
				return
			}
			w.Aud.mu.Lock()
			for _, p := range led.All() {
				for _, f := range w.Aud.checkPromise(p.Sub, p.SCT, w.LogID) {
					t.report(scope, Finding{Cat: "promise-lost", Msg: "after " + cause + ": " + f.String()}, nil)
				}
			}
			w.Aud.mu.Unlock()
			t.Eval(fmt.Sprintf("%s/standbys %d/round %d", cause, standbys, round))
			t.Sample(map[string]any{"leadership lost by": cause, "instance": act.tag, "standbys": standbys, "promises": before, "tree size at takeover": sizeBefore, "taken over by": next.tag})
			t.Drain(scope, w)
		}
	})
	if !t.Failed() && t.Get("scts") < 200 {
		t.Inconclusive("only %d SCTs", t.Get("scts"))
	}
}

// c12Patience has standbys wait for a long time, with and without queries to Consul that return without a change.
func c12Patience(t *T, scope map[string]bool) {
	limits := []time.Duration{0, 1500 * time.Millisecond}
	var wg sync.WaitGroup
	for k, maxWait := range limits {
		rng := t.Rand(fmt.Sprint("patience", k))
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := NewWorld(WorldOpt{FlushMs: 100})
			defer w.Close()
			cl := newCluster(t, w, scope)
			defer cl.c.srv.Close()
			cl.c.MaxWait = maxWait
			var procs []*proc
			defer func() {
				for _, p := range procs {
					p.kill()
				}
			}()
			var led Ledger
			act := cl.start(rng)
			procs = append(procs, act)
			if cl.holder(60*time.Second) == nil {
				t.Inconclusive("nobody acquired the lock")
				return
			}
			for j := 0; j < 3; j++ {
				procs = append(procs, cl.start(rng))
			}
			ok := 0
			for end := time.Now().Add(time.Duration(t.N(33, 400)) * time.Second); time.Now().Before(end); time.Sleep(300 * time.Millisecond) {
				if cl.submit(act, w.PKI.Small(rng), &led, 15*time.Second) {
					ok++
				}
				cl.submit(procs[1+rng.Intn(3)], w.PKI.Small(rng), &led, 200*time.Millisecond)
				cl.c.ExpireStale()
				if t.Failed() {
					return
				}
			}
			if ok < 10 {
				cl.bad("no-progress", "the active instance accepted only %d submissions while others wait for the lock", ok)
				return
			}
			for _, p := range procs[1:] {
				select {
				case <-p.exited:
					t.Count("standbys that ended while waiting", 1)
				default:
					t.Count("standbys that waited patiently", 1)
				}
			}
			_, sess := cl.c.HolderTag(cl.lock)
			act.kill()
			act.drained()
			cl.expire(sess)
			next := cl.holder(60 * time.Second)
			if next == nil {
				cl.bad("no-takeover", "no standby takes over after waiting for a long time; output of one: %s", tailStr(procs[1].log.String(), 600))
				return
			}
			for j := 0; j < 100; j++ {
				if cl.submit(next, w.PKI.Small(rng), &led, 15*time.Second) {
					t.Eval(fmt.Sprintf("long wait/query limit %v", maxWait))
					break
				}
				if j == 99 {
					cl.bad("no-progress", "instance %s took over after a long wait but accepts no submissions", next.tag)
				}
				time.Sleep(50 * time.Millisecond)
			}
			t.Drain(scope, w)
		}()
	}
	wg.Wait()
}

// c12Interrupted interrupts the active instance while a write of each kind is on its way, with a standby ready.
func c12Interrupted(t *T, scope map[string]bool, long bool) {
	kinds := []string{"data tile", "hash tile", "hash index", "issuer", "sth", "checkpoint", "dedupe index"}
	n := t.N(2, 12) * len(kinds)
	if long {
		n = t.N(2, 4)
	}
	t.Parallel(n, len(kinds), func(i int) {
		rng := t.Rand(fmt.Sprint("interrupted", long, i))
		if long {
			i = (i&1)*len(kinds) + []int{0, 1, 2, 3, 6}[rng.Intn(5)]
		}
		kind := kinds[i%len(kinds)]
		// either the instance is told to stop while a write is slow, or that write is refused while the others are slow
		refused := i/len(kinds)%2 == 1
		how := "interrupted while writing a " + kind
		if refused {
			how = "the storage refused a write of a " + kind
		}
		w := NewWorld(WorldOpt{Mask: 2, FlushMs: 20})
		defer w.Close()
		w.Prefill(rng, []uint64{250, 30, 0}[i%3])
		cl := newCluster(t, w, scope)
		defer cl.c.srv.Close()
		act := cl.start(rng)
		defer act.kill()
		if cl.holder(60*time.Second) == nil {
			t.Inconclusive("nobody acquired the lock")
			return
		}
		standby := cl.start(rng)
		defer standby.kill()
		var led Ledger
		for k := 0; k < 100 && !cl.submit(act, w.PKI.Small(rng), &led, 15*time.Second); k++ {
			time.Sleep(20 * time.Millisecond)
		}
		fresh := w.PKI.NewCA(w.PKI.Ints[0], caOpt{})
		cl.how.Store(how)
		before := slowed(act.gw, 0)
		var hit, tiles atomic.Bool // tiles: a batch with entries is being published
		delay := time.Duration(250+rng.Intn(300)) * time.Millisecond
		if long { // longer than anyone would wait
			delay = 35 * time.Second
		}
		act.gw.SetPolicy(func(op *Op) Action {
			a := before(op)
			if opKind(op.Key) == "data tile" {
				tiles.Store(true)
			}
			if refused {
				if op.Method == "PUT" && opKind(op.Key) == kind && !hit.Swap(true) {
					a.Status, a.Drop, a.Delay = 403, true, min(delay/6, time.Second)
				} else if op.Method == "PUT" && (!long || tiles.Load() && (opKind(op.Key) == "dedupe index") == (kind == "dedupe index")) {
					a.Delay += delay
				}
			} else if op.Method == "PUT" && opKind(op.Key) == kind && (i%2 == 0 || tiles.Load() || opKind(op.Key) != "sth" && opKind(op.Key) != "checkpoint") {
				if !hit.Swap(true) {
					act.ended.Store(true)
					act.cmd.Process.Signal(os.Interrupt)
				}
				a.Delay += delay
			}
			return a
		})
		var wg sync.WaitGroup
		for c := 0; c < 30; c++ {
			s := w.PKI.Small(rng)
			if c%3 == 0 {
				s = w.PKI.Issue(fresh, leafOpt{rng: rng})
			}
			w.Aud.Register(s)
			wg.Add(1)
			go func() {
				defer wg.Done()
				cl.submit(act, s, &led, 10*time.Second)
			}()
		}
		if !cl.exitWithin(act, 30*time.Second+2*delay) {
			cl.bad("lives-on", "instance %s still runs %v after it had to stop (%s)", act.tag, 30*time.Second+2*delay, how)
			return
		}
		wg.Wait()
		act.drained()
		var next *proc
		for end := time.Now().Add(60 * time.Second); time.Now().Before(end) && next != standby; time.Sleep(5 * time.Millisecond) {
			next = cl.holder(time.Second)
		}
		if next != standby {
			cl.bad("no-takeover", "no other instance holds the lock after %s had to stop (%s)", act.tag, how)
			return
		}
		for k := 0; k < 100; k++ {
			if cl.submit(next, w.PKI.Small(rng), &led, 15*time.Second) {
				break
			}
			if k == 99 {
				cl.bad("no-progress", "instance %s took over but accepts no submissions; its output ends: %s", next.tag, tailStr(next.log.String(), 600))
				return
			}
			time.Sleep(30 * time.Millisecond)
		}
		// a promise made by one instance is found again by the next
		for _, pr := range led.All() {
			cl.submit(next, pr.Sub, &led, 15*time.Second)
		}
		for _, pr := range led.All() {
			for _, f := range w.Aud.CheckPromise(pr.Sub, pr.SCT, w.LogID) {
				t.report(scope, Finding{Cat: "promise-lost", Msg: how + ": " + f.String()}, nil)
			}
		}
		if hit.Load() {
			t.Eval(map[bool]string{false: "interrupted with a write under way/", true: "write refused with others under way/"}[refused] + map[bool]string{true: "for long/"}[long] + kind)
		}
		t.Drain(scope, w)
	})
}

// c12State changes the configuration and the roots while standbys are waiting for the lock: the one that gets it has to
// work with what is there at that time.
func c12State(t *T, scope map[string]bool) {
	t.Parallel(t.N(4, 24), 4, func(i int) {
		rng := t.Rand(fmt.Sprint("state", i))
		w := NewWorld(WorldOpt{FlushMs: 20, Open: true})
		defer w.Close()
		cl := newCluster(t, w, scope)
		defer cl.c.srv.Close()
		var procs []*proc
		defer func() {
			for _, p := range procs {
				p.kill()
			}
		}()
		var led Ledger
		act := cl.start(rng)
		procs = append(procs, act)
		if cl.holder(60*time.Second) == nil {
			t.Inconclusive("nobody acquired the lock")
			return
		}
		for j := 0; j < 1+i%2; j++ {
			procs = append(procs, cl.start(rng))
		}
		time.Sleep(time.Duration(400+rng.Intn(500)) * time.Millisecond)
		start, limit := w.Opt.Start, w.Opt.Limit
		// the window moves on, one root is replaced
		w.Opt.Start, w.Opt.Limit = start.AddDate(1, 0, 0), limit.AddDate(1, 0, 0)
		for _, p := range procs[1:] {
			b, err := json.Marshal(w.Config(p.gw.Name))
			must(err)
			cl.c.Put(w.Name+"/config@"+p.tag, b)
		}
		gone := w.PKI.Roots[0]
		now := &PKI{Roots: append([]*CA{w.PKI.Foreign}, w.PKI.Roots[1:]...)}
		w.put("ct/v1/get-roots", now.RootsJSON())
		// more entries, up to the end
		for j := 0; j < 5+rng.Intn(20); j++ {
			cl.submit(act, w.PKI.Issue(w.PKI.Roots[1], leafOpt{rng: rng}), &led, 15*time.Second)
		}
		how := []string{"interrupt", "kill"}[i/2%2]
		_, sess := cl.c.HolderTag(cl.lock)
		if how == "interrupt" {
			act.ended.Store(true)
			act.cmd.Process.Signal(os.Interrupt)
			cl.exitWithin(act, 30*time.Second)
			act.drained()
		} else {
			act.kill()
			act.drained()
			cl.c.Invalidate(sess)
		}
		next := (*proc)(nil)
		for end := time.Now().Add(60 * time.Second); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
			if next = cl.holder(time.Second); next != nil && next != act {
				break
			}
		}
		if next == nil || next == act {
			cl.bad("no-takeover", "no standby takes over (%s)", how)
			return
		}
		for _, k := range rng.Perm(4) {
			ca, na, ok, what := w.PKI.Roots[1], limit.Add(time.Hour), true, "inside the window that was configured before it acquired the lock"
			switch k {
			case 1:
				na, ok, what = start.Add(time.Hour), false, "outside the window that was configured before it acquired the lock"
			case 2:
				ca, what = w.PKI.Foreign, "under a root that was added before it acquired the lock"
			case 3:
				ca, ok, what = gone, false, "under a root that was removed before it acquired the lock"
			}
			s := w.PKI.Issue(ca, leafOpt{rng: rng, notAfter: na})
			code := 0
			for j := 0; j < 100 && (code == 0 || code == 503); j++ {
				code = 0
				if resp, err := cl.client.Post("http://"+next.addr+s.Path(), "application/json", bytes.NewReader(s.Body())); err == nil {
					code = resp.StatusCode
					resp.Body.Close()
				}
				if code == 0 || code == 503 {
					time.Sleep(50 * time.Millisecond)
				}
			}
			t.Eval(fmt.Sprintf("state at acquisition/%s/%s", how, what))
			switch {
			case code == 0 || code == 503:
				cl.bad("no-progress", "instance %s took over but accepts no submissions", next.tag)
				return
			case ok != (code == 200):
				cl.bad("stale-state", "instance %s answers %d to a certificate %s", next.tag, code, what)
			}
		}
		for _, f := range w.Aud.Findings() {
			t.report(scope, f, w)
		}
		for _, pr := range led.All() {
			for _, f := range w.Aud.CheckPromise(pr.Sub, pr.SCT, w.LogID) {
				t.report(scope, Finding{Cat: "promise-lost", Msg: f.String()}, nil)
			}
		}
	})
}

// slowed adds a delay to what the gateway does now with writes.
func slowed(g *Gateway, d time.Duration) func(op *Op) Action {
	g.mu.Lock()
	old := g.policy
	g.mu.Unlock()
	return func(op *Op) Action {
		a := old(op)
		if op.Method == "PUT" {
			a.Delay += d
		}
		return a
	}
}
