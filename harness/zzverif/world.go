package main

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/sha256"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	mrand "math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"testing/iotest"
	"time"

	"itko.dev/internal/ctmonitor"
	"itko.dev/internal/ctsubmit"
)

func must(err error) {
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
}

// ---------------------------------------------------------------- environment shared by all worlds of a run

type Env struct {
	S3     *S3Server
	Consul *Consul
	Dir    string // scratch
	n      int64
}

var env *Env

func initEnv(dir string) {
	env = &Env{S3: NewS3Server(), Consul: NewConsul(true), Dir: dir}
	tr := http.DefaultTransport.(*http.Transport)
	tr.MaxIdleConnsPerHost = 128
	tr.MaxIdleConns = 0
}

func uniq() int64 { return atomic.AddInt64(&env.n, 1) }

// ---------------------------------------------------------------- worlds

type WorldOpt struct {
	Mask    int // default 5
	FlushMs int // default 20
	FS      bool
	Bulk    bool // Prefill makes long index objects
	Key     *ecdsa.PrivateKey
	NoAudit bool
	Open    bool // entries need not come from registered submissions
	Start   time.Time
	Limit   time.Time
	Setup   bool // do not write roots and the empty head
	Salt    string
	Issuers int           // different issuers in reference-built logs, default 8
	Chain   int           // longest chain in reference-built logs, default 3
	Ahead   time.Duration // the clock of whoever wrote the log so far was ahead by this much
}

type World struct {
	Opt     WorldOpt
	Name    string
	Store   *Store
	Aud     *Auditor
	PKI     *PKI
	Key     *ecdsa.PrivateKey
	KeyPath string
	LogID   [32]byte
	Origin  string
	FSDir   string
	insts   []*Inst
}

func writeECKey(path string, key *ecdsa.PrivateKey) {
	der, err := x509.MarshalECPrivateKey(key)
	must(err)
	must(os.WriteFile(path, pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: der}), 0600))
}

func NewWorld(o WorldOpt) *World {
	if o.Mask == 0 {
		o.Mask = 5
	}
	if o.FlushMs == 0 {
		o.FlushMs = 20
	}
	if o.Issuers == 0 {
		o.Issuers = 8
	}
	if o.Chain == 0 {
		o.Chain = 3
	}
	if o.Start.IsZero() {
		o.Start = time.Date(2025, 1, 1, 0, 0, 0, 0, time.UTC)
		o.Limit = time.Date(2026, 1, 1, 0, 0, 0, 0, time.UTC)
	}
	id := uniq()
	w := &World{Opt: o, Name: fmt.Sprintf("w%d", id), Store: NewStore()}
	if o.Salt == "" {
		o.Salt = fmt.Sprintf("s%d", id)
	}
	w.Origin = fmt.Sprintf("ct.example/%s", w.Name)
	w.Key = o.Key
	if w.Key == nil {
		w.Key = detKey(elliptic.P256(), "log/"+o.Salt)
	}
	w.LogID = spkiHash(w.Key.Public())
	w.KeyPath = filepath.Join(env.Dir, w.Name+".key")
	writeECKey(w.KeyPath, w.Key)
	w.PKI = NewPKI(o.Salt, o.Start, o.Limit)
	if o.FS {
		w.FSDir = filepath.Join(env.Dir, w.Name+"-fs")
		must(os.MkdirAll(w.FSDir, 0755))
	}
	w.Aud = NewAuditor(&w.Key.PublicKey, w.Origin, o.Mask)
	w.Aud.closed = !o.Open
	if !o.NoAudit {
		w.Store.observers = append(w.Store.observers, w.Aud.onPut)
	}
	if !o.Setup {
		w.put("ct/v1/get-roots", w.PKI.RootsJSON())
		h := Head{0, uint64(time.Now().Add(o.Ahead).UnixMilli()) - 1, emptyRoot}
		w.put("ct/v1/get-sth", makeSTH(w.Key, h))
		w.Aud.sth, w.Aud.haveSTH = h, true
		w.Aud.sthSizes[0] = true
	}
	return w
}

// put writes an initial object to the world's storage, whichever it is.
func (w *World) put(key string, data []byte) {
	if w.Opt.FS {
		p := filepath.Join(w.FSDir, key)
		must(os.MkdirAll(filepath.Dir(p), 0755))
		must(os.WriteFile(p, data, 0644))
		return
	}
	w.Store.Set(key, data)
}

// Get reads an object of the world's storage directly.
func (w *World) Get(key string) ([]byte, bool) {
	if w.Opt.FS {
		d, err := os.ReadFile(filepath.Join(w.FSDir, key))
		return d, err == nil
	}
	return w.Store.Get(key)
}

// Close frees everything a world holds.
func (w *World) Close() {
	for _, i := range w.insts {
		i.Kill()
	}
	os.Remove(w.KeyPath)
	if w.FSDir != "" && strings.HasPrefix(w.FSDir, env.Dir+"/") {
		os.RemoveAll(w.FSDir)
	}
	env.S3.mu.Lock()
	for n, g := range env.S3.gws {
		if g.store == w.Store {
			delete(env.S3.gws, n)
		}
	}
	env.S3.mu.Unlock()
}

func (w *World) Config(bucket string) ctsubmit.GlobalConfig {
	gc := ctsubmit.GlobalConfig{
		Name: w.Origin, KeyPath: w.KeyPath, LogID: base64.StdEncoding.EncodeToString(w.LogID[:]),
		MaskSize: w.Opt.Mask, RootDirectory: w.FSDir,
		S3Bucket: bucket, S3Region: "us-east-1", S3EndpointUrl: env.S3.URL,
		S3StaticCredentialUserName: "u", S3StaticCredentialPassword: "p",
		NotAfterStart: w.Opt.Start.Format(time.RFC3339), NotAfterLimit: w.Opt.Limit.Format(time.RFC3339),
		FlushMs: w.Opt.FlushMs,
	}
	return gc
}

// ---------------------------------------------------------------- instances

type Inst struct {
	W       *World
	GW      *Gateway
	KV      string
	H       http.Handler
	Log     *ctsubmit.Log
	cancel  context.CancelFunc
	crashed atomic.Bool
	dead    chan struct{} // closed when the instance is gone
	once    sync.Once
}

// Boot starts a submission instance in this process with its own gateway and its own lock.
func (w *World) Boot() (*Inst, error) { return w.BootWith(nil, nil) }

func (w *World) BootWith(policy func(op *Op) Action, mod func(*ctsubmit.GlobalConfig)) (*Inst, error) {
	n := uniq()
	in := &Inst{W: w, dead: make(chan struct{}), KV: fmt.Sprintf("%s/i%d", w.Name, n)}
	in.GW = env.S3.Gateway(w.Store, fmt.Sprintf("%s-b%d", w.Name, n))
	in.GW.SetPolicy(policy)
	gc := w.Config(in.GW.Name)
	if mod != nil {
		mod(&gc)
	}
	b, err := json.Marshal(gc)
	must(err)
	env.Consul.Put(in.KV+"/config", b)
	return in.load()
}

// bootFrom starts an instance from a configuration that is in Consul already.
func (w *World) bootFrom(kv string, g *Gateway) (*Inst, error) {
	in := &Inst{W: w, dead: make(chan struct{}), KV: kv, GW: g}
	return in.load()
}

func (in *Inst) load() (_ *Inst, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("LoadLog panicked: %v", p)
		}
	}()
	ctx, cancel := context.WithCancel(context.Background())
	in.cancel = cancel
	l, err := ctsubmit.LoadLog(ctx, in.KV, env.Consul.Addr)
	if err != nil {
		cancel()
		return nil, err
	}
	in.Log = l
	h, err := l.Start(ctx)
	if err != nil {
		cancel()
		return nil, err
	}
	in.H = h
	in.W.insts = append(in.W.insts, in)
	return in, nil
}

// markDead tells all clients that the process is gone; it may be called with locks held.
func (in *Inst) markDead() {
	in.crashed.Store(true)
	in.once.Do(func() { close(in.dead) })
	go in.cancel()
}

// Kill makes the instance disappear: nothing it does from now on reaches storage.
func (in *Inst) Kill() {
	in.markDead()
	in.GW.SetPolicy(func(op *Op) Action { return Action{Status: 403, Drop: true} })
	in.cancel()
	for i := 0; i < 500 && atomic.LoadInt64(&in.GW.flying) > 0; i++ {
		time.Sleep(2 * time.Millisecond)
	}
	in.W.Store.mu.Lock()
	in.GW.dead.Store(true)
	in.W.Store.mu.Unlock()
}

// Quiesce stops the instance orderly: stops its stages and waits until no storage writes happen.
func (in *Inst) Quiesce() {
	in.cancel()
	last := int64(-1)
	for stable := 0; stable < 3; {
		time.Sleep(15 * time.Millisecond)
		n := atomic.LoadInt64(&in.GW.puts)
		if n == last {
			stable++
		} else {
			stable = 0
		}
		last = n
	}
	in.Kill()
}

// Resp is the answer of an in-process handler.
type Resp struct {
	Code    int
	Body    []byte
	Header  http.Header
	Panic   string
	Stack   string
	Hung    bool
	Elapsed time.Duration
	Headers int // number of explicit status lines
}

type countWriter struct {
	http.ResponseWriter
	n int
}

func (w *countWriter) WriteHeader(code int) {
	w.n++
	w.ResponseWriter.WriteHeader(code)
}

func (r *Resp) String() string {
	if r.Panic != "" {
		return "panic: " + r.Panic
	}
	if r.Hung {
		return "no answer"
	}
	return fmt.Sprintf("%d %.200q", r.Code, r.Body)
}

// call runs one request through a handler; it waits at most limit.
func call(h http.Handler, method, target string, body []byte, limit time.Duration) *Resp {
	return callQ(h, method, target, body, limit, nil)
}

var shapeSeq atomic.Uint64

// shapeRequest varies what a client chooses freely: how the body arrives, the protocol, headers that mean nothing here.
func shapeRequest(req *http.Request, body []byte) {
	n := shapeSeq.Add(1)
	if len(body) > 0 {
		switch n % 4 {
		case 1: // length not announced (chunked), all at once
			req.ContentLength = -1
			req.TransferEncoding = []string{"chunked"}
		case 2: // chunked, in pieces, the last one together with the end
			req.ContentLength = -1
			req.TransferEncoding = []string{"chunked"}
			req.Body = io.NopCloser(iotest.DataErrReader(&pieces{bytes.NewReader(body), int(n%1400) + 1}))
		case 3:
			req.Body = io.NopCloser(&pieces{bytes.NewReader(body), int(n%1400) + 1})
		}
	}
	switch n / 4 % 5 {
	case 0:
		req.Header.Set("Content-Type", "application/json")
	case 1:
		req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
		req.Header.Set("Accept-Encoding", "gzip, br")
	case 2:
		req.Proto, req.ProtoMajor, req.ProtoMinor = "HTTP/2.0", 2, 0
		req.TransferEncoding = nil
		req.Header.Set("Content-Type", "text/plain; charset=utf-8")
	case 3:
		req.Proto, req.ProtoMinor = "HTTP/1.0", 0
		if req.Method == "POST" {
			req.Header.Set("Range", "bytes=0-10")
			req.Header.Set("If-None-Match", "*")
			req.Header.Set("If-Modified-Since", "Wed, 21 Oct 2099 07:28:00 GMT")
		}
	}
}

type pieces struct {
	r io.Reader
	n int
}

func (p *pieces) Read(b []byte) (int, error) { return p.r.Read(b[:min(len(b), p.n)]) }

// callQ is call for a client that goes away when quit is closed.
func callQ(h http.Handler, method, target string, body []byte, limit time.Duration, quit <-chan struct{}) *Resp {
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan *Resp, 1)
	start := time.Now()
	go func() {
		res := &Resp{}
		defer func() {
			if p := recover(); p != nil {
				res.Panic = fmt.Sprint(p)
				res.Stack = string(debug.Stack())
			}
			res.Elapsed = time.Since(start)
			done <- res
		}()
		var rdr *bytes.Reader
		if body == nil {
			body = []byte{}
		}
		rdr = bytes.NewReader(body)
		req := httptest.NewRequest(method, "http://log.example"+target, rdr).WithContext(ctx)
		shapeRequest(req, body)
		rec := httptest.NewRecorder()
		cw := &countWriter{ResponseWriter: rec}
		h.ServeHTTP(cw, req)
		res.Headers = cw.n
		res.Code = rec.Code
		res.Body = rec.Body.Bytes()
		res.Header = rec.Header()
	}()
	if limit == 0 {
		limit = 90 * time.Second
	}
	select {
	case r := <-done:
		cancel()
		return r
	case <-quit:
		cancel()
		return &Resp{Hung: true}
	case <-time.After(limit):
		cancel()
		return &Resp{Hung: true, Elapsed: limit}
	}
}

// Submit sends a submission to the instance.
func (in *Inst) Submit(s *Sub) *Resp { return callQ(in.H, "POST", s.Path(), s.Body(), 0, in.dead) }

// Monitor returns the read API handler over this world's storage through its own gateway.
func (w *World) Monitor() (http.Handler, *Gateway) {
	if w.Opt.FS {
		h, err := ctmonitor.Start(context.Background(), w.FSDir, "", w.Opt.Mask)
		must(err)
		return h, nil
	}
	g := env.S3.Gateway(w.Store, fmt.Sprintf("%s-m%d", w.Name, uniq()))
	h, err := ctmonitor.Start(context.Background(), "", env.S3.URL+"/"+g.Name+"/", w.Opt.Mask)
	must(err)
	return h, g
}

// ---------------------------------------------------------------- promises

// Promise is an SCT a client holds.
type Promise struct {
	Sub *Sub
	SCT *SCT
}

type Ledger struct {
	mu sync.Mutex
	P  []Promise
}

func (l *Ledger) Add(p Promise) {
	l.mu.Lock()
	l.P = append(l.P, p)
	l.mu.Unlock()
}

func (l *Ledger) All() []Promise {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]Promise{}, l.P...)
}

// Client submits s, judges the answer at once, and returns the SCT if there is one.
func (in *Inst) Client(t *T, s *Sub, led *Ledger, cats map[string]bool) (*SCT, *Resp) {
	in.W.Aud.Register(s)
	r := in.Submit(s)
	if in.crashed.Load() {
		return nil, r // the client never saw this answer
	}
	if r.Code != 200 || r.Panic != "" || r.Hung {
		return nil, r
	}
	sct, err := parseSCT(r.Body)
	if err != nil {
		t.report(cats, Finding{Cat: "sct-malformed", Msg: fmt.Sprintf("answer 200 for submission %d is not an SCT: %v: %.200q", s.ID, err, r.Body)}, in.W)
		return nil, r
	}
	if !in.W.Opt.NoAudit {
		for _, f := range in.W.Aud.CheckPromise(s, sct, in.W.LogID) {
			if in.crashed.Load() {
				return nil, r
			}
			t.report(cats, f, in.W)
		}
	}
	t.Count("scts", 1)
	if led != nil {
		led.Add(Promise{s, sct})
	}
	return sct, r
}

// MustClient repeats a submission while the log answers 503; nil means no progress.
func (in *Inst) MustClient(t *T, s *Sub, led *Ledger, cats map[string]bool) (*SCT, *Resp) {
	var sct *SCT
	var r *Resp
	for i := 0; i < 6; i++ {
		sct, r = in.Client(t, s, led, cats)
		if sct != nil || in.crashed.Load() || r.Panic != "" || r.Hung || r.Code != 503 {
			return sct, r
		}
	}
	return sct, r
}

// ---------------------------------------------------------------- prefilled logs

// synthEntry makes an entry with arbitrary bytes for reference-built logs.
func synthEntry(rng *mrand.Rand, idx uint64, ts uint64, issuers [][]byte, chain int) *Entry {
	e := &Entry{TS: ts, Index: idx, Pre: rng.Intn(2) == 0}
	n := 20 + rng.Intn(300)
	e.Cert = make([]byte, n)
	rng.Read(e.Cert)
	if e.Pre {
		rng.Read(e.IKH[:])
		e.PreCert = make([]byte, 20+rng.Intn(300))
		rng.Read(e.PreCert)
	}
	for i := rng.Intn(chain + 1); i > 0; i-- {
		e.Chain = append(e.Chain, sha256.Sum256(issuers[rng.Intn(len(issuers))]))
	}
	return e
}

// Prefill replaces the empty log by a reference-built log of the given size. If size is large, everything left of the
// last tiles consists of constant leaves and is served lazily.
func (w *World) Prefill(rng *mrand.Rand, size uint64) { w.PrefillReal(rng, size, 4096) }

func (w *World) PrefillReal(rng *mrand.Rand, size, realMax uint64) {
	a := w.Aud
	var base uint64
	if size > realMax {
		base = (size - 1) / 256 * 256
		if base >= 256 {
			base -= 256
		}
	}
	now := uint64(time.Now().Add(w.Opt.Ahead).UnixMilli())
	issuers := make([][]byte, w.Opt.Issuers)
	for i := range issuers {
		issuers[i] = make([]byte, 50+rng.Intn(500))
		rng.Read(issuers[i])
	}
	a.base = base
	a.tree = NewRefTree(base)
	idx := map[string][][]byte{}
	ded := map[string][][]byte{}
	for i := base; i < size; i++ {
		e := synthEntry(rng, i, now-10000+(i-base), issuers, w.Opt.Chain)
		if e.TS > now {
			e.TS = now
		}
		a.addEntry(e)
		for _, f := range e.Chain {
			for _, c := range issuers {
				if sha256.Sum256(c) == f {
					a.chains[f] = c
					k := fmt.Sprintf("issuer/%x", f)
					a.immut[k] = f
					w.put(k, c)
				}
			}
		}
		lh := leafHash(e.Leaf())
		k := "int/hashes/" + maskPath(lh[:16], w.Opt.Mask)
		rec := hashRecord(lh, i)
		idx[k] = append(idx[k], rec)
		if a.hrec[k] == nil {
			a.hrec[k] = map[string]bool{}
		}
		a.hrec[k][string(rec)] = true
		fp := e.FP()
		k = "int/dedupe/" + maskPath(fp[:16], w.Opt.Mask)
		ded[k] = append(ded[k], dedupeRecord(fp, i, e.TS))
	}
	if base > 0 && w.Opt.Bulk && w.Opt.Mask <= 2 {
		// the index objects of a log this long hold many records already
		for i := 0; i < 1<<(4*w.Opt.Mask); i++ {
			k := maskPath([]byte{byte(i << (8 - 4*w.Opt.Mask)), 0}, w.Opt.Mask)
			n := []int{1500, 400, 3300, 900}[(i+int(size))%4]
			if w.Opt.Mask == 2 {
				n /= 2
			}
			if i == int(size%16) {
				n = 9000
			}
			for j := 0; j < n; j++ {
				var h [32]byte
				rng.Read(h[:])
				h[0] = byte(i<<(8-4*w.Opt.Mask)) | h[0]>>(4*w.Opt.Mask)
				idx["int/hashes/"+k] = append(idx["int/hashes/"+k], hashRecord(h, uint64(rng.Int63n(int64(base)))))
				rng.Read(h[1:])
				ded["int/dedupe/"+k] = append(ded["int/dedupe/"+k], dedupeRecord(h, uint64(rng.Int63n(int64(base))), now-1000000))
			}
		}
	}
	for _, m := range []map[string][][]byte{idx, ded} {
		for k, v := range m {
			w.put(k, joinSorted(v))
		}
	}
	for _, t := range dataTilesFor(base, size) {
		var b []byte
		for i := 0; i < t.W; i++ {
			b = append(b, a.entries[t.N*256+uint64(i)-base].TileLeaf()...)
		}
		w.put(t.Path(), b)
		a.immut[t.Path()] = sha256.Sum256(b)
	}
	if base == 0 {
		for _, t := range tilesFor(0, size) {
			b := a.tree.tile(t.Level, t.N, t.W)
			w.put(t.Path(), b)
			a.immut[t.Path()] = sha256.Sum256(b)
		}
	} else {
		// right edge stored, everything else computed on demand
		tree := a.tree
		for _, t := range tilesFor(base, size) {
			b := tree.tile(t.Level, t.N, t.W)
			w.put(t.Path(), b)
			a.immut[t.Path()] = sha256.Sum256(b)
		}
		w.Store.virtual = func(key string) ([]byte, bool) {
			t, ok := parseTilePath(key)
			if !ok || t.Level < 0 || t.W != 256 {
				return nil, false
			}
			end := (t.N + 1) * 256
			if t.Level > 7 || end<<(8*uint(t.Level)) > base || end<<(8*uint(t.Level))>>(8*uint(t.Level)) != end {
				return nil, false
			}
			k := tree.konst[8*t.Level]
			return bytes.Repeat(k[:], 256), true
		}
	}
	h := Head{size, now, a.tree.Root(size)}
	w.put("ct/v1/get-sth", makeSTH(w.Key, h))
	w.put("checkpoint", makeCheckpoint(w.Key, w.Origin, h))
	a.sth, a.haveSTH, a.cp, a.haveCP = h, true, h, true
	a.sthSizes = map[uint64]bool{size: true}
	a.cpSizes = map[uint64]bool{size: true}
}

func joinSorted(v [][]byte) []byte {
	for i := 1; i < len(v); i++ {
		for j := i; j > 0 && bytes.Compare(v[j][:16], v[j-1][:16]) < 0; j-- {
			v[j], v[j-1] = v[j-1], v[j]
		}
	}
	return bytes.Join(v, nil)
}

func parseTilePath(key string) (TileID, bool) {
	f := strings.Split(key, "/")
	if len(f) < 3 || f[0] != "tile" {
		return TileID{}, false
	}
	t := TileID{Level: -1, W: 256}
	if f[1] != "data" {
		if _, err := fmt.Sscanf(f[1], "%d", &t.Level); err != nil {
			return t, false
		}
	}
	f = f[2:]
	if l := len(f); l >= 2 && strings.HasSuffix(f[l-2], ".p") {
		if _, err := fmt.Sscanf(f[l-1], "%d", &t.W); err != nil {
			return t, false
		}
		f = f[:l-1]
		f[l-2] = strings.TrimSuffix(f[l-2], ".p")
	}
	for _, p := range f {
		var n uint64
		if _, err := fmt.Sscanf(strings.TrimPrefix(p, "x"), "%d", &n); err != nil {
			return t, false
		}
		t.N = t.N*1000 + n
	}
	c := t
	return t, c.Path() == key
}
