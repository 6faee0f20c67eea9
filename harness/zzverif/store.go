package main

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"net/http"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---------------------------------------------------------------- object store

// Op is one request that reached the fake S3 server.
type Op struct {
	Seq     int64
	Gateway string
	Method  string // GET PUT HEAD
	Key     string
	Data    []byte // PUT body
	Status  int
	Applied bool
}

func (o *Op) String() string {
	return fmt.Sprintf("#%d %s %s %s (%d bytes) -> %d applied=%v", o.Seq, o.Gateway, o.Method, o.Key, len(o.Data), o.Status, o.Applied)
}

// Store is the durable state shared by all gateways of a world.
type Store struct {
	mu      sync.Mutex
	objs    map[string][]byte
	seq     int64
	log     []*Op // only PUTs (and, if logAll, everything)
	logAll  bool
	virtual func(key string) ([]byte, bool) // lazily computed objects (huge logs)
	// observers run under mu, before the write becomes visible. get sees the state before the write.
	observers []func(op *Op, get func(string) ([]byte, bool))
}

func NewStore() *Store { return &Store{objs: map[string][]byte{}} }

func (s *Store) getLocked(key string) ([]byte, bool) {
	if d, ok := s.objs[key]; ok {
		return d, true
	}
	if s.virtual != nil {
		return s.virtual(key)
	}
	return nil, false
}

func (s *Store) Get(key string) ([]byte, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.getLocked(key)
}

// Set writes without going through a gateway (world construction, tampering).
func (s *Store) Set(key string, data []byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.objs[key] = append([]byte{}, data...)
}

func (s *Store) Delete(key string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	delete(s.objs, key)
}

func (s *Store) Snapshot() map[string][]byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	m := make(map[string][]byte, len(s.objs))
	for k, v := range s.objs {
		m[k] = v
	}
	return m
}

func (s *Store) Keys(prefix string) []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	var r []string
	for k := range s.objs {
		if strings.HasPrefix(k, prefix) {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

func (s *Store) PutCount() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := 0
	for _, o := range s.log {
		if o.Method == "PUT" {
			n++
		}
	}
	return n
}

func (s *Store) Seq() int64 {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.seq
}

// Tail returns the last n logged operations for witnesses.
func (s *Store) Tail(n int) []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	l := s.log
	if len(l) > n {
		l = l[len(l)-n:]
	}
	var r []string
	for _, o := range l {
		r = append(r, o.String())
	}
	return r
}

// TryTail is Tail for callers that may hold the auditor's lock: it gives up if the store is busy.
func (s *Store) TryTail(n int) []string {
	if !s.mu.TryLock() {
		return nil
	}
	s.mu.Unlock()
	return s.Tail(n)
}

// ---------------------------------------------------------------- gateways

// Action tells a gateway what to do with one operation.
type Action struct {
	Delay  time.Duration
	Wait   <-chan struct{} // block until closed before going on
	Status int             // 0: normal; otherwise reply with this status
	Drop   bool            // do not apply a PUT (only with Status != 0, or silently if Lie)
	Trunc  bool            // GET: cut the body short (connection breaks)
}

// Gateway is one client's access path (one S3 bucket name) to the store.
type Gateway struct {
	Name   string
	store  *Store
	mu     sync.Mutex
	policy func(op *Op) Action
	puts   int64
	gets   int64
	flying int64       // PUTs that arrived and have not been applied or refused yet
	dead   atomic.Bool // the client is gone: nothing is applied any more
}

func (g *Gateway) SetPolicy(p func(op *Op) Action) {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.policy = p
}

func (g *Gateway) decide(op *Op) Action {
	g.mu.Lock()
	p := g.policy
	g.mu.Unlock()
	if p == nil {
		return Action{}
	}
	return p(op)
}

// S3Server serves any number of gateways over HTTP on loopback.
type S3Server struct {
	URL string // http://127.0.0.1:port
	mu  sync.Mutex
	gws map[string]*Gateway
	srv *http.Server
	ops int64
}

func NewS3Server() *S3Server {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	s := &S3Server{URL: "http://" + ln.Addr().String(), gws: map[string]*Gateway{}}
	s.srv = &http.Server{Handler: s}
	go s.srv.Serve(ln)
	return s
}

func (s *S3Server) Close() { s.srv.Close() }

func (s *S3Server) Gateway(store *Store, name string) *Gateway {
	g := &Gateway{Name: name, store: store}
	s.mu.Lock()
	s.gws[name] = g
	s.mu.Unlock()
	return g
}

func s3Error(w http.ResponseWriter, status int, code string) {
	w.Header().Set("Content-Type", "application/xml")
	w.WriteHeader(status)
	fmt.Fprintf(w, "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<Error><Code>%s</Code><Message>%s</Message></Error>", code, code)
}

func (s *S3Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	atomic.AddInt64(&s.ops, 1)
	path := strings.TrimPrefix(r.URL.Path, "/")
	bucket, key, _ := strings.Cut(path, "/")
	s.mu.Lock()
	g := s.gws[bucket]
	s.mu.Unlock()
	if g == nil {
		s3Error(w, 404, "NoSuchBucket")
		return
	}
	var body []byte
	if r.Method == "PUT" {
		var err error
		body, err = io.ReadAll(r.Body)
		if err != nil {
			return
		}
		if r.Header.Get("X-Amz-Decoded-Content-Length") != "" {
			panic("aws-chunked upload not supported by the fake S3 server")
		}
	}
	op := &Op{Gateway: g.Name, Method: r.Method, Key: key, Data: body}
	if r.Method == "PUT" {
		atomic.AddInt64(&g.flying, 1)
		defer atomic.AddInt64(&g.flying, -1)
	}
	act := g.decide(op)
	if act.Wait != nil {
		<-act.Wait
	}
	if act.Delay > 0 {
		time.Sleep(act.Delay)
	}
	st := g.store
	switch r.Method {
	case "PUT":
		st.mu.Lock()
		st.seq++
		op.Seq = st.seq
		if g.dead.Load() {
			act = Action{Status: 403, Drop: true}
		}
		op.Applied = !act.Drop
		op.Status = act.Status
		if op.Status == 0 {
			op.Status = 200
		}
		st.log = append(st.log, op)
		if op.Applied {
			for _, f := range st.observers {
				f(op, st.getLocked)
			}
			st.objs[key] = body
		}
		st.mu.Unlock()
		atomic.AddInt64(&g.puts, 1)
		if act.Status != 0 {
			s3Error(w, act.Status, "AccessDenied")
			return
		}
		w.Header().Set("ETag", "\"x\"")
		w.WriteHeader(200)
	case "GET", "HEAD":
		atomic.AddInt64(&g.gets, 1)
		st.mu.Lock()
		d, ok := st.getLocked(key)
		st.seq++
		op.Seq = st.seq
		op.Status = 200
		if !ok {
			op.Status = 404
		}
		if act.Status != 0 {
			op.Status = act.Status
		}
		if st.logAll {
			st.log = append(st.log, op)
		}
		st.mu.Unlock()
		if act.Status != 0 {
			s3Error(w, act.Status, "InternalError")
			return
		}
		if !ok {
			if r.Method == "HEAD" {
				w.WriteHeader(404)
				return
			}
			s3Error(w, 404, "NoSuchKey")
			return
		}
		w.Header().Set("Content-Type", "application/octet-stream")
		w.Header().Set("Content-Length", fmt.Sprint(len(d)))
		w.WriteHeader(200)
		if r.Method == "GET" {
			if act.Trunc {
				w.Write(d[:len(d)/2])
				return
			}
			io.Copy(w, bytes.NewReader(d))
		}
	default:
		s3Error(w, 405, "MethodNotAllowed")
	}
}

// S3Front is another address of the server, for one process, so that it can be told when nothing of it is left on the way.
type S3Front struct {
	URL  string
	open atomic.Int64 // connections
	srv  *http.Server
}

func (s *S3Server) Front() *S3Front {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	f := &S3Front{URL: "http://" + ln.Addr().String()}
	f.srv = &http.Server{Handler: s, ConnState: func(_ net.Conn, st http.ConnState) {
		switch st {
		case http.StateNew:
			f.open.Add(1)
		case http.StateClosed, http.StateHijacked:
			f.open.Add(-1)
		}
	}}
	go f.srv.Serve(ln)
	return f
}

// Drained waits until all that a process which has ended sent has been dealt with.
func (f *S3Front) Drained(limit time.Duration) bool {
	// connections are accepted in order
	c := &http.Client{Timeout: limit, Transport: &http.Transport{DisableKeepAlives: true}}
	if r, err := c.Get(f.URL + "/barrier/x"); err == nil {
		io.Copy(io.Discard, r.Body)
		r.Body.Close()
	}
	for end := time.Now().Add(limit); time.Now().Before(end); time.Sleep(time.Millisecond) {
		if f.open.Load() == 0 {
			return true
		}
	}
	return false
}

func (f *S3Front) Close() { f.srv.Close() }
