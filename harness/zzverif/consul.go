package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Consul is a fake Consul agent: sessions and a KV store with acquire/release and blocking queries.
type Consul struct {
	Addr string
	// Mute: never answer a blocking lock query after the lock was released or lost, so that an in-process
	// instance does not end this process (the real client calls log.Fatal on lock loss).
	Mute bool
	// MaxWait, if set, bounds how long blocking queries wait
	MaxWait time.Duration
	srv     *http.Server

	mu       sync.Mutex
	cond     *sync.Cond
	kv       map[string]*ckv
	index    uint64
	sessions map[string]bool
	nextSess int
	Events   []ConsulEvent
	// If set, no acquire of this key succeeds (models Consul's lock-delay window).
	LockDelay bool
	ttl       map[string]time.Duration
	renewed   map[string]time.Time
	sickTags  map[string]bool
	tags      map[string]string // session -> front it was created through
	// onAcquire and onRelease are called with mu held
	onAcquire, onRelease func(tag string)
}

// Front is one client's way to the agent, which can be cut and has its own configuration object.
type Front struct {
	c    *Consul
	Tag  string
	Addr string
	srv  *http.Server
	cut  atomic.Bool
	sick atomic.Bool // every request is answered with 500, as by an agent that cannot reach its servers
	mu   sync.Mutex
	live map[net.Conn]bool
}

func (c *Consul) Front(tag string) *Front {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	f := &Front{c: c, Tag: tag, Addr: ln.Addr().String(), live: map[net.Conn]bool{}}
	f.srv = &http.Server{Handler: f, ConnState: func(n net.Conn, st http.ConnState) {
		f.mu.Lock()
		defer f.mu.Unlock()
		if st == http.StateNew {
			f.live[n] = true
		} else if st == http.StateClosed || st == http.StateHijacked {
			delete(f.live, n)
		}
	}}
	go f.srv.Serve(ln)
	return f
}

// Cut breaks all connections and refuses new ones.
func (f *Front) Cut() {
	f.cut.Store(true)
	f.mu.Lock()
	for n := range f.live {
		n.Close()
	}
	f.mu.Unlock()
}

func (f *Front) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	if f.cut.Load() {
		if h, ok := w.(http.Hijacker); ok {
			if n, _, err := h.Hijack(); err == nil {
				n.Close()
			}
		}
		return
	}
	if f.sick.Load() {
		http.Error(w, "rpc error getting client: failed to get conn: dial tcp: i/o timeout", 500)
		return
	}
	f.c.serve(w, r, f.Tag)
}

// Sicken makes the agent answer every request with an error, including the ones that are waiting.
func (f *Front) Sicken() {
	f.sick.Store(true)
	f.c.mu.Lock()
	f.c.sickTags[f.Tag] = true
	f.c.cond.Broadcast()
	f.c.mu.Unlock()
}

// HolderTag is the front through which the holder of key created its session.
func (c *Consul) HolderTag(key string) (tag, session string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if e := c.kv[key]; e != nil && e.session != "" {
		return c.tags[e.session], e.session
	}
	return "", ""
}

func (c *Consul) SessionsOf(tag string) (r []string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for s := range c.sessions {
		if c.tags[s] == tag {
			r = append(r, s)
		}
	}
	return
}

func (c *Consul) SetLockDelay(on bool) {
	c.mu.Lock()
	c.LockDelay = on
	c.mu.Unlock()
}

type ConsulEvent struct {
	T       time.Time
	What    string // session, acquire, acquire-denied, release, destroy, get-config
	Session string
	Key     string
}

type ckv struct {
	value   []byte
	flags   uint64
	session string
	create  uint64
	modify  uint64
	lockIdx uint64
}

func NewConsul(mute bool) *Consul {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	c := &Consul{Addr: ln.Addr().String(), Mute: mute, kv: map[string]*ckv{}, sessions: map[string]bool{}, index: 10, tags: map[string]string{},
		ttl: map[string]time.Duration{}, renewed: map[string]time.Time{}, sickTags: map[string]bool{}}
	c.cond = sync.NewCond(&c.mu)
	c.srv = &http.Server{Handler: c}
	go c.srv.Serve(ln)
	return c
}

func (c *Consul) Put(key string, val []byte) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.putLocked(key, val)
}

func (c *Consul) putLocked(key string, val []byte) {
	c.index++
	e := c.kv[key]
	if e == nil {
		e = &ckv{create: c.index}
		c.kv[key] = e
	}
	e.value = append([]byte{}, val...)
	e.modify = c.index
	c.cond.Broadcast()
}

func (c *Consul) Value(key string) []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	if e := c.kv[key]; e != nil {
		return append([]byte{}, e.value...)
	}
	return nil
}

// Holder returns the session holding key, or "".
func (c *Consul) Holder(key string) string {
	c.mu.Lock()
	defer c.mu.Unlock()
	if e := c.kv[key]; e != nil {
		return e.session
	}
	return ""
}

// LockHolder finds the one key that is used as a lock and returns its holder.
func (c *Consul) LockHolder(prefix string) (key, holder string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for k, e := range c.kv {
		if strings.HasPrefix(k, prefix) && e.session != "" {
			return k, e.session
		}
	}
	return "", ""
}

// Invalidate ends a session (TTL expiry): its locks are released.
func (c *Consul) Invalidate(session string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.invalidateLocked(session)
}

// Expire ends the session of a client that does not renew it any more. A session without a TTL does not end.
func (c *Consul) Expire(session string) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.ttl[session] <= 0 && c.sessions[session] {
		return false
	}
	c.invalidateLocked(session)
	return true
}

// ExpireStale ends the sessions that were not renewed for twice their TTL.
func (c *Consul) ExpireStale() {
	c.mu.Lock()
	defer c.mu.Unlock()
	for s := range c.sessions {
		if d := c.ttl[s]; d > 0 && time.Since(c.renewed[s]) > 2*d {
			c.invalidateLocked(s)
		}
	}
}

func (c *Consul) invalidateLocked(session string) {
	delete(c.sessions, session)
	c.event("destroy", session, "")
	for _, e := range c.kv {
		if e.session == session {
			c.index++
			e.session = ""
			e.modify = c.index
			if c.onRelease != nil {
				c.onRelease(c.tags[session])
			}
		}
	}
	c.cond.Broadcast()
}

func (c *Consul) event(what, session, key string) {
	c.Events = append(c.Events, ConsulEvent{time.Now(), what, session, key})
}

func (c *Consul) CountEvents(what string) int {
	c.mu.Lock()
	defer c.mu.Unlock()
	n := 0
	for _, e := range c.Events {
		if e.What == what {
			n++
		}
	}
	return n
}

func (c *Consul) ServeHTTP(w http.ResponseWriter, r *http.Request) { c.serve(w, r, "") }

func (c *Consul) serve(w http.ResponseWriter, r *http.Request, tag string) {
	body, _ := io.ReadAll(r.Body)
	p := r.URL.Path
	w.Header().Set("Content-Type", "application/json")
	switch {
	case p == "/v1/session/create":
		c.mu.Lock()
		c.nextSess++
		id := fmt.Sprintf("00000000-0000-0000-0000-%012d", c.nextSess)
		c.sessions[id] = true
		c.tags[id] = tag
		var opt struct{ TTL string }
		json.Unmarshal(body, &opt)
		c.ttl[id], _ = time.ParseDuration(opt.TTL)
		c.renewed[id] = time.Now()
		c.event("session", id, "")
		c.mu.Unlock()
		json.NewEncoder(w).Encode(map[string]string{"ID": id})
	case strings.HasPrefix(p, "/v1/session/renew/"):
		id := strings.TrimPrefix(p, "/v1/session/renew/")
		c.mu.Lock()
		ok := c.sessions[id]
		c.renewed[id] = time.Now()
		ttl := c.ttl[id]
		c.mu.Unlock()
		if !ok {
			w.WriteHeader(404)
			return
		}
		json.NewEncoder(w).Encode([]map[string]any{{"ID": id, "TTL": ttl.String()}})
	case strings.HasPrefix(p, "/v1/session/destroy/"):
		c.mu.Lock()
		c.invalidateLocked(strings.TrimPrefix(p, "/v1/session/destroy/"))
		c.mu.Unlock()
		w.Write([]byte("true"))
	case strings.HasPrefix(p, "/v1/kv/"):
		key := strings.TrimPrefix(p, "/v1/kv/")
		q := r.URL.Query()
		if tag != "" && strings.HasSuffix(key, "/config") {
			key += "@" + tag
		}
		switch r.Method {
		case "GET":
			c.get(w, r, tag, key, q.Get("index"), q.Get("wait"))
		case "PUT":
			c.mu.Lock()
			if s := q.Get("acquire"); s != "" {
				flags, _ := strconv.ParseUint(q.Get("flags"), 10, 64)
				e := c.kv[key]
				if e == nil {
					c.index++
					e = &ckv{create: c.index, modify: c.index}
					c.kv[key] = e
				}
				ok := c.sessions[s] && (e.session == "" || e.session == s) && !c.LockDelay
				if ok {
					c.index++
					e.value, e.flags, e.session, e.modify = body, flags, s, c.index
					e.lockIdx++
					c.event("acquire", s, key)
					if c.onAcquire != nil {
						c.onAcquire(c.tags[s])
					}
					c.cond.Broadcast()
				} else {
					c.event("acquire-denied", s, key)
				}
				c.mu.Unlock()
				fmt.Fprint(w, ok)
				return
			}
			if s := q.Get("release"); s != "" {
				e := c.kv[key]
				ok := e != nil && e.session == s
				if ok {
					c.index++
					e.session, e.modify = "", c.index
					c.event("release", s, key)
					if c.onRelease != nil {
						c.onRelease(c.tags[s])
					}
					c.cond.Broadcast()
				}
				c.mu.Unlock()
				fmt.Fprint(w, ok)
				return
			}
			c.putLocked(key, body)
			c.mu.Unlock()
			w.Write([]byte("true"))
		case "DELETE":
			c.mu.Lock()
			c.index++
			delete(c.kv, key)
			c.cond.Broadcast()
			c.mu.Unlock()
			w.Write([]byte("true"))
		}
	default:
		w.WriteHeader(404)
	}
}

func (c *Consul) get(w http.ResponseWriter, r *http.Request, tag, key, index, wait string) {
	idx, _ := strconv.ParseUint(index, 10, 64)
	limit := 5 * time.Minute
	if d, err := time.ParseDuration(wait); err == nil && d > 0 {
		limit = min(d, 10*time.Minute)
	}
	if c.MaxWait > 0 { // blocking queries may return at any time without a change
		limit = min(limit, c.MaxWait)
	}
	done := make(chan struct{})
	defer close(done)
	go func() {
		select {
		case <-r.Context().Done():
		case <-time.After(limit):
		case <-done:
			return
		}
		c.mu.Lock()
		c.cond.Broadcast()
		c.mu.Unlock()
	}()
	deadline := time.Now().Add(limit - 10*time.Millisecond)
	c.mu.Lock()
	e := c.kv[key]
	for idx > 0 && !c.sickTags[tag] && r.Context().Err() == nil && time.Now().Before(deadline) {
		e = c.kv[key]
		if e == nil || e.modify > idx {
			break
		}
		c.cond.Wait()
	}
	e = c.kv[key]
	if tag != "" && c.sickTags[tag] {
		c.mu.Unlock()
		http.Error(w, "rpc error making call: EOF", 500)
		return
	}
	isLock := e != nil && (e.lockIdx > 0)
	if !isLock {
		c.event("get", "", key)
	}
	if c.Mute && isLock && e.session == "" && (idx > 0 || r.URL.Query().Has("consistent")) {
		// lock lost or released: leave the watcher in the dark
		c.mu.Unlock()
		<-r.Context().Done()
		return
	}
	if e == nil {
		w.Header().Set("X-Consul-Index", fmt.Sprint(c.index))
		c.mu.Unlock()
		w.WriteHeader(404)
		return
	}
	out := []map[string]any{{
		"LockIndex": e.lockIdx, "Key": key, "Flags": e.flags,
		"Value": base64.StdEncoding.EncodeToString(e.value), "CreateIndex": e.create, "ModifyIndex": e.modify,
	}}
	if e.session != "" {
		out[0]["Session"] = e.session
	}
	w.Header().Set("X-Consul-Index", fmt.Sprint(e.modify))
	c.mu.Unlock()
	json.NewEncoder(w).Encode(out)
}
