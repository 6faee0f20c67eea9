package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"time"

	"itko.dev/internal/ctsubmit"
)

func consulPut(path, body string) []byte {
	req, err := http.NewRequest("PUT", "http://"+env.Consul.Addr+path, bytes.NewReader([]byte(body)))
	must(err)
	r, err := http.DefaultClient.Do(req)
	must(err)
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	must(err)
	return b
}

// An instance that takes over works with the configuration there is when it takes over.
func demo(t *T) {
	env.Consul = NewConsul(false)
	w := NewWorld(WorldOpt{})
	defer w.Close()
	kv := w.Name + "/log"
	gw := env.S3.Gateway(w.Store, w.Name+"-b")
	put := func(limit time.Time) {
		gc := w.Config(gw.Name)
		gc.NotAfterLimit = limit.Format(time.RFC3339)
		b, _ := json.Marshal(gc)
		env.Consul.Put(kv+"/config", b)
	}
	put(w.Opt.Limit)
	// somebody else holds the lock
	var s struct{ ID string }
	must(json.Unmarshal(consulPut("/v1/session/create", `{"TTL":"600s"}`), &s))
	if b := consulPut(fmt.Sprintf("/v1/kv/%s/lock?acquire=%s&flags=3304740253564472344", kv, s.ID), "x"); string(bytes.TrimSpace(b)) != "true" {
		panic("harness: lock not acquired: " + string(b))
	}
	h := make(chan http.Handler, 1)
	go func() {
		l, err := ctsubmit.LoadLog(context.Background(), kv, env.Consul.Addr)
		must(err)
		x, err := l.Start(context.Background())
		must(err)
		h <- x
	}()
	time.Sleep(2 * time.Second)
	limit := w.Opt.Limit.AddDate(0, -6, 0)
	put(limit)
	time.Sleep(time.Second)
	consulPut(fmt.Sprintf("/v1/kv/%s/lock?release=%s&flags=3304740253564472344", kv, s.ID), "x")
	in := &Inst{W: w, dead: make(chan struct{}), KV: kv, GW: gw}
	select {
	case in.H = <-h:
	case <-time.After(60 * time.Second):
		panic("harness: no take-over")
	}
	rng := newRand(1)
	for i, na := range []time.Time{limit.Add(-time.Hour), limit, w.Opt.Limit.Add(-time.Hour)} {
		s := w.PKI.Issue(w.PKI.Ints[0], leafOpt{rng: rng, notAfter: na})
		w.Aud.Register(s)
		if r := in.Submit(s); (r.Code == 200) != (i == 0) {
			t.fail("NotAfter %v, limit %v: %v", na, limit, r)
		}
	}
}
