package main

import (
	"context"
	"encoding/json"
	"time"

	"itko.dev/internal/ctsubmit"
)

// When the active instance is gone without having released the lock, another one gets it.
func demo(t *T) {
	env.Consul = NewConsul(true)
	w := NewWorld(WorldOpt{})
	defer w.Close()
	kv := w.Name + "/log"
	gw := env.S3.Gateway(w.Store, w.Name+"-b")
	b, _ := json.Marshal(w.Config(gw.Name))
	env.Consul.Put(kv+"/config", b)
	_, err := ctsubmit.LoadLog(context.Background(), kv, env.Consul.Addr)
	must(err)
	session := env.Consul.Holder(kv + "/lock")
	if session == "" {
		panic("harness: no holder")
	}
	env.Consul.Expire(session) // as if it had not been renewed for long
	done := make(chan error, 1)
	go func() {
		_, err := ctsubmit.LoadLog(context.Background(), kv, env.Consul.Addr)
		done <- err
	}()
	select {
	case err := <-done:
		must(err)
	case <-time.After(30 * time.Second):
		t.fail("the other instance does not get the lock")
	}
}
