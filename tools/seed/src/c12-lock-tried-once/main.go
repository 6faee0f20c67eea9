package main

import (
	"context"
	"encoding/json"
	"time"

	"itko.dev/internal/ctsubmit"
)

// A standby must wait for the lock as long as somebody else holds it.
func demo(t *T) {
	w := NewWorld(WorldOpt{})
	defer w.Close()
	in, err := w.Boot()
	must(err)
	gc := w.Config(in.GW.Name)
	b, _ := json.Marshal(gc)
	env.Consul.Put(in.KV+"/config", b)
	done := make(chan error, 1)
	go func() {
		defer func() {
			if recover() != nil {
				done <- nil
			}
		}()
		_, err := ctsubmit.LoadLog(context.Background(), in.KV, env.Consul.Addr)
		done <- err
	}()
	select {
	case err := <-done:
		t.fail("a second instance got past the lock that the first one holds (error %v)", err)
	case <-time.After(25 * time.Second):
	}
}
