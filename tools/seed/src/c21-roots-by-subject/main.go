package main

import (
	"bytes"
	"context"
	"encoding/json"
	"encoding/pem"
	"os"
	"path/filepath"

	"itko.dev/internal/ctsetup"
)

// get-roots lists every root of the bundle, also when roots share a name.
func demo(t *T) {
	w := NewWorld(WorldOpt{FS: true, Setup: true})
	defer w.Close()
	var bundle bytes.Buffer
	var want [][]byte
	for i := 0; i < 4; i++ {
		c := w.PKI.NewCA(nil, caOpt{cn: []string{"Old and new root", "Another root"}[i%2]})
		want = append(want, c.Raw)
		pem.Encode(&bundle, &pem.Block{Type: "CERTIFICATE", Bytes: c.Raw})
	}
	file := filepath.Join(env.Dir, "bundle.pem")
	must(os.WriteFile(file, bundle.Bytes(), 0644))
	ctsetup.MainMain(context.Background(), env.Consul.Addr, w.Name, file, w.KeyPath, w.Config("none"))
	raw, _ := w.Get("ct/v1/get-roots")
	var got struct {
		Certificates [][]byte `json:"certificates"`
	}
	if err := json.Unmarshal(raw, &got); err != nil {
		t.fail("get-roots: %v", err)
		return
	}
	for i, c := range want {
		found := false
		for _, g := range got.Certificates {
			found = found || bytes.Equal(c, g)
		}
		if !found {
			t.fail("root %d of the bundle is not in get-roots (%d certificates)", i, len(got.Certificates))
		}
	}
}
