package main

import (
	"bytes"
	"context"
	"io"
	"net/http"
	"net/url"
	"os"
	"strings"

	"github.com/fastly/compute-sdk-go/cache/simple"
	"github.com/fastly/compute-sdk-go/configstore"
	"github.com/fastly/compute-sdk-go/fsthttp"
	"github.com/fastly/compute-sdk-go/fsttest"
	"itko.dev/internal/ctmonitor"
)

type edge struct{ host string }

func (e edge) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	fr, err := fsthttp.NewRequest(r.Method, "https://"+e.host+r.URL.RequestURI(), r.Body)
	must(err)
	rec := fsttest.NewRecorder()
	ctmonitor.FastlyServe(r.Context(), rec, fr)
	w.WriteHeader(rec.Code)
	w.Write(rec.Body.Bytes())
}

// A log is asked for at size 1, and again when its first tile is full, at the same POP.
func demo(t *T) {
	os.Setenv("FASTLY_SERVICE_VERSION", "7")
	simple.VerifPOP.Reset()
	rng := newRand(1)
	w := NewWorld(WorldOpt{})
	defer w.Close()
	w.Prefill(rng, 300)
	for _, at := range []TileID{{Level: 0, W: 1}} {
		d, _ := w.Get(TileID{Level: 0, W: 256}.Path())
		w.put(at.Path(), d[:32])
	}
	w.put(TileID{Level: -1, W: 1}.Path(), w.Aud.entries[0].TileLeaf())
	configstore.VerifSet("hostmap", map[string]string{"a.example": "a"})
	fsthttp.VerifSend = func(ctx context.Context, method string, u *url.URL, backend string) (*fsthttp.Response, error) {
		r := &fsthttp.Response{StatusCode: 200, Header: fsthttp.NewHeader()}
		key := strings.TrimPrefix(u.Path, "/")
		data, ok := w.Get(key)
		if !ok {
			r.StatusCode = 404
		}
		if key == "ct/v1/get-sth" {
			r.Header.Set("Cache-Control", "max-age=5")
		}
		r.Body = io.NopCloser(bytes.NewReader(data))
		return r, nil
	}
	m := &MonClient{H: edge{"a.example"}}
	for _, n := range []uint64{1, 300} {
		w.put("ct/v1/get-sth", makeSTH(w.Key, Head{n, w.Aud.sth.TS, w.Aud.Root(n)}))
		simple.VerifPOP.Advance(60e9)
		if err := m.CheckEntryAndProof(w, 0, n); err != nil {
			t.fail("entry 0 at size %d: %v", n, err)
		}
		if n > 256 {
			if err := m.CheckEntryAndProof(w, 100, n); err != nil {
				t.fail("entry 100 at size %d: %v", n, err)
			}
		}
	}
}
