package main

import (
	"bytes"
	"context"
	"io"
	"net/http"
	"net/url"
	"os"
	"strings"

	"github.com/fastly/compute-sdk-go/cache/simple"
	"github.com/fastly/compute-sdk-go/configstore"
	"github.com/fastly/compute-sdk-go/fsthttp"
	"github.com/fastly/compute-sdk-go/fsttest"
	"itko.dev/internal/ctmonitor"
)

type edge struct{}

func (e edge) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	fr, err := fsthttp.NewRequest(r.Method, "https://log.example"+r.URL.RequestURI(), r.Body)
	must(err)
	rec := fsttest.NewRecorder()
	ctmonitor.FastlyServe(r.Context(), rec, fr)
	w.WriteHeader(rec.Code)
	w.Write(rec.Body.Bytes())
}

// What storage declares not to be fresh at all, the edge does not answer from its cache.
func demo(t *T) {
	os.Setenv("FASTLY_SERVICE_VERSION", "7")
	simple.VerifPOP.Reset()
	w := NewWorld(WorldOpt{FlushMs: 20})
	defer w.Close()
	in, err := w.Boot()
	must(err)
	rng := newRand(1)
	configstore.VerifSet("hostmap", map[string]string{"log.example": "store"})
	fsthttp.VerifSend = func(ctx context.Context, method string, u *url.URL, backend string) (*fsthttp.Response, error) {
		r := &fsthttp.Response{StatusCode: 200, Header: fsthttp.NewHeader()}
		r.Header.Set("Cache-Control", "public, max-age=604800, immutable")
		key := strings.TrimPrefix(u.Path, "/")
		if !strings.HasPrefix(key, "tile/") && !strings.HasPrefix(key, "issuer/") {
			r.Header.Set("Cache-Control", "max-age=0")
		}
		data, ok := w.Get(key)
		if !ok {
			r.StatusCode = 404
		}
		r.Body = io.NopCloser(bytes.NewReader(data))
		return r, nil
	}
	m := &MonClient{H: edge{}}
	for n := uint64(1); n < 6; n++ {
		if sct, r := in.MustClient(t, w.PKI.Small(rng), nil, nil); sct == nil {
			t.fail("submission: %v", r)
			return
		}
		if err := m.CheckEntries(w, n-1, n-1, n); err != nil {
			t.fail("entry %d of %d: %v", n-1, n, err)
		}
		if err := m.CheckEntryAndProof(w, n-1, n); err != nil {
			t.fail("proof of entry %d of %d: %v", n-1, n, err)
		}
	}
}
