package main

import (
	"bytes"
	"context"
	"io"
	"net/http"
	"net/url"
	"os"
	"strings"

	"github.com/fastly/compute-sdk-go/cache/simple"
	"github.com/fastly/compute-sdk-go/configstore"
	"github.com/fastly/compute-sdk-go/fsthttp"
	"github.com/fastly/compute-sdk-go/fsttest"
	"itko.dev/internal/ctmonitor"
)

type edge struct{ host string }

func (e edge) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	fr, err := fsthttp.NewRequest(r.Method, "https://"+e.host+r.URL.RequestURI(), r.Body)
	must(err)
	rec := fsttest.NewRecorder()
	ctmonitor.FastlyServe(r.Context(), rec, fr)
	w.WriteHeader(rec.Code)
	w.Write(rec.Body.Bytes())
}

// Each host gets answers from its own log, also when the POP has cached objects of another.
func demo(t *T) {
	os.Setenv("FASTLY_SERVICE_VERSION", "7")
	simple.VerifPOP.Reset()
	rng := newRand(1)
	logs := map[string]*World{}
	hosts := map[string]string{}
	for _, n := range []string{"a", "b", "c"} {
		w := NewWorld(WorldOpt{})
		defer w.Close()
		w.Prefill(rng, 40)
		logs[n] = w
		hosts[n+".example"] = n
	}
	configstore.VerifSet("hostmap", hosts)
	fsthttp.VerifSend = func(ctx context.Context, method string, u *url.URL, backend string) (*fsthttp.Response, error) {
		r := &fsthttp.Response{StatusCode: 200, Header: fsthttp.NewHeader()}
		data, ok := logs[backend].Get(strings.TrimPrefix(u.Path, "/"))
		if !ok {
			r.StatusCode = 404
		}
		r.Body = io.NopCloser(bytes.NewReader(data))
		return r, nil
	}
	for k := uint64(0); k < 5; k++ {
		for n, w := range logs {
			m := &MonClient{H: edge{n + ".example"}}
			if err := m.CheckEntryAndProof(w, k*3, 40); err != nil {
				t.fail("host %s: entry %d: %v", n, k*3, err)
			}
			if err := m.CheckProofByHash(w, k*5, 40); err != nil {
				t.fail("host %s: proof of entry %d: %v", n, k*5, err)
			}
		}
	}
}
