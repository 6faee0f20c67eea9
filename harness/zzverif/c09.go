package main

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"itko.dev/internal/ctmonitor"
)

func init() {
	checks["C09"] = Check{
		Level: "exploration",
		Rule: "one evaluation = one request to the read API, classified independently as valid, invalid or ambiguous; panics, missing answers, successes for invalid or unservable requests and refusals of valid ones are violations; " +
			"distinct = (endpoint, parameter mutations, storage state) combinations",
		Run: runC09,
	}
	helpers["c09mon"] = func(args []string) {
		must(syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Cur: 100, Max: 100}))
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		must(os.WriteFile(args[0]+".tmp", []byte(ln.Addr().String()), 0644))
		must(os.Rename(args[0]+".tmp", args[0]))
		mask, err := strconv.Atoi(args[1])
		must(err)
		ctmonitor.MainMain(ln, args[2], args[3], mask, nil)
	}
}

// value is a parameter value: its text, and its meaning if it is a plain decimal number.
type value struct {
	text  string
	n     *big.Int // nil: malformed
	vague bool     // may be taken as a number or not
	kind  string
}

func numValue(rng *rand.Rand, size uint64) value {
	num := func(n *big.Int, kind string) value { return value{text: n.String(), n: n, kind: kind} }
	b := func(x int64) *big.Int { return big.NewInt(x) }
	s := new(big.Int).SetUint64(size)
	switch rng.Intn(12) {
	case 0, 1, 2:
		if size > 0 {
			return num(b(rng.Int63n(int64(size))), "inside")
		}
		return num(b(0), "0")
	case 3:
		return num(s, "size")
	case 4:
		return num(new(big.Int).Add(s, b(1+rng.Int63n(300))), "beyond")
	case 5:
		return num(b(0), "0")
	case 6:
		return num(b(-1-rng.Int63n(5)), "negative")
	case 7:
		h := []string{"9223372036854775807", "9223372036854775806", "9223372036854774783", "4611686018427387904", "1099511627776"}
		n, _ := new(big.Int).SetString(h[rng.Intn(len(h))], 10)
		return num(n, "huge")
	case 8:
		h := []string{"9223372036854775808", "18446744073709551615", "18446744073709551616", "-9223372036854775809", "99999999999999999999999999", "-9223372036854775808", strings.Repeat("9", 5000)}
		n, _ := new(big.Int).SetString(h[rng.Intn(len(h))], 10)
		return num(n, "overflow")
	case 9:
		v := []string{"", " ", "abc", "1x", "0x10", "1e3", "1.0", "1.5", "NaN", "٣", "1 2", "--1", "1-", "null", "true", "\x00", "１", "\"5\"", "[1]", "0b1", "0o7", "0_1", " 5", "5 ", "5\n", "\t1", "5,"}
		return value{text: v[rng.Intn(len(v))], kind: "malformed"}
	case 10:
		v := []string{"+5", "-0", "007"}
		return value{text: v[rng.Intn(len(v))], vague: true, kind: "vague"}
	}
	if size > 0 {
		return num(new(big.Int).Sub(s, b(1)), "last")
	}
	return num(b(0), "0")
}

// query is a generated request and its classification.
type query struct {
	target string
	class  string
	valid  int // 1: must succeed when storage works, -1: must be refused, 0: either
	judge  func(r *Resp) error
}

func genQuery(rng *rand.Rand, w *World, m *MonClient) query {
	a := w.Aud
	size := a.Size()
	S := new(big.Int).SetUint64(size)
	ep := []string{"get-sth-consistency", "get-proof-by-hash", "get-entries", "get-entry-and-proof"}[rng.Intn(4)]
	names := map[string][2]string{"get-sth-consistency": {"first", "second"}, "get-proof-by-hash": {"hash", "tree_size"}, "get-entries": {"start", "end"}, "get-entry-and-proof": {"leaf_index", "tree_size"}}[ep]
	v1, v2 := numValue(rng, size), numValue(rng, size)
	if rng.Intn(3) == 0 && v1.n != nil { // close together
		n := new(big.Int).Add(v1.n, big.NewInt(rng.Int63n(5)-1))
		v2 = value{text: n.String(), n: n, kind: "near"}
	}
	q := query{}
	var leaf int64 = -1
	var hash Hash
	if ep == "get-proof-by-hash" {
		kind := ""
		hash, leaf, v1.text, kind = genHash(rng, w)
		v1 = value{text: v1.text, kind: kind}
	}
	// syntax
	miss := 0
	form := rng.Intn(12)
	enc := func(k, v string) string { return k + "=" + urlq(rng, v) }
	p1, p2 := enc(names[0], v1.text), enc(names[1], v2.text)
	var raw, fk string
	switch form {
	case 0:
		raw, miss, fk = p1, -1, "second missing"
	case 1:
		raw, miss, fk = p2, -1, "first missing"
	case 2:
		raw, fk = p2+"&"+p1, "swapped order"
	case 3:
		raw, fk = p1+"&"+p2+"&x=1&y", "extra parameters"
	case 4:
		raw, miss, fk = p1+"&"+names[1]+"=%zz", -1, "bad escape"
	case 5:
		raw, miss, fk = p1+"&"+strings.ToUpper(names[1])+"="+v2.text[:0]+"1", -1, "wrong case"
	default:
		raw, fk = p1+"&"+p2, "plain"
	}
	q.target = "/ct/v1/" + ep + "?" + raw
	q.class = fmt.Sprintf("%s/%s/%s,%s", ep, fk, v1.kind, v2.kind)
	set := func() int {
		if miss < 0 {
			return miss
		}
		num := func(v value) bool { return v.n != nil && v.n.IsInt64() }
		if (ep != "get-proof-by-hash" && !v1.vague && !num(v1)) || (!v2.vague && !num(v2)) {
			return -1
		}
		if v1.vague || v2.vague {
			return 0
		}
		n2 := v2.n
		switch ep {
		case "get-proof-by-hash":
			if leaf == -2 || n2.Sign() < 0 || n2.Cmp(S) > 0 {
				return -1
			}
			if leaf < 0 || n2.Cmp(big.NewInt(leaf)) <= 0 {
				return -1 // not in that tree
			}
			q.judge = func(r *Resp) error { return m.judgeProofByHash(w, hash, n2.Uint64(), r) }
			return 1
		case "get-sth-consistency":
			if v1.n.Sign() < 0 || n2.Sign() < 0 || v1.n.Cmp(n2) > 0 || n2.Cmp(S) > 0 {
				return -1
			}
			q.judge = func(r *Resp) error { return m.judgeConsistency(w, v1.n.Uint64(), n2.Uint64(), r) }
		case "get-entries":
			if v1.n.Sign() < 0 || n2.Sign() < 0 || v1.n.Cmp(n2) > 0 || v1.n.Cmp(S) >= 0 {
				return -1
			}
			q.judge = func(r *Resp) error { _, err := m.judgeEntries(w, v1.n.Uint64(), n2.Uint64(), r); return err }
			return 1
		case "get-entry-and-proof":
			if v1.n.Sign() < 0 || n2.Sign() < 0 || v1.n.Cmp(n2) >= 0 || n2.Cmp(S) > 0 {
				return -1
			}
			q.judge = func(r *Resp) error { return m.judgeEntryAndProof(w, v1.n.Uint64(), n2.Uint64(), r) }
		}
		// sizes that were never published may be refused
		a.mu.Lock()
		defer a.mu.Unlock()
		if n2.Sign() > 0 && !a.sthSizes[n2.Uint64()] || (ep == "get-sth-consistency" && v1.n.Sign() > 0 && !a.sthSizes[v1.n.Uint64()]) {
			return 0
		}
		return 1
	}
	q.valid = set()
	if ep == "get-proof-by-hash" && q.valid == 1 {
		a.mu.Lock()
		if !a.sthSizes[v2.n.Uint64()] {
			q.valid = 0
		}
		a.mu.Unlock()
	}
	return q
}

// genHash makes a hash parameter. leaf is the entry's index, -1 for a hash that is no leaf, -2 for malformed ones.
func genHash(rng *rand.Rand, w *World) (h Hash, leaf int64, text, kind string) {
	size := w.Aud.Size()
	rng.Read(h[:])
	leaf = -1
	kind = "unknown hash"
	if size > 0 && rng.Intn(2) == 0 {
		leaf = rng.Int63n(int64(size))
		h = w.Aud.LeafHash(uint64(leaf))
		kind = "leaf"
	}
	text = b64(h[:])
	mal := func(s, k string) { text, leaf, kind = s, -2, k }
	switch rng.Intn(18) {
	case 10:
		mal(strings.TrimRight(text, "="), "without padding")
	case 11, 12:
		if u := strings.NewReplacer("+", "-", "/", "_").Replace(text); u != text {
			mal(u, "other base64 alphabet")
		}
	case 13:
		if u := strings.ReplaceAll(text, "+", " "); u != text {
			mal(u, "blanks for plus")
		}
	case 0:
		mal(b64(h[:31]), "31 bytes")
	case 1:
		mal(b64(append(h[:], 0)), "33 bytes")
	case 2:
		mal("", "empty")
	case 3:
		mal(b64(h[:16]), "16 bytes")
	case 4:
		mal("!"+text[1:], "bad base64")
	case 5:
		mal(text[:20]+"%"+text[21:], "bad base64")
	case 6:
		mal(fmt.Sprintf("%x", h[:]), "hex")
	case 7:
		mal(text+text, "two")
	case 8:
		mal(b64(h[:15]), "15 bytes")
	case 9:
		mal(strings.Repeat("A", 100000), "long")
	}
	return
}

func urlq(rng *rand.Rand, s string) string {
	const hex = "0123456789ABCDEF"
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		plain := c >= '0' && c <= '9' || c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || c == '-'
		if plain && rng.Intn(20) > 0 {
			b.WriteByte(c)
		} else {
			b.WriteByte('%')
			b.WriteByte(hex[c>>4])
			b.WriteByte(hex[c&15])
		}
	}
	return b.String()
}

func runC09(t *T) {
	scope := cats("query-panic", "query-served", "query-refused", "query-wrong", "query-late", "query-incomplete")
	bad := func(w *World, cat, f string, args ...any) {
		t.report(scope, Finding{Cat: cat, Msg: fmt.Sprintf(f, args...)}, w)
	}
	judge := func(w *World, q query, r *Resp, storage string) {
		show := q.target
		if len(show) > 300 {
			show = show[:300] + "..."
		}
		switch {
		case r.Panic != "":
			bad(w, "query-panic", "size %d, storage %s: GET %s panics: %s", w.Aud.Size(), storage, show, r.Panic)
		case r.Hung:
			bad(w, "query-late", "size %d, storage %s: GET %s gets no answer in 60 s", w.Aud.Size(), storage, show)
		case storage == "garbage":
		case q.valid < 0 && r.Code < 400:
			bad(w, "query-served", "size %d, storage %s: invalid GET %s is answered with %v", w.Aud.Size(), storage, show, r)
		case q.valid < 0 && storage == "ok" && r.Code >= 500:
			bad(w, "query-served", "size %d: invalid GET %s is answered with a server error: %v", w.Aud.Size(), show, r)
		case q.valid > 0 && storage == "ok" && r.Code != 200:
			bad(w, "query-refused", "size %d: valid GET %s is answered with %v", w.Aud.Size(), show, r)
		case r.Code < 200 || r.Code > 599:
			bad(w, "query-incomplete", "size %d: GET %s is answered with %v", w.Aud.Size(), show, r)
		case r.Code == 200 && q.judge != nil:
			if err := q.judge(r); err != nil {
				bad(w, "query-wrong", "size %d, storage %s: GET %s is answered with success but %v: %v", w.Aud.Size(), storage, show, err, r)
			}
		case r.Code != 200 && r.Code < 400:
			bad(w, "query-wrong", "size %d, storage %s: GET %s is answered with %v", w.Aud.Size(), storage, show, r)
		}
		t.Eval(q.class + "/" + storage)
	}
	var jobs []func()
	for si, n := range []uint64{0, 1, 2, 255, 256, 257, 513, 1025, 1300, 4096} {
		for _, fs := range []bool{false, true} {
			jobs = append(jobs, func() {
				rng := t.Rand(fmt.Sprint("fuzz", n, fs))
				w := NewWorld(WorldOpt{Mask: []int{1, 2, 5, 32}[si%4], FS: fs})
				defer w.Close()
				if n > 0 {
					w.Prefill(rng, n)
				}
				mon, gw := w.Monitor()
				m := &MonClient{H: mon}
				sane := func(when string) {
					for k := 0; k < 3 && n > 0; k++ {
						i := uint64(rng.Int63n(int64(n)))
						if err := m.CheckProofByHash(w, i, n); err != nil {
							bad(w, "query-refused", "size %d, %s: proof of entry %d: %v", n, when, i, err)
						}
						if err := m.CheckEntries(w, i, i+3, n); err != nil {
							bad(w, "query-refused", "size %d, %s: entries from %d: %v", n, when, i, err)
						}
						if err := m.CheckEntryAndProof(w, i, n); err != nil {
							bad(w, "query-refused", "size %d, %s: entry %d: %v", n, when, i, err)
						}
					}
					if _, err := m.STH(w); err != nil {
						bad(w, "query-refused", "size %d, %s: get-sth: %v", n, when, err)
					}
				}
				for k := 0; k < t.N(700, 8000); k++ {
					q := genQuery(rng, w, m)
					r := m.get(q.target)
					judge(w, q, r, "ok")
					if k < 2 {
						t.Sample(map[string]any{"log size": n, "request": fmt.Sprintf("%.200s", q.target), "class": q.class, "must": q.valid, "answer": r.Code})
					}
				}
				sane("after hostile queries")
				// methods and paths
				for _, x := range [][2]string{{"POST", "/ct/v1/get-sth"}, {"PUT", "/ct/v1/get-entries?start=0&end=1"}, {"DELETE", "/ct/v1/get-roots"}, {"GET", "/"}, {"GET", "/ct/v1/get-sth/x"}, {"GET", "/ct/v2/get-sth"}, {"GET", "/tile/0/000"}, {"GET", "//ct/v1/get-sth/../../x"}, {"PATCH", "/ct/v1/get-proof-by-hash"}, {"GET", "/ct/v1/add-chain"}, {"GET", "/ct/v1/%2e%2e/%2e%2e/etc/passwd"}} {
					r := call(mon, x[0], x[1], bytes.Repeat([]byte("x"), 1000), 60*time.Second)
					if r.Panic != "" {
						bad(w, "query-panic", "%s %s: %v", x[0], x[1], r)
					} else if r.Hung || r.Code < 300 {
						bad(w, "query-served", "%s %s: %v", x[0], x[1], r)
					}
					t.Eval("other/" + x[0] + " " + x[1])
				}
				if fs {
					faultyFS(t, w, m, rng, judge)
					sane("after the files came back")
					return
				}
				// storage that fails
				for _, mode := range []string{"all 500", "all 403", "all 404", "some 500", "some truncated", "all truncated", "slow", "tiles 404", "tiles 500", "index 500", "issuers 500", "issuers 404", "gone"} {
					var mu sync.Mutex
					frng := rand.New(rand.NewSource(rng.Int63()))
					hit := false // a storage request of the current query failed
					gw.SetPolicy(func(op *Op) Action {
						mu.Lock()
						defer mu.Unlock()
						k := opKind(op.Key)
						a := Action{}
						switch mode {
						case "all 500":
							a.Status = 500
						case "all 403":
							a.Status = 403
						case "all 404":
							a.Status = 404
						case "some 500":
							if frng.Intn(4) == 0 {
								a.Status = []int{500, 503, 429, 302, 206 + 97, 400}[frng.Intn(6)]
							}
						case "some truncated":
							a.Trunc = frng.Intn(4) == 0
						case "all truncated":
							a.Trunc = true
						case "slow":
							return Action{Delay: time.Duration(frng.Intn(3)) * time.Millisecond}
						case "tiles 404":
							if strings.HasPrefix(op.Key, "tile/") {
								a.Status = 404
							}
						case "tiles 500":
							if strings.HasPrefix(op.Key, "tile/") {
								a.Status = 500
							}
						case "index 500":
							if k == "hash index" {
								a.Status = 500
							}
						case "issuers 500":
							if k == "issuer" {
								a.Status = 500
							}
						case "issuers 404":
							if k == "issuer" {
								a.Status = 404
							}
						}
						if a.Status != 0 || a.Trunc {
							hit = true
						}
						return a
					})
					if mode == "gone" {
						env.S3.mu.Lock()
						delete(env.S3.gws, gw.Name)
						env.S3.mu.Unlock()
					}
					served := 0
					for k := 0; k < t.N(25, 150); k++ {
						q := genQuery(rng, w, m)
						switch rng.Intn(6) {
						case 0:
							q = query{target: "/ct/v1/get-sth", class: "get-sth", judge: func(r *Resp) error { _, err := verifySTH(r.Body, &w.Key.PublicKey); return err }}
						case 1:
							q = query{target: "/ct/v1/get-roots", class: "get-roots", judge: func(r *Resp) error {
								if !bytes.Equal(r.Body, w.PKI.RootsJSON()) {
									return fmt.Errorf("not the roots")
								}
								return nil
							}}
						}
						mu.Lock()
						hit = false
						mu.Unlock()
						r := m.get(q.target)
						if mode == "slow" {
							judge(w, q, r, "ok")
							continue
						}
						judge(w, q, r, mode)
						mu.Lock()
						h := hit || mode == "gone"
						mu.Unlock()
						if h && (mode == "all 500" || mode == "all 403" || mode == "all 404" || mode == "gone") && r.Code < 400 {
							bad(w, "query-served", "size %d: GET %.200s succeeds although storage fails (%s): %v", n, q.target, mode, r)
						}
						if h {
							t.Count("queries that met a storage failure", 1)
						}
						if r.Code == 200 {
							served++
						}
					}
					gw.SetPolicy(nil)
					env.S3.mu.Lock()
					env.S3.gws[gw.Name] = gw
					env.S3.mu.Unlock()
					sane("after storage failure " + mode)
				}
				// corrupt objects: answers are not judged, but there must be one (a corrupt tree head beyond 2^62 makes
				// the tlog library loop: no log gets there, so it is not asked)
				for k := 0; k < t.N(250, 2000); k++ {
					keys := w.Store.Keys("")
					key := keys[rng.Intn(len(keys))]
					if rng.Intn(3) == 0 {
						key = "ct/v1/get-sth"
					}
					old, _ := w.Store.Get(key)
					d := append([]byte{}, old...)
					switch rng.Intn(8) {
					case 0:
						d = d[:rng.Intn(len(d)+1)]
					case 1:
						d = append(d, byte(rng.Intn(256)))
					case 2:
						for j := 0; j < 1+rng.Intn(8) && len(d) > 0; j++ {
							d[rng.Intn(len(d))] ^= byte(1 << rng.Intn(8))
						}
					case 3:
						d = nil
					case 4:
						d = make([]byte, rng.Intn(3000))
						rng.Read(d)
					case 5:
						d = append(append([]byte{}, d...), d...)
					case 6:
						d = bytes.Repeat([]byte{0xff}, len(d))
					case 7:
						if key == "ct/v1/get-sth" {
							v := []string{`null`, `[]`, `{}`, `{"tree_size":-1}`, `{"tree_size":18446744073709551615}`, `{"tree_size":1099511627776}`, `{"tree_size":"x"}`, `{"tree_size":9223372036854775808}`, `""`}
							d = []byte(v[rng.Intn(len(v))])
						}
					}
					w.Store.Set(key, d)
					for j := 0; j < 8; j++ {
						q := genQuery(rng, w, m)
						if key == "ct/v1/get-sth" && rng.Intn(2) == 0 {
							q.target = []string{"/ct/v1/get-entries?start=5&end=9000000000000000000", "/ct/v1/get-entries?start=9223372036854775800&end=9223372036854775807", "/ct/v1/get-sth-consistency?first=1&second=1099511627775", "/ct/v1/get-entry-and-proof?leaf_index=1099511627774&tree_size=1099511627775", "/ct/v1/get-entries?start=0&end=3"}[rng.Intn(5)]
						}
						judge(w, q, m.get(q.target), "garbage")
					}
					w.Store.Set(key, old)
				}
				sane("after corruption was repaired")
			})
		}
	}
	// through a real connection: every request gets one complete HTTP response, also pipelined
	jobs = append(jobs, func() {
		rng := t.Rand("wire")
		w := NewWorld(WorldOpt{Mask: 2})
		defer w.Close()
		w.Prefill(rng, 700)
		mon, _ := w.Monitor()
		m := &MonClient{H: mon}
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		srv := &http.Server{Handler: mon}
		go srv.Serve(ln)
		defer srv.Close()
		for k := 0; k < t.N(60, 400); k++ {
			c, err := net.Dial("tcp", ln.Addr().String())
			must(err)
			c.SetDeadline(time.Now().Add(60 * time.Second))
			var qs []query
			var out bytes.Buffer
			for j := 0; j < 1+rng.Intn(5); j++ {
				q := genQuery(rng, w, m)
				if strings.ContainsAny(q.target, " \n") {
					continue
				}
				qs = append(qs, q)
				fmt.Fprintf(&out, "GET %s HTTP/1.1\r\nHost: x\r\n\r\n", q.target)
			}
			go c.Write(out.Bytes())
			br := bufio.NewReader(c)
			for j, q := range qs {
				resp, err := http.ReadResponse(br, nil)
				if err != nil {
					bad(w, "query-incomplete", "request %d of %d on a connection, GET %.200s: %v", j+1, len(qs), q.target, err)
					break
				}
				body, err := io.ReadAll(resp.Body)
				if err != nil {
					bad(w, "query-incomplete", "GET %.200s: incomplete body: %v", q.target, err)
					break
				}
				judge(w, q, &Resp{Code: resp.StatusCode, Body: body}, "ok")
				t.Count("answers over a connection", 1)
			}
			c.Close()
		}
	})
	// the complete server in a process that may not hold many files open: whatever was asked before, it goes on serving
	for _, fs := range []bool{false, true} {
		jobs = append([]func(){func() { c09process(t, fs, judge) }}, jobs...)
	}
	// storage that takes requests and never answers them
	jobs = append([]func(){func() { c09stalled(t, judge) }}, jobs...)
	t.Parallel(len(jobs), 8, func(i int) { jobs[i]() })
	if t.Get("queries that met a storage failure") < 100 && !t.Failed() {
		t.Inconclusive("too few storage failures")
	}
}

// c09process asks the real server process, which has a limit on open files.
func c09process(t *T, fs bool, judge func(w *World, q query, r *Resp, storage string)) {
	rng := t.Rand(fmt.Sprint("process", fs))
	w := NewWorld(WorldOpt{Mask: 5, FS: fs})
	defer w.Close()
	w.Prefill(rng, 600)
	af := filepath.Join(env.Dir, w.Name+".addr")
	self, err := os.Executable()
	must(err)
	args := []string{"c09mon", af, fmt.Sprint(w.Opt.Mask), w.FSDir, ""}
	var gw *Gateway
	if !fs {
		gw = env.S3.Gateway(w.Store, w.Name+"-mon")
		args[4] = env.S3.URL + "/" + gw.Name + "/"
	}
	cmd := exec.Command(self, args...)
	must(cmd.Start())
	exited := make(chan struct{})
	go func() { cmd.Wait(); close(exited) }()
	defer func() {
		cmd.Process.Kill()
		<-exited
	}()
	var addr []byte
	for k := 0; k < 2000 && len(addr) == 0; k++ {
		time.Sleep(5 * time.Millisecond)
		addr, _ = os.ReadFile(af)
	}
	if len(addr) == 0 {
		t.Inconclusive("the monitor process does not start")
		return
	}
	client := &http.Client{Timeout: 60 * time.Second, Transport: &http.Transport{MaxConnsPerHost: 4, MaxIdleConnsPerHost: 4}}
	ask := func(q query) *Resp {
		r, err := client.Get("http://" + string(addr) + q.target)
		if err != nil {
			if _, perr := url.Parse("http://x" + q.target); perr != nil {
				return nil
			}
			select {
			case <-exited:
				return &Resp{Panic: "the server process ended"}
			case <-time.After(100 * time.Millisecond):
			}
			return &Resp{Hung: true}
		}
		defer r.Body.Close()
		b, err := io.ReadAll(r.Body)
		if err != nil {
			return &Resp{Hung: true}
		}
		return &Resp{Code: r.StatusCode, Body: b, Header: r.Header}
	}
	mc := &MonClient{}
	for phase := 0; phase < t.N(4, 12); phase++ {
		state := "ok"
		if phase%2 == 1 {
			state = "failing"
			if fs {
				os.Rename(filepath.Join(w.FSDir, "tile"), filepath.Join(w.FSDir, "elit"))
			} else {
				gw.SetPolicy(func(op *Op) Action {
					if opKind(op.Key) != "sth" {
						return Action{Status: []int{500, 404, 403}[len(op.Key)%3]}
					}
					return Action{}
				})
			}
		}
		var wg sync.WaitGroup
		for c := 0; c < 4; c++ {
			r := rand.New(rand.NewSource(rng.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < t.N(120, 500) && !t.Failed(); k++ {
					q := genQuery(r, w, mc)
					if k%3 == 0 {
						h := make([]byte, 32)
						r.Read(h)
						q = query{target: "/ct/v1/get-proof-by-hash?tree_size=600&hash=" + url.QueryEscape(base64.StdEncoding.EncodeToString(h)), class: "get-proof-by-hash/unknown hash", valid: -1}
					}
					if strings.ContainsAny(q.target, " \n#") {
						continue
					}
					if resp := ask(q); resp != nil {
						judge(w, q, resp, state)
						t.Count("queries to a server process", 1)
					}
				}
			}()
		}
		wg.Wait()
		if fs {
			os.Rename(filepath.Join(w.FSDir, "elit"), filepath.Join(w.FSDir, "tile"))
		} else {
			gw.SetPolicy(nil)
		}
	}
}

// c09stalled has the storage take requests without ever answering.
func c09stalled(t *T, judge func(w *World, q query, r *Resp, storage string)) {
	rng := t.Rand("stalled")
	w := NewWorld(WorldOpt{Mask: 5})
	defer w.Close()
	w.Prefill(rng, 600)
	mon, gw := w.Monitor()
	m := &MonClient{H: mon}
	for _, what := range []string{"everything", "tile/", "issuer/", "int/"} {
		release := make(chan struct{})
		gw.SetPolicy(func(op *Op) Action {
			if what == "everything" || strings.HasPrefix(op.Key, what) {
				return Action{Wait: release}
			}
			return Action{}
		})
		var wg sync.WaitGroup
		for k := 0; k < 6; k++ {
			q := genQuery(rng, w, m)
			for q.valid <= 0 {
				q = genQuery(rng, w, m)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := call(mon, "GET", q.target, nil, 60*time.Second)
				if what == "everything" && r.Code == 200 {
					r.Panic = "success without storage"
				}
				judge(w, q, r, "stalled: "+what)
			}()
		}
		wg.Wait()
		close(release)
		gw.SetPolicy(nil)
		for k := 0; k < 10; k++ {
			q := genQuery(rng, w, m)
			judge(w, q, m.get(q.target), "ok")
		}
		if !t.Thorough {
			break
		}
	}
}

// faultyFS removes files, or puts directories in their place, and asks.
func faultyFS(t *T, w *World, m *MonClient, rng *rand.Rand, judge func(w *World, q query, r *Resp, storage string)) {
	var files []string
	filepath.Walk(w.FSDir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			files = append(files, p)
		}
		return nil
	})
	for k := 0; k < t.N(30, 200); k++ {
		p := files[rng.Intn(len(files))]
		if k%3 == 0 {
			p = filepath.Join(w.FSDir, "ct/v1/get-sth")
		}
		bak := p + ".verif-away"
		must(os.Rename(p, bak))
		mode := "file missing"
		if k%2 == 0 {
			mode = "directory instead of a file"
			must(os.Mkdir(p, 0755))
		}
		for j := 0; j < 8; j++ {
			q := genQuery(rng, w, m)
			r := m.get(q.target)
			judge(w, q, r, mode)
			if strings.HasSuffix(p, "get-sth") && r.Code < 400 {
				t.Violate("query-served", "GET %.200s succeeds although the tree head cannot be read (%s): %v", q.target, mode, r)
			}
		}
		t.Count("files made unreadable", 1)
		if k%2 == 0 {
			must(os.Remove(p))
		}
		must(os.Rename(bak, p))
	}
}

var _ = json.Marshal
