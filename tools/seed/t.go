package main

import (
	"fmt"
	mrand "math/rand"
	"net/url"
	"os"
	"sync"
)

// T collects what a demonstration finds wrong.
type T struct {
	mu  sync.Mutex
	bad int
}

func (t *T) fail(f string, a ...any) {
	t.mu.Lock()
	t.bad++
	t.mu.Unlock()
	fmt.Printf("DEMO: "+f+"\n", a...)
}
func (t *T) report(cats map[string]bool, f Finding, w *World)          { t.fail("%s", f.String()) }
func (t *T) ViolateW(sig string, witness []string, f string, a ...any) { t.fail(f, a...) }
func (t *T) Count(string, int64)                                       {}
func (t *T) Eval(string)                                               {}

func cats(names ...string) map[string]bool { return nil }

func esc(b []byte) string { return url.QueryEscape(b64(b)) }

func newRand(n int64) *mrand.Rand { return mrand.New(mrand.NewSource(n)) }

// main runs the demonstration in a scratch directory.
func main() {
	dir, err := os.MkdirTemp("", "demo-")
	must(err)
	initEnv(dir)
	t := &T{}
	demo(t)
	os.RemoveAll(dir)
	if t.bad > 0 {
		fmt.Printf("the property is broken (%d observations)\n", t.bad)
		os.Exit(1)
	}
	fmt.Println("the property holds")
}
