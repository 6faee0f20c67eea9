package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/signal"
	"syscall"

	"itko.dev/internal/ctsubmit"
)

// A write that fails half way must leave the previous object in place.
func main() {
	dir, err := os.MkdirTemp("", "demo-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	s := ctsubmit.NewFsStorage(dir)
	ctx := context.Background()
	old := bytes.Repeat([]byte("old"), 100)
	if err := s.Set(ctx, "a/b", old); err != nil {
		panic(err)
	}
	signal.Ignore(syscall.SIGXFSZ)
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 1000, Max: 1000}); err != nil {
		panic(err)
	}
	if err := s.Set(ctx, "a/b", bytes.Repeat([]byte("new"), 1000)); err == nil {
		fmt.Println("DEMO: a write that cannot succeed is reported as successful")
		os.Exit(1)
	}
	got, err := s.Get(ctx, "a/b")
	if err != nil || !bytes.Equal(got, old) {
		fmt.Printf("DEMO: after a failed write the object has %d bytes (error %v) instead of the previous %d\n", len(got), err, len(old))
		os.Exit(1)
	}
}
