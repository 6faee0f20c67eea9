package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"itko.dev/internal/ctsubmit"
)

// The system calls of one write, seen one at a time: a seccomp filter hands the file system calls of the thread that
// writes to a supervisor in the same process. It looks at the object before each of them, which is what a reader, or a
// restart after a crash at that point, would see, and lets single calls fail.

func init() { helpers["c14sys"] = c14sys }

var fileCalls = map[int32]string{
	1: "write", 18: "pwrite", 20: "writev", 3: "close", 257: "openat", 2: "open", 85: "creat", 76: "truncate", 77: "ftruncate",
	82: "rename", 264: "rename", 316: "rename", 86: "link", 265: "link", 88: "symlink", 266: "symlink", 87: "unlink", 263: "unlink",
	90: "chmod", 91: "chmod", 268: "chmod", 452: "chmod", 74: "fsync", 75: "fsync", 285: "fallocate", 326: "copy_file_range", 40: "sendfile",
	83: "mkdir", 258: "mkdir", 84: "rmdir", 437: "openat",
}

// filterThread installs the filter on the calling thread and returns the descriptor for its notifications.
func filterThread() (int, error) {
	type ins struct {
		code   uint16
		jt, jf uint8
		k      uint32
	}
	const ld, jeq, jgt, ret = 0x20, 0x15, 0x25, 0x06
	const allow, notify = 0x7fff0000, 0x7fc00000
	p := []ins{{ld, 0, 0, 4}, {jeq, 1, 0, 0xc000003e}, {ret, 0, 0, allow}, {ld, 0, 0, 0}}
	for nr, name := range fileCalls {
		switch name {
		case "write":
			// not to the standard streams
			p = append(p, ins{jeq, 0, 4, uint32(nr)}, ins{ld, 0, 0, 16}, ins{jgt, 1, 0, 2}, ins{ret, 0, 0, allow}, ins{ret, 0, 0, notify})
		default:
			p = append(p, ins{jeq, 0, 1, uint32(nr)}, ins{ret, 0, 0, notify})
		}
	}
	p = append(p, ins{ret, 0, 0, allow})
	prog := struct {
		n uint16
		p *ins
	}{uint16(len(p)), &p[0]}
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRCTL, 38, 1, 0, 0, 0, 0); e != 0 {
		return 0, e
	}
	fd, _, e := syscall.RawSyscall(317, 1, 8, uintptr(unsafe.Pointer(&prog)))
	runtime.KeepAlive(p)
	if e != 0 {
		return 0, e
	}
	return int(fd), nil
}

type sysPlan struct {
	at     int // which call fails, from 1; 0: none
	errno  syscall.Errno
	always bool // later calls of the same kind fail as well
}

type sysRun struct {
	calls []string
	err   error
	fell  string // the call that failed
	seen  []string
	bad   string
}

// supervised runs set on a filtered thread. look is asked what the object is before every call: "old", "new" or what is wrong.
func supervised(set func() error, plan sysPlan, look func() string) (*sysRun, error) {
	r := &sysRun{}
	fds := make(chan int, 1)
	fail := make(chan error, 1)
	done := make(chan error, 1)
	var over atomic.Bool
	go func() {
		runtime.LockOSThread() // and never unlocked: the thread ends with the goroutine
		fd, err := filterThread()
		if err != nil {
			fail <- err
			return
		}
		fds <- fd
		err = set()
		over.Store(true)
		done <- err
	}()
	var fd int
	select {
	case err := <-fail:
		return nil, err
	case fd = <-fds:
	}
	sup := make(chan struct{})
	go func() {
		defer close(sup)
		for {
			pfd := struct {
				fd      int32
				ev, rev int16
			}{int32(fd), 1, 0}
			n, _, _ := syscall.Syscall(syscall.SYS_POLL, uintptr(unsafe.Pointer(&pfd)), 1, 20)
			if int(n) <= 0 || pfd.rev&1 == 0 {
				if over.Load() {
					return
				}
				continue
			}
			var buf [80]byte
			if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), 0xc0502100, uintptr(unsafe.Pointer(&buf))); e != 0 {
				continue
			}
			id := binary.LittleEndian.Uint64(buf[:])
			nr := int32(binary.LittleEndian.Uint32(buf[16:]))
			var resp [24]byte
			binary.LittleEndian.PutUint64(resp[:], id)
			binary.LittleEndian.PutUint32(resp[20:], 1) // continue
			if !over.Load() {
				name := fileCalls[nr]
				r.calls = append(r.calls, name)
				s := look()
				r.seen = append(r.seen, s)
				if s != "old" && s != "new" && r.bad == "" {
					r.bad = fmt.Sprintf("before its system call %d (%s), %s", len(r.calls), strings.Join(r.calls, ", "), s)
				}
				if len(r.calls) == plan.at || plan.always && r.fell == name {
					r.fell = name
					binary.LittleEndian.PutUint32(resp[16:], uint32(-int32(plan.errno)))
					binary.LittleEndian.PutUint32(resp[20:], 0)
				}
			}
			syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), 0xc0182101, uintptr(unsafe.Pointer(&resp)))
		}
	}()
	select {
	case r.err = <-done:
	case <-time.After(60 * time.Second):
		return nil, errors.New("the write hangs")
	}
	<-sup
	syscall.Close(fd)
	return r, nil
}

// c14sys DIR SEED ROUNDS: prints one line per write, BAD lines for violations.
func c14sys(args []string) {
	dir := args[0]
	seed, _ := strconv.ParseInt(args[1], 10, 64)
	rounds, _ := strconv.Atoi(args[2])
	rng := rand.New(rand.NewSource(seed))
	st := ctsubmit.NewFsStorage(dir)
	ctx := context.Background()
	one := func(i int, exists, below bool, nOld, nNew int, plan sysPlan) *sysRun {
		k := fmt.Sprintf("o%d", i)
		if below {
			k = fmt.Sprintf("d%d/x%03d/o", i, i%7)
		}
		old, nw := version(k, 1, nOld), version(k, 2, nNew)
		if exists {
			if err := st.Set(ctx, k, old); err != nil {
				fmt.Printf("BAD writing %s: %v\n", k, err)
				os.Exit(0)
			}
		}
		look := func() string {
			got, err := os.ReadFile(filepath.Join(dir, k))
			switch {
			case os.IsNotExist(err):
				if exists {
					return "the object is gone"
				}
				return "old"
			case err != nil:
				return "the object cannot be read: " + err.Error()
			case bytes.Equal(got, nw):
				return "new"
			case exists && bytes.Equal(got, old):
				return "old"
			}
			return fmt.Sprintf("the object has %d bytes that are neither the previous %d nor the new %d", len(got), nOld, nNew)
		}
		r, err := supervised(func() error { return st.Set(ctx, k, nw) }, plan, look)
		if err != nil {
			fmt.Printf("NONE %v\n", err)
			os.Exit(0)
		}
		what := "no call failing"
		if r.fell != "" {
			what = fmt.Sprintf("call %d (%s) failing with %v, always %v", plan.at, r.fell, plan.errno, plan.always)
		}
		end := look()
		// new may only stay visible after a failure if it was published before that
		late := false
		for j, s := range r.seen {
			late = late || s == "new" && (plan.at == 0 || j < plan.at)
			if j > 0 && r.seen[j-1] == "new" && s == "old" {
				r.bad = "the object goes back to the previous version"
			}
		}
		switch {
		case r.bad != "":
			fmt.Printf("BAD a write of %d bytes, %s: %s\n", nNew, what, r.bad)
		case end != "old" && end != "new":
			fmt.Printf("BAD after a write of %d bytes, %s: %s\n", nNew, what, end)
		case r.err == nil && end != "new":
			fmt.Printf("BAD a write of %d bytes, %s, reports success, but the object is not there\n", nNew, what)
		case r.err != nil && end == "new" && !late:
			fmt.Printf("BAD a write of %d bytes, %s, reports %v, but the previous object is not in place\n", nNew, what, r.err)
		case r.err != nil && r.fell == "":
			fmt.Printf("BAD a write of %d bytes, %s, fails: %v\n", nNew, what, r.err)
		default:
			f := r.fell
			if f == "" {
				f = "none"
			}
			fmt.Printf("S %d %s/exists %v/new directory %v/always %v/%s\n", len(r.calls), f, exists, below && !exists, plan.always, end)
			// writing works again
			if err := st.Set(ctx, k, nw); err != nil {
				fmt.Printf("BAD after a failed write (%s), writing fails: %v\n", what, err)
			} else if s := look(); s != "new" {
				fmt.Printf("BAD after a failed and a repeated write (%s): %s\n", what, s)
			}
		}
		return r
	}
	n := 0
	for round := 0; round < rounds; round++ {
		exists, below := round%4 != 3, round%2 == 1
		nOld, nNew := 64+rng.Intn(9000), 64+rng.Intn(9000)
		if rng.Intn(3) == 0 {
			nNew = 100000 + rng.Intn(3000000)
		}
		n++
		r := one(n, exists, below, nOld, nNew, sysPlan{})
		if r.bad != "" {
			continue
		}
		for at := 1; at <= len(r.calls); at++ {
			for _, always := range []bool{false, true} {
				n++
				e := []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EACCES, syscall.EXDEV, syscall.EPERM, syscall.EMFILE, syscall.EROFS, syscall.EDQUOT, syscall.ENOENT, syscall.EEXIST}[rng.Intn(8)]
				one(n, exists, below, nOld, nNew, sysPlan{at, e, always})
			}
		}
	}
	fmt.Println("OK")
}

func c14syscalls(t *T, dir string) {
	if runtime.GOARCH != "amd64" {
		return
	}
	t.Parallel(t.N(4, 40), 4, func(i int) {
		d := fmt.Sprintf("%s%d", dir, i)
		must(os.MkdirAll(d, 0755))
		defer os.RemoveAll(d)
		cmd := helperCmd("c14sys", d, fmt.Sprint(t.Seed*1000+int64(i)), fmt.Sprint(t.N(8, 24)))
		cmd.Env = append(os.Environ(), "GODEBUG=asyncpreemptoff=1")
		out, err := cmd.CombinedOutput()
		s := strings.TrimSpace(string(out))
		for _, l := range strings.Split(s, "\n") {
			switch {
			case strings.HasPrefix(l, "S "):
				f := strings.SplitN(l, " ", 3)
				k, _ := strconv.Atoi(f[1])
				t.Eval("system call fails/" + f[2])
				t.Count("writes followed call by call", 1)
				t.Count("objects looked at between system calls of a write", int64(k))
			case strings.HasPrefix(l, "BAD "):
				t.Violate("failed-write", "%s", l[4:])
			case strings.HasPrefix(l, "NONE "):
				t.Count("no supervision of system calls: "+l[5:], 1)
			}
		}
		if (err != nil || !strings.HasSuffix(s, "OK")) && !strings.Contains(s, "NONE ") {
			t.Inconclusive("supervised writes: %v, %s", err, tailStr(s, 500))
		}
	})
}
