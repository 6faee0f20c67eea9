package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"itko.dev/internal/ctsubmit"
)

func init() {
	checks["C14"] = Check{
		Level: "fault_enumeration",
		Rule: "one evaluation = one object read (by a reader in this or another process, after a kill, or after a failed write) and compared with the complete versions it may have, or one write made to fail; " +
			"distinct = (kind of reader or fault, object size class, which version was seen relative to the write under way) combinations",
		Run: runC14,
	}
	helpers["c14reader"] = c14reader
	helpers["c14writer"] = c14writer
	helpers["c14fail"] = c14fail
	helpers["c14inst"] = func(args []string) {
		signal.Ignore(syscall.SIGXFSZ)
		if n, _ := strconv.ParseUint(args[3], 10, 64); n > 0 {
			must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: n}))
		}
		helpers["c12inst"](args)
	}
}

// version makes the self-describing contents of version v of an object.
func version(key string, v uint64, size int) []byte {
	if size < 64 {
		size = 64
	}
	b := make([]byte, size)
	binary.BigEndian.PutUint64(b, v)
	binary.BigEndian.PutUint64(b[8:], uint64(size))
	h := sha256.Sum256([]byte(key))
	copy(b[16:32], h[:16])
	x := v*0x9e3779b97f4a7c15 + 1
	for i := 64; i+8 <= size; i += 8 {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		binary.LittleEndian.PutUint64(b[i:], x)
	}
	s := sha256.Sum256(append(bytes.Clone(b[:32]), b[64:]...))
	copy(b[32:64], s[:])
	return b
}

func readVersion(key string, b []byte) (uint64, error) {
	if len(b) < 64 {
		return 0, fmt.Errorf("object has only %d bytes", len(b))
	}
	v, n := binary.BigEndian.Uint64(b), binary.BigEndian.Uint64(b[8:])
	if n != uint64(len(b)) {
		return 0, fmt.Errorf("version %d of the object should have %d bytes, but there are %d", v, n, len(b))
	}
	h := sha256.Sum256([]byte(key))
	if !bytes.Equal(h[:16], b[16:32]) {
		return 0, fmt.Errorf("contents of another object")
	}
	s := sha256.Sum256(append(bytes.Clone(b[:32]), b[64:]...))
	if !bytes.Equal(s[:], b[32:64]) {
		return 0, fmt.Errorf("mixed contents (claims version %d)", v)
	}
	return v, nil
}

func byteClass(n int) string {
	switch {
	case n < 4096:
		return "<4K"
	case n < 65536:
		return "<64K"
	case n < 1<<20:
		return "<1M"
	}
	return ">=1M"
}

// c14reader reads objects of a directory in a process of its own and reports what is wrong, until its input ends.
func c14reader(args []string) {
	dir, keys := args[0], args[1:]
	var stop atomic.Bool
	go func() {
		io.Copy(io.Discard, os.Stdin)
		stop.Store(true)
	}()
	last := map[string]uint64{}
	n := 0
	for !stop.Load() {
		for _, k := range keys {
			b, err := os.ReadFile(dir + "/" + k)
			if err != nil {
				fmt.Println("BAD", k, err)
				os.Exit(0)
			}
			v, err := readVersion(k, b)
			if err == nil && v < last[k] {
				err = fmt.Errorf("version %d after version %d", v, last[k])
			}
			if err != nil {
				fmt.Println("BAD", k, err)
				os.Exit(0)
			}
			last[k] = v
			n++
		}
	}
	fmt.Println("OK", n)
}

// c14writer writes versions one after the other, telling its output before and after every write.
func c14writer(args []string) {
	st := ctsubmit.NewFsStorage(args[0])
	seed, _ := strconv.ParseInt(args[1], 10, 64)
	from, _ := strconv.ParseUint(args[2], 10, 64)
	keys := args[3:]
	rng := rand.New(rand.NewSource(seed))
	for v := from; ; v++ {
		k := keys[int(v)%len(keys)]
		d := version(k, v, c14size(rng))
		fmt.Printf("begin %d\n", v)
		if err := st.Set(context.Background(), k, d); err != nil {
			fmt.Printf("error %d %v\n", v, err)
			os.Exit(0)
		}
		fmt.Printf("done %d\n", v)
	}
}

func c14size(rng *rand.Rand) int {
	switch rng.Intn(5) {
	case 0:
		return 64 + rng.Intn(200)
	case 1:
		return 4096 + rng.Intn(20000)
	case 2:
		return 65536 + rng.Intn(1<<18)
	default:
		return 1<<20 + rng.Intn(3<<20)
	}
}

// c14fail makes writes fail part-way with a limit on the size of files.
func c14fail(args []string) {
	signal.Ignore(syscall.SIGXFSZ)
	dir := args[0]
	seed, _ := strconv.ParseInt(args[1], 10, 64)
	rounds, _ := strconv.Atoi(args[2])
	rng := rand.New(rand.NewSource(seed))
	st := ctsubmit.NewFsStorage(dir)
	ctx := context.Background()
	var full syscall.Rlimit
	must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &full))
	limit := func(n uint64) {
		must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: full.Max}))
	}
	bad := func(f string, a ...any) {
		limit(full.Cur)
		fmt.Printf("BAD "+f+"\n", a...)
		os.Exit(0)
	}
	for i := 0; i < rounds; i++ {
		k := fmt.Sprintf("f/%d/x%03d/%d", i%7, i%11, i)
		exists := rng.Intn(4) > 0
		old := version(k, 1, 64+rng.Intn(9000))
		if exists {
			if err := st.Set(ctx, k, old); err != nil {
				bad("writing %s: %v", k, err)
			}
		}
		nw := version(k, 2, 64+rng.Intn(20000))
		n := uint64(rng.Intn(len(nw)))
		if rng.Intn(4) == 0 {
			n = []uint64{0, 1, uint64(len(nw) - 1), 4096 % uint64(len(nw))}[rng.Intn(4)]
		}
		limit(n)
		err := st.Set(ctx, k, nw)
		limit(full.Cur)
		if err == nil {
			bad("a write of %d bytes to %s that fails after %d bytes reports success", len(nw), k, n)
		}
		got, err := os.ReadFile(dir + "/" + k)
		switch {
		case exists && err != nil:
			bad("after a failed write of %s (%d of %d bytes), the previous object is gone: %v", k, n, len(nw), err)
		case exists && !bytes.Equal(got, old):
			bad("after a failed write of %s (%d of %d bytes), the object has %d bytes that are not the previous %d bytes", k, n, len(nw), len(got), len(old))
		case !exists && err == nil:
			bad("after a failed first write of %s (%d of %d bytes), an object of %d bytes exists", k, n, len(nw), len(got))
		}
		if x, err := st.Exists(ctx, k); err != nil || x != exists {
			bad("after a failed write of %s, Exists says %v, %v, want %v", k, x, err, exists)
		}
		if err := st.Set(ctx, k, nw); err != nil {
			bad("writing %s after a failed write: %v", k, err)
		}
		if got, err := st.Get(ctx, k); err != nil || !bytes.Equal(got, nw) {
			bad("%s reads back wrong after a failed and a repeated write: %d bytes, %v", k, len(got), err)
		}
		fmt.Printf("F %v %d\n", exists, n*4/uint64(len(nw)))
	}
	fmt.Println("OK")
}

func helperCmd(args ...string) *exec.Cmd {
	self, err := os.Executable()
	must(err)
	cmd := exec.Command(self, args...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	return cmd
}

// c14elsewhere makes the directory for temporary files one of another file system than the objects are on, as it is on
// most servers: nothing can be moved from there to the storage directory in one step.
func c14elsewhere(t *T) (cleanup func()) {
	dev := func(p string) (d uint64) {
		var st syscall.Stat_t
		if syscall.Stat(p, &st) == nil {
			d = uint64(st.Dev)
		}
		return d
	}
	d, err := os.MkdirTemp("/dev/shm", "vh-c14-")
	if err != nil {
		return func() {}
	}
	if dev(d) == dev(env.Dir) {
		os.RemoveAll(d)
		return func() {}
	}
	old, had := os.LookupEnv("TMPDIR")
	os.Setenv("TMPDIR", d)
	t.Count("temporary files on another file system", 1)
	return func() {
		os.RemoveAll(d)
		if os.Unsetenv("TMPDIR"); had {
			os.Setenv("TMPDIR", old)
		}
	}
}

func runC14(t *T) {
	defer c14elsewhere(t)()
	base := filepath.Join(env.Dir, "c14")
	must(os.MkdirAll(base, 0755))
	c14readers(t, filepath.Join(base, "r"))
	c14writeFaults(t, filepath.Join(base, "f"))
	c14syscalls(t, filepath.Join(base, "y"))
	c14kills(t, filepath.Join(base, "k"))
	c14odd(t, filepath.Join(base, "o"))
	c14same(t, filepath.Join(base, "s"))
	c14others(t, filepath.Join(base, "u"))
	c14log(t)
	if !t.Failed() && (t.Get("reads while a write was under way") < 200 || t.Get("processes killed in a write") < 5) {
		t.Inconclusive("too few reads during writes, or kills during writes: %d, %d", t.Get("reads while a write was under way"), t.Get("processes killed in a write"))
	}
}

// c14others: readers run as other users, like a monitor or web server of its own account. With an ordinary umask, objects
// and the directories made for them must be readable for them.
func c14others(t *T, dir string) {
	defer syscall.Umask(syscall.Umask(0022))
	must(os.MkdirAll(dir, 0755))
	defer os.RemoveAll(dir)
	st := ctsubmit.NewFsStorage(dir)
	for _, k := range []string{"checkpoint", "ct/v1/get-sth", "tile/data/x001/x002/003.p/7", "int/hashes/a/b"} {
		for v := uint64(1); v < 3; v++ {
			must(st.Set(context.Background(), k, version(k, v, 300)))
			for p := dir + "/" + k; p != dir; p = filepath.Dir(p) {
				fi, err := os.Stat(p)
				must(err)
				if want := map[bool]os.FileMode{true: 0005, false: 0004}[fi.IsDir()]; fi.Mode()&want != want {
					t.Violate("unreadable", "after version %d of %s is written, %s has mode %v: readers of another user see no object at all", v, k, strings.TrimPrefix(p, dir), fi.Mode())
					return
				}
			}
			t.Eval(fmt.Sprintf("readable for other users/version %d", v))
		}
	}
}

// c14readers: one writer per object, readers in this and in other processes.
func c14readers(t *T, dir string) {
	must(os.MkdirAll(dir, 0755))
	defer os.RemoveAll(dir)
	st := ctsubmit.NewFsStorage(dir)
	keys := []string{"ct/v1/get-sth", "checkpoint", "int/hashes/a/bc", "tile/data/x001/234.p/5"}
	ctx := context.Background()
	type reg struct{ started, done atomic.Uint64 }
	regs := map[string]*reg{}
	for _, k := range keys {
		regs[k] = &reg{}
		must(st.Set(ctx, k, version(k, 1, 5000)))
		regs[k].started.Store(1)
		regs[k].done.Store(1)
	}
	var procs []*exec.Cmd
	var ins []io.WriteCloser
	var outs []*bytes.Buffer
	for i := 0; i < 2; i++ {
		cmd := helperCmd(append([]string{"c14reader", dir}, keys...)...)
		in, err := cmd.StdinPipe()
		must(err)
		var b bytes.Buffer
		cmd.Stdout = &b
		must(cmd.Start())
		procs, ins, outs = append(procs, cmd), append(ins, in), append(outs, &b)
	}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	for i, k := range keys {
		rng := t.Rand(fmt.Sprint("writer", i))
		r := regs[k]
		wg.Add(1)
		go func() {
			defer wg.Done()
			for v := uint64(2); ; v++ {
				select {
				case <-stop:
					return
				default:
				}
				n := c14size(rng)
				if n > 1<<20 && rng.Intn(3) > 0 {
					n = 100 + rng.Intn(50000)
				}
				d := version(k, v, n)
				r.started.Store(v)
				if err := st.Set(ctx, k, d); err != nil {
					t.Violate("write-error", "writing %s fails for no reason: %v", k, err)
					return
				}
				r.done.Store(v)
				t.Count("versions written", 1)
			}
		}()
	}
	for i := 0; i < 4; i++ {
		rng := t.Rand(fmt.Sprint("reader", i))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				k := keys[rng.Intn(len(keys))]
				r := regs[k]
				lo := r.done.Load()
				var b []byte
				var err error
				how := "Get"
				if rng.Intn(2) == 0 {
					b, err = st.Get(ctx, k)
				} else {
					how = "file"
					b, err = os.ReadFile(dir + "/" + k)
				}
				hi := r.started.Load()
				if err != nil {
					t.Violate("torn", "%s cannot be read while version %d is being written: %v", k, hi, err)
					return
				}
				v, err := readVersion(k, b)
				if err != nil {
					t.Violate("torn", "%s read while version %d is being written: %v", k, hi, err)
					return
				}
				if v < lo || v > hi {
					t.Violate("stale", "%s reads as version %d, although version %d was complete before the read, and %d the last one begun", k, v, lo, hi)
					return
				}
				if hi > lo {
					t.Count("reads while a write was under way", 1)
				}
				rel := "old"
				if v == hi {
					rel = "new"
				}
				t.Eval(fmt.Sprintf("concurrent %s/%s/%s under way %v", how, byteClass(len(b)), rel, hi > lo))
			}
		}()
	}
	time.Sleep(time.Duration(t.N(6, 120)) * time.Second)
	close(stop)
	wg.Wait()
	for i, p := range procs {
		ins[i].Close()
		p.Wait()
		s := strings.TrimSpace(outs[i].String())
		var n int64
		if _, err := fmt.Sscanf(s, "OK %d", &n); err != nil {
			t.Violate("torn", "a reader in another process: %s", s)
			continue
		}
		t.Count("reads in other processes", n)
	}
}

func c14writeFaults(t *T, dir string) {
	t.Parallel(t.N(4, 60), 4, func(i int) {
		d := fmt.Sprintf("%s%d", dir, i)
		must(os.MkdirAll(d, 0755))
		defer os.RemoveAll(d)
		cmd := helperCmd("c14fail", d, fmt.Sprint(t.Seed*1000+int64(i)), "400")
		out, err := cmd.CombinedOutput()
		s := strings.TrimSpace(string(out))
		for _, l := range strings.Split(s, "\n") {
			if strings.HasPrefix(l, "F ") {
				t.Eval("write fails part-way/previous object, quarter " + l[2:])
				t.Count("writes failed part-way", 1)
			}
		}
		if err != nil || !strings.HasSuffix(s, "OK") {
			t.Violate("failed-write", "%s", tailStr(s, 700))
		}
	})
}

func c14kills(t *T, dir string) {
	t.Parallel(t.N(24, 400), 4, func(i int) {
		d := fmt.Sprintf("%s%d", dir, i)
		must(os.MkdirAll(d, 0755))
		defer os.RemoveAll(d)
		rng := t.Rand(fmt.Sprint("kill", i))
		keys := []string{"checkpoint", "ct/v1/get-sth", "int/dedupe/00/0"}
		from := uint64(1)
		done := map[string]uint64{}
		for round := 0; round < 4; round++ {
			cmd := helperCmd(append([]string{"c14writer", d, fmt.Sprint(rng.Int63()), fmt.Sprint(from)}, keys...)...)
			out, err := cmd.StdoutPipe()
			must(err)
			must(cmd.Start())
			kill := time.AfterFunc(time.Duration(3000+rng.Intn(40000))*time.Microsecond+time.Duration(rng.Intn(3000))*time.Microsecond, func() { cmd.Process.Kill() })
			begun := uint64(0)
			sc := bufio.NewScanner(out)
			for sc.Scan() {
				f := strings.SplitN(sc.Text(), " ", 3)
				if len(f) < 2 {
					continue
				}
				v, err := strconv.ParseUint(f[1], 10, 64)
				if err != nil {
					continue
				}
				switch f[0] {
				case "begin":
					begun = v
				case "done":
					done[keys[int(v)%len(keys)]] = v
				case "error":
					t.Violate("write-error", "writing version %d fails for no reason: %s", v, sc.Text())
				}
			}
			kill.Stop()
			cmd.Process.Kill()
			cmd.Wait()
			if begun == 0 {
				continue
			}
			mid := done[keys[int(begun)%len(keys)]] != begun
			if mid {
				t.Count("processes killed in a write", 1)
			}
			for _, k := range keys {
				b, err := os.ReadFile(d + "/" + k)
				if os.IsNotExist(err) && done[k] == 0 {
					t.Eval("after a kill/no object yet")
					continue
				}
				if err != nil {
					t.Violate("torn", "after a process was killed, %s (of which version %d was complete) cannot be read: %v", k, done[k], err)
					return
				}
				v, err := readVersion(k, b)
				if err != nil {
					t.Violate("torn", "after the writing process was killed (in a write: %v): %s: %v", mid, k, err)
					return
				}
				hit := k == keys[int(begun)%len(keys)] && mid
				if v != done[k] && !(hit && v == begun) {
					t.Violate("stale", "after a kill %s has version %d; complete was %d, begun %d", k, v, done[k], begun)
					return
				}
				done[k] = v
				t.Eval(fmt.Sprintf("after a kill/%s/in this write %v/new %v", byteClass(len(b)), hit, v == begun))
			}
			from = begun + 1
		}
	})
}

// c14odd: other reasons for a write to fail.
func c14odd(t *T, dir string) {
	must(os.MkdirAll(dir, 0755))
	defer os.RemoveAll(dir)
	st := ctsubmit.NewFsStorage(dir)
	ctx := context.Background()
	want := func(what, key string, old []byte) {
		got, err := os.ReadFile(dir + "/" + key)
		if old != nil && (err != nil || !bytes.Equal(got, old)) {
			t.Violate("failed-write", "%s: the previous object %s is not in place: %d bytes, %v", what, key, len(got), err)
		}
		t.Eval("write fails/" + what)
	}
	// the object's name is a directory with objects in it
	must(st.Set(ctx, "a/b", []byte("x")))
	if err := st.Set(ctx, "a", []byte("y")); err == nil {
		t.Violate("failed-write", "writing an object in place of a directory reports success")
	}
	want("directory in the way", "a/b", []byte("x"))
	// a file where a directory is needed
	if err := st.Set(ctx, "a/b/c", []byte("y")); err == nil {
		t.Violate("failed-write", "writing an object below a file reports success")
	}
	want("file in the way", "a/b", []byte("x"))
	// empty and repeated contents, shrinking objects
	for _, v := range [][]byte{[]byte("longer"), {}, []byte("x"), make([]byte, 70000), []byte("y")} {
		if err := st.Set(ctx, "e", v); err != nil {
			t.Violate("write-error", "writing %d bytes: %v", len(v), err)
		}
		if got, err := st.Get(ctx, "e"); err != nil || !bytes.Equal(got, v) {
			t.Violate("torn", "an object of %d bytes reads back as %d bytes, %v", len(v), len(got), err)
		}
		t.Eval("sequence/" + byteClass(len(v)))
	}
	// in quick succession, of the same length, differing anywhere, going back to what was there before
	rng := t.Rand("succession")
	for _, size := range []int{1, 29, 500, 8192, 70000} {
		was := [][]byte{make([]byte, size)}
		for k := 0; k < t.N(60, 600); k++ {
			v := append([]byte{}, was[len(was)-1]...)
			if rng.Intn(4) == 0 {
				v = was[rng.Intn(len(was))]
			} else {
				v[[]int{0, size - 1, rng.Intn(size)}[rng.Intn(3)]] ^= byte(1 + rng.Intn(255))
			}
			was = append(was, v)
			if err := st.Set(ctx, "s/e", v); err != nil {
				t.Violate("write-error", "writing %d bytes: %v", len(v), err)
			}
			if got, err := os.ReadFile(dir + "/s/e"); err != nil || !bytes.Equal(got, v) {
				t.Violate("torn", "after a write of %d bytes was reported done, the object does not have the new contents (%v)", size, err)
				break
			}
			t.Eval("succession/" + byteClass(size))
		}
	}
}

// c14same: several writers of one object at once (an issuer in several entries of a batch, in a directory that does not exist yet).
func c14same(t *T, dir string) {
	must(os.MkdirAll(dir, 0755))
	defer os.RemoveAll(dir)
	st := ctsubmit.NewFsStorage(dir)
	ctx := context.Background()
	rng := t.Rand("same")
	for round := 0; round < t.N(150, 3000); round++ {
		k := fmt.Sprintf("d%d/issuer/%d", round%50, round)
		n := 2 + rng.Intn(7)
		same := rng.Intn(2) == 0
		size := []int{100, 2000, 70000, 400000}[rng.Intn(4)]
		start := make(chan struct{})
		stop := make(chan struct{})
		var wg, rg sync.WaitGroup
		for i := 0; i < n; i++ {
			v := uint64(1)
			if !same {
				v = uint64(i + 1)
			}
			d := version(k, v, size+int(v)*10)
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if err := st.Set(ctx, k, d); err != nil {
					t.Violate("write-error", "one of %d concurrent writes of the object %s (same contents: %v) fails: %v", n, k, same, err)
				}
			}()
		}
		check := func(when string) bool {
			b, err := os.ReadFile(dir + "/" + k)
			if err != nil {
				return false
			}
			if v, err := readVersion(k, b); err != nil || v < 1 || v > uint64(n) {
				t.Violate("torn", "%s %d concurrent writes of one object: version %d, %v", when, n, v, err)
			}
			t.Eval(fmt.Sprintf("several writers/%s/%s/same %v", when, byteClass(len(b)), same))
			return true
		}
		rg.Add(1)
		go func() {
			defer rg.Done()
			seen := false
			for {
				select {
				case <-stop:
					return
				default:
				}
				if ok := check("during"); seen && !ok {
					t.Violate("torn", "during %d concurrent writes an existing object disappears", n)
				} else if ok {
					seen = true
				}
			}
		}()
		close(start)
		wg.Wait()
		close(stop)
		rg.Wait()
		if !check("after") && !t.Failed() {
			t.Violate("torn", "after %d concurrent writes there is no object", n)
		}
	}
}

// c14objects judges the objects a log has on disk at some moment.
func c14objects(t *T, w *World, when string) {
	n := 0
	filepath.Walk(w.FSDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return nil
		}
		k := strings.TrimPrefix(p, w.FSDir+"/")
		b, err := os.ReadFile(p)
		if err != nil {
			if !strings.Contains(filepath.Base(k), "tmp") { // a temporary file may come and go
				t.Count("files gone between listing and reading", 1)
			}
			return nil
		}
		bad := ""
		f := strings.Split(k, "/")
		switch {
		case k == "ct/v1/get-sth":
			if _, err := verifySTH(b, &w.Key.PublicKey); err != nil {
				bad = err.Error()
			}
		case k == "checkpoint":
			if _, err := verifyCheckpoint(b, w.Origin, &w.Key.PublicKey); err != nil {
				bad = err.Error()
			}
		case f[0] == "issuer" && len(f) == 2 && len(f[1]) == 64:
			if s := sha256.Sum256(b); fmt.Sprintf("%x", s) != f[1] {
				bad = "does not have the fingerprint"
			}
		case strings.HasPrefix(k, "int/hashes/") && hexName(k):
			if len(b) == 0 || len(b)%21 != 0 {
				bad = "not whole records"
			}
		case strings.HasPrefix(k, "int/dedupe/") && hexName(k):
			if len(b) == 0 || len(b)%29 != 0 {
				bad = "not whole records"
			}
		default:
			ti, ok := parseTilePath(k)
			if !ok {
				return nil
			}
			if ti.Level >= 0 && len(b) != 32*ti.W {
				bad = "wrong size"
			}
			if ti.Level < 0 {
				if e, err := decodeDataTile(b); err != nil || len(e) != ti.W {
					bad = fmt.Sprintf("%d entries, %v", len(e), err)
				}
			}
		}
		n++
		if bad != "" {
			t.Violate("torn", "%s, object %s (%d bytes) is incomplete or mixed: %s", when, k, len(b), bad)
		}
		t.Eval("log objects/" + opKind(k) + "/" + when)
		return nil
	})
	t.Count("log objects judged", int64(n))
}

func hexName(k string) bool {
	for _, c := range filepath.Base(k) {
		if !strings.ContainsRune("0123456789abcdef", c) {
			return false
		}
	}
	return true
}

// c14log: the real log on a directory, killed or with writes that fail, then started again.
func c14log(t *T) {
	t.Parallel(t.N(8, 80), 4, func(i int) {
		rng := t.Rand(fmt.Sprint("log", i))
		w := NewWorld(WorldOpt{FS: true, NoAudit: true, FlushMs: 10, Mask: []int{2, 5}[i%2]})
		defer w.Close()
		var led []Promise
		var lm sync.Mutex
		for round := 0; round < 2; round++ {
			c := NewConsul(false)
			gc := w.Config("none")
			b, err := json.Marshal(gc)
			must(err)
			c.Put(w.Name+"/config", b)
			af := filepath.Join(env.Dir, fmt.Sprintf("%s-%d.addr", w.Name, round))
			limit := 0
			if i%2 == 1 && round == 0 {
				limit = 2000 + rng.Intn(150000)
			}
			cmd := helperCmd("c14inst", w.Name, c.Addr, af, fmt.Sprint(limit))
			var log bytes.Buffer
			cmd.Stderr = &limited{b: &log}
			cmd.Stdout = cmd.Stderr
			must(cmd.Start())
			exited := make(chan struct{})
			go func() { cmd.Wait(); close(exited) }()
			addr := ""
			for end := time.Now().Add(60 * time.Second); addr == "" && time.Now().Before(end); time.Sleep(3 * time.Millisecond) {
				if b, err := os.ReadFile(af); err == nil {
					addr = string(b)
				}
			}
			os.Remove(af)
			stop := make(chan struct{})
			var wg sync.WaitGroup
			var good atomic.Int64
			for k := 0; k < 6; k++ {
				cr := rand.New(rand.NewSource(rng.Int63()))
				wg.Add(1)
				go func() {
					defer wg.Done()
					cl := &http.Client{Timeout: 20 * time.Second, Transport: &http.Transport{DialContext: (&net.Dialer{Timeout: 5 * time.Second}).DialContext}}
					for {
						select {
						case <-stop:
							return
						case <-exited:
							return
						default:
						}
						s := w.PKI.Small(cr)
						resp, err := cl.Post("http://"+addr+s.Path(), "application/json", bytes.NewReader(s.Body()))
						if err != nil {
							continue
						}
						body, err := io.ReadAll(resp.Body)
						resp.Body.Close()
						if err != nil || resp.StatusCode != 200 {
							continue
						}
						if sct, err := parseSCT(body); err == nil {
							lm.Lock()
							led = append(led, Promise{s, sct})
							lm.Unlock()
							good.Add(1)
						}
					}
				}()
			}
			// a reader of everything meanwhile
			end := time.Now().Add(time.Duration(300+rng.Intn(700)) * time.Millisecond)
			hard := time.Now().Add(60 * time.Second)
			for (time.Now().Before(end) || limit == 0 && good.Load() < 20) && time.Now().Before(hard) {
				c14objects(t, w, "while the log runs")
			}
			if limit > 0 {
				// the limit makes a write fail sooner or later, and the process end
				select {
				case <-exited:
					t.Count("logs ended by a failing write", 1)
				case <-time.After(60 * time.Second):
				}
			}
			cmd.Process.Kill()
			<-exited
			close(stop)
			wg.Wait()
			c.srv.Close()
			when := "after a kill of the log"
			if limit > 0 {
				when = "after a write of the log failed"
			}
			c14objects(t, w, when)
			if round == 1 && good.Load() == 0 {
				t.Violate("no-restart", "after a kill or failed write (limit %d), the log does not start or accept submissions; its output ends: %s", limit, tailStr(log.String(), 700))
			}
			t.Count("scts", good.Load())
		}
		// every promise is still kept
		d, _ := w.Get("ct/v1/get-sth")
		h, err := verifySTH(d, &w.Key.PublicKey)
		if err != nil {
			t.Violate("torn", "the final tree head does not verify: %v", err)
			return
		}
		for _, p := range led {
			if p.SCT.Index >= h.Size {
				t.Violate("promise-lost", "an SCT promises index %d, but the tree has only %d entries", p.SCT.Index, h.Size)
				return
			}
			ti := TileID{Level: -1, N: p.SCT.Index / 256, W: 256}
			if ti.N == h.Size/256 {
				ti.W = int(h.Size % 256)
			}
			b, _ := w.Get(ti.Path())
			es, err := decodeDataTile(b)
			if err != nil || len(es) != ti.W {
				t.Violate("torn", "data tile %s: %d entries, %v", ti.Path(), len(es), err)
				return
			}
			if x := p.Sub.entryFor(p.SCT.Timestamp, p.SCT.Index); !bytes.Equal(x.Leaf(), es[p.SCT.Index%256].Leaf()) {
				t.Violate("promise-lost", "the entry at index %d is not the one promised", p.SCT.Index)
				return
			}
		}
	})
}
