package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Check decides one property.
type Check struct {
	Rule  string
	Level string
	Run   func(t *T)
}

var checks = map[string]Check{}

type Violation struct {
	Sig     string   `json:"sig"` // identifies the failing input or history, for the known-findings file
	What    string   `json:"what"`
	Witness []string `json:"witness,omitempty"`
}

// T is the context of one check run.
type T struct {
	ID       string
	Thorough bool
	Seed     int64
	start    time.Time
	side     string

	mu           sync.Mutex
	violations   []Violation
	seen         map[string]bool
	evals        int64
	distinct     map[string]int64
	counts       map[string]int64
	samples      []any
	inconclusive string
}

// N scales a workload by tier.
func (t *T) N(quick, thorough int) int {
	if t.Thorough {
		return thorough
	}
	return quick
}

func (t *T) Rand(name string) *rand.Rand {
	h := leafHash([]byte(fmt.Sprintf("%s/%d/%s", t.ID, t.Seed, name)))
	var x int64
	for i := 0; i < 8; i++ {
		x = x<<8 | int64(h[i])
	}
	return rand.New(rand.NewSource(x))
}

func (t *T) Violate(sig, f string, args ...any) { t.ViolateW(sig, nil, f, args...) }

func (t *T) ViolateW(sig string, witness []string, f string, args ...any) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.seen[sig] || len(t.violations) >= 20 {
		return
	}
	t.seen[sig] = true
	t.violations = append(t.violations, Violation{sig, fmt.Sprintf(f, args...), witness})
	if t.side != "" { // in case the rest of the run does not come to an end
		if b, err := json.Marshal(t.violations); err == nil {
			os.WriteFile(t.side, b, 0644)
		}
	}
}

func (t *T) Failed() bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	return len(t.violations) >= 3 || (len(t.violations) > 0 && time.Since(t.start) > 2*time.Minute && !t.Thorough) || t.late()
}

// late tells that there is no time for further work.
func (t *T) late() bool {
	return !t.Thorough && !t.start.IsZero() && time.Since(t.start) > 210*time.Second
}

// report turns a finding into a violation if it is in the property's scope.
func (t *T) report(cats map[string]bool, f Finding, w *World) {
	if !cats[f.Cat] {
		t.Count("out-of-scope findings: "+f.Cat, 1)
		return
	}
	var tail []string
	if w != nil {
		tail = w.Store.TryTail(40)
	}
	t.ViolateW(f.Cat, tail, "%s", f.String())
}

// Drain reports the auditor's findings.
func (t *T) Drain(cats map[string]bool, w *World) {
	for _, f := range w.Aud.Findings() {
		t.report(cats, f, w)
	}
	w.Aud.mu.Lock()
	w.Aud.findings = nil
	h, n, i, s := w.Aud.nHeads, w.Aud.nTiles, w.Aud.nIndex, w.Aud.nIssuers
	w.Aud.nHeads, w.Aud.nTiles, w.Aud.nIndex, w.Aud.nIssuers = 0, 0, 0, 0
	e := len(w.Aud.entries)
	w.Aud.mu.Unlock()
	t.Count("heads audited", int64(h))
	t.Count("tiles audited", int64(n))
	t.Count("index writes audited", int64(i))
	t.Count("issuer lookups audited", int64(s))
	t.Count("entries in audited logs (sum)", int64(e))
}

func (t *T) Inconclusive(f string, args ...any) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.inconclusive == "" {
		t.inconclusive = fmt.Sprintf(f, args...)
	}
}

// Eval counts one evaluation; class names what made it non-trivial and distinct ("" for a trivial one).
func (t *T) Eval(class string) {
	t.mu.Lock()
	t.evals++
	if class != "" {
		t.distinct[class]++
	}
	t.mu.Unlock()
}

func (t *T) Count(name string, n int64) {
	t.mu.Lock()
	t.counts[name] += n
	t.mu.Unlock()
}

func (t *T) Get(name string) int64 {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.counts[name]
}

func (t *T) Sample(v any) {
	t.mu.Lock()
	if len(t.samples) < 6 {
		t.samples = append(t.samples, v)
	}
	t.mu.Unlock()
}

// Parallel runs f(0..n-1) on several goroutines.
func (t *T) Parallel(n, workers int, f func(i int)) {
	if workers > n {
		workers = n
	}
	ch := make(chan int)
	var wg sync.WaitGroup
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				if !t.Failed() {
					f(i)
				} else if t.late() {
					t.Count("jobs skipped for lack of time", 1)
				}
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

func cats(names ...string) map[string]bool {
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
	}
	return m
}

// ---------------------------------------------------------------- child

type Result struct {
	Violations   []Violation    `json:"violations"`
	Evals        int64          `json:"evals"`
	Distinct     int64          `json:"distinct"`
	Classes      []string       `json:"classes"`
	Counts       map[string]any `json:"counts"`
	Samples      []any          `json:"samples"`
	Inconclusive string         `json:"inconclusive"`
}

func runChild(id, out, dir string) {
	c, ok := checks[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown check", id)
		os.Exit(3)
	}
	log.SetOutput(io.Discard)
	debug.SetGCPercent(200)
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	t := &T{ID: id, Seed: seed, start: time.Now(), side: out + ".side", Thorough: os.Getenv("VERIF_TIER") == "thorough",
		seen: map[string]bool{}, distinct: map[string]int64{}, counts: map[string]int64{}}
	initEnv(dir)
	c.Run(t)
	r := Result{Violations: t.violations, Evals: t.evals, Distinct: int64(len(t.distinct)), Counts: map[string]any{}, Samples: t.samples, Inconclusive: t.inconclusive}
	for k, v := range t.counts {
		r.Counts[k] = v
	}
	var cl []string
	for k, v := range t.distinct {
		cl = append(cl, fmt.Sprintf("%s x%d", k, v))
	}
	sort.Strings(cl)
	if len(cl) > 60 {
		cl = cl[:60]
	}
	r.Classes = cl
	b, err := json.Marshal(r)
	must(err)
	must(os.WriteFile(out+".tmp", b, 0644))
	must(os.Rename(out+".tmp", out))
	os.Exit(0)
}

// ---------------------------------------------------------------- supervisor

type knownFile struct {
	Known []struct {
		Property string `json:"property"`
		Sig      string `json:"sig"`
		What     string `json:"what"`
	} `json:"known"`
	Fixed []string `json:"fixed"`
}

func supervise(id string) int {
	start := time.Now()
	verif := os.Getenv("VERIF_DIR")
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	c, ok := checks[id]
	if !ok {
		fmt.Println("unknown property", id)
		return 3
	}
	limit := 270 * time.Second
	if tier == "thorough" {
		limit = 3 * time.Hour
	}
	var res Result
	var crash, why string
	for attempt := 1; attempt <= 2; attempt++ {
		res, crash, why = runOnce(id, attempt, limit)
		if crash != "" || (why == "" && res.Inconclusive == "") || len(res.Violations) > 0 {
			break
		}
		if tier == "thorough" {
			break
		}
		if why == "" {
			why = res.Inconclusive
		}
		fmt.Printf("attempt %d inconclusive: %s\n", attempt, why)
	}
	if crash != "" {
		res.Violations = append(res.Violations, Violation{"crash", "the process running the system under this property's workload died: " + firstLine(crash), strings.Split(crash, "\n")})
		why = ""
	} else if why == "" && len(res.Violations) == 0 {
		why = res.Inconclusive
	}

	var known knownFile
	if b, err := os.ReadFile(filepath.Join(verif, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &known); err != nil {
			fmt.Println("known_findings.json:", err)
			return 3
		}
	}
	var fresh []Violation
	for _, v := range res.Violations {
		k := ""
		for _, x := range known.Known {
			if x.Property == id && x.Sig == v.Sig {
				k = x.What
			}
		}
		if k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
		} else {
			fresh = append(fresh, v)
		}
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	samples := res.Samples
	if samples == nil {
		samples = []any{}
	}
	cov := map[string]any{
		"evaluations": res.Evals, "distinct_nontrivial": res.Distinct, "rule": c.Rule, "samples": samples,
		"observed": res.Counts, "classes": res.Classes,
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": c.Level, "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": len(fresh),
		"assumptions": []string{"holds for the executions observed in this run only", "the fake S3 and Consul servers behave like the real ones for the requests itko makes"},
	}
	if why != "" {
		cov["inconclusive"] = why
	}
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	must(os.MkdirAll(filepath.Join(verif, "evidence"), 0755))
	must(os.WriteFile(filepath.Join(verif, "evidence", id+".json"), b, 0644))
	if len(fresh) > 0 {
		rp := filepath.Join(verif, "evidence", "replay-"+id+".json")
		b, err := json.MarshalIndent(map[string]any{
			"property": id, "tier": tier, "seed": seed, "violations": fresh,
			"rerun": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s bash /verif/run.sh %s", seed, tier, id),
		}, "", " ")
		must(err)
		must(os.WriteFile(rp, b, 0644))
		for _, v := range fresh {
			fmt.Printf("  %s: %.600s\n", v.Sig, v.What)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return 1
	}
	if why != "" {
		fmt.Printf("INCONCLUSIVE property=%s: %s\n", id, why)
		return 2
	}
	fmt.Printf("held: property=%s evaluations=%d distinct=%d wall=%.1fs\n", id, res.Evals, res.Distinct, time.Since(start).Seconds())
	return 0
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
			return l
		}
	}
	return strings.SplitN(s, "\n", 2)[0]
}

func runOnce(id string, attempt int, limit time.Duration) (res Result, crash, why string) {
	dir, err := os.MkdirTemp("", "vh-"+id+"-")
	must(err)
	defer os.RemoveAll(dir)
	out := filepath.Join(dir, "result.json")
	self, err := os.Executable()
	must(err)
	cmd := exec.Command(self, "child", id, out, dir)
	var stderr, stdout bytes.Buffer
	cmd.Stderr = &limited{b: &stderr}
	cmd.Stdout = &limited{b: &stdout}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	cmd.Env = cleanEnv(dir)
	runtime.LockOSThread()
	must(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(limit):
		cmd.Process.Signal(syscall.SIGQUIT)
		select {
		case <-done:
		case <-time.After(10 * time.Second):
		}
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		os.WriteFile(filepath.Join(os.TempDir(), "vh-hang-"+id+".txt"), stderr.Bytes(), 0644)
		if b, err := os.ReadFile(out + ".side"); err == nil {
			json.Unmarshal(b, &res.Violations)
		}
		return res, "", "watchdog: the check did not finish in time"
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) // helpers left behind
	b, rerr := os.ReadFile(out)
	if rerr == nil && json.Unmarshal(b, &res) == nil {
		if rep := raceReports(dir); rep != "" {
			res.Violations = append(res.Violations, Violation{"data-race", "the race detector reports: " + firstRace(rep), strings.Split(rep, "\n")})
		}
		return res, "", ""
	}
	se := stderr.String()
	if (strings.Contains(se, "panic: ") || strings.Contains(se, "fatal error: ")) && !strings.Contains(se, "panic: harness:") && strings.Contains(crashGoroutine(se), "itko.dev/internal/") {
		if len(se) > 20000 {
			se = se[:20000]
		}
		return res, se, ""
	}
	if len(se) > 3000 {
		se = se[:3000]
	}
	return res, "", fmt.Sprintf("child ended with %v: %s %s", err, se, tailStr(stdout.String(), 500))
}

func tailStr(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// crashGoroutine is the first goroutine of a Go crash dump.
func crashGoroutine(s string) string {
	i := strings.Index(s, "\ngoroutine ")
	if i < 0 {
		return s
	}
	rest := s[i+1:]
	if j := strings.Index(rest, "\n\ngoroutine "); j >= 0 {
		rest = rest[:j]
	}
	return rest
}

type limited struct {
	b *bytes.Buffer
	m sync.Mutex
}

func (l *limited) Write(p []byte) (int, error) {
	l.m.Lock()
	defer l.m.Unlock()
	if l.b.Len() < 4<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

func cleanEnv(dir string) []string {
	var r []string
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		if strings.HasPrefix(k, "AWS_") || strings.HasPrefix(k, "CONSUL_") || strings.HasPrefix(k, "FASTLY") || strings.HasSuffix(strings.ToLower(k), "_proxy") || k == "GORACE" || k == "GOTRACEBACK" {
			continue
		}
		r = append(r, e)
	}
	return append(r, "GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+filepath.Join(dir, "race.log"),
		"AWS_EC2_METADATA_DISABLED=true", "AWS_CONFIG_FILE=/dev/null", "AWS_SHARED_CREDENTIALS_FILE=/dev/null")
}

func raceReports(dir string) string {
	m, _ := filepath.Glob(filepath.Join(dir, "race.log*"))
	var all string
	for _, f := range m {
		b, _ := os.ReadFile(f)
		all += string(b)
	}
	var keep []string
	for _, blk := range strings.Split(all, "==================") {
		if strings.Contains(blk, "WARNING: DATA RACE") && strings.Contains(blk, "itko.dev/internal/") {
			keep = append(keep, blk)
		}
	}
	if len(keep) > 5 {
		keep = keep[:5]
	}
	return strings.Join(keep, "\n---\n")
}

func firstRace(s string) string {
	var fr []string
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "itko.dev/internal/") {
			fr = append(fr, l)
			if len(fr) == 4 {
				break
			}
		}
	}
	return strings.Join(fr, " | ")
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: vh run <property>")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "run":
		os.Exit(supervise(os.Args[2]))
	case "child":
		runChild(os.Args[2], os.Args[3], os.Args[4])
	default:
		if f, ok := helpers[os.Args[1]]; ok {
			f(os.Args[2:])
			return
		}
		fmt.Println("unknown command", os.Args[1])
		os.Exit(3)
	}
}

// helpers are sub-process entry points.
var helpers = map[string]func(args []string){}
