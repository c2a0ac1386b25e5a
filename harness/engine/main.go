package engine

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
)

const (
	exitOK        = 0
	exitViolation = 1
	exitError     = 2

	hangCPU    = 40 * time.Second // CPU time on one case that counts as "never returns"
	stuckWall  = 45 * time.Second // a case without a result for so long, having used next to no CPU time,
	stuckCPU   = 2 * time.Second  // waits for something that does not come
	memLimitMB = 3000
	shrinkSecs = 12
)

var (
	fProp    = flag.String("prop", "", "property id")
	fChild   = flag.Bool("child", false, "internal: run a shard")
	fOne     = flag.String("one", "", "internal: run the case of a replay file in this process")
	fShard   = flag.Int("shard", 0, "internal")
	fShards  = flag.Int("shards", 8, "number of child processes")
	fOut     = flag.String("out", "", "internal: result file")
	fCur     = flag.String("cur", "", "internal: current-case file")
	fReplay  = flag.String("replay", "", "replay file")
	fOnly    = flag.String("only", "", "run only this sub-check (comma separated)")
	fBin     = flag.String("binkind", "", "internal: which build this is")
	fMult    = flag.Float64("mult", 1, "multiply case counts")
	fVerbose = flag.Bool("v", false, "print statistics")
	fNoEv    = flag.Bool("noevidence", false, "do not write the evidence file")
	fVerif   = flag.String("verif", "/verif", "framework directory")
)

// Replay is the file written for a violation.
type Replay struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Mode     string          `json:"mode"` // "case", or "shard": the whole deterministic shard has to be run
	Seed     int64           `json:"seed"`
	Tier     string          `json:"tier"`
	Shard    int             `json:"shard"`
	Shards   int             `json:"shards"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func tierIndex(t string) int {
	if t == "thorough" {
		return 1
	}
	return 0
}

func seedEnv() int64 {
	n, err := strconv.ParseInt(env("VERIF_SEED", "1"), 10, 64)
	if err != nil {
		return int64(hash64([]byte(os.Getenv("VERIF_SEED"))) >> 1)
	}
	return n
}

// Main is the entry point of the check binary.
func Main() {
	testing.Init()
	flag.Parse()
	switch {
	case *fChild:
		os.Exit(childMain())
	case *fOne != "":
		os.Exit(oneMain())
	case *fReplay != "":
		os.Exit(replayMain())
	default:
		os.Exit(parentMain())
	}
}

func setRapid(n int, seed uint64) {
	if seed == 0 {
		seed = 1
	}
	flag.Set("rapid.checks", strconv.Itoa(n))
	flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", fmt.Sprintf("%ds", shrinkSecs))
}

func selected(prop, kind string) []*Sub {
	var r []*Sub
	only := map[string]bool{}
	for _, o := range strings.Split(*fOnly, ",") {
		if o != "" {
			only[o] = true
		}
	}
	for _, s := range registry[prop] {
		if s.Binary == kind && (len(only) == 0 || only[s.Name]) {
			r = append(r, s)
		}
	}
	return r
}

func shardCount(s *Sub, tier int) (n int) {
	total := int(float64(s.N[tier]) * *fMult)
	if b := Boost[s.Prop]; b > 1 && tier == 0 && s.Binary == "" && !s.NoBoost {
		total *= b
	}
	sh := *fShards
	if s.Shards > 0 && s.Shards < sh {
		sh = s.Shards
	}
	if *fShard >= sh {
		return 0
	}
	n = total / sh
	if *fShard < total%sh {
		n++
	}
	return n
}

func childMain() int {
	// nothing may hide in the working directory (rapid looks for testdata/rapid)
	tier := tierIndex(env("VERIF_TIER", "quick"))
	out, err := os.OpenFile(*fOut, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	defer out.Close()
	for _, s := range selected(*fProp, *fBin) {
		n := shardCount(s, tier)
		if n == 0 {
			continue
		}
		seed := hash64([]byte(fmt.Sprintf("%d|%s|%s|%d", seedEnv(), s.Prop, s.Name, *fShard)))
		setRapid(n, seed)
		st := childSub(s, n, *fCur, *fShard)
		b, err := json.Marshal(st)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return exitError
		}
		out.Write(append(b, '\n'))
	}
	return exitOK
}

// oneMain runs the single case of a replay file: exit 1 if it fails, 3 on a harness error.
func oneMain() int {
	r, err := loadReplay(*fOne)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	s := find(r.Property, r.Sub)
	if s == nil {
		fmt.Fprintln(os.Stderr, "unknown sub-check", r.Sub)
		return 3
	}
	for i := 0; i <= s.Retry; i++ {
		c, err := s.decode(r.Case)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		if err := s.exec(c, &X{}); err != nil {
			if _, ok := err.(HarnessError); ok {
				fmt.Fprintln(os.Stderr, err)
				return 3
			}
			fmt.Println(err)
			return exitViolation
		}
	}
	return exitOK
}

func loadReplay(p string) (*Replay, error) {
	b, err := os.ReadFile(p)
	if err != nil {
		return nil, err
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		return nil, err
	}
	return &r, nil
}

func self(kind string) string {
	p, err := os.Executable()
	if err != nil {
		p = os.Args[0]
	}
	dir := filepath.Dir(p)
	if kind == "" {
		return filepath.Join(dir, "check")
	}
	return filepath.Join(dir, "check-"+kind)
}

func childEnv(kind string) []string {
	var e []string
	for _, v := range os.Environ() {
		if strings.HasPrefix(v, "RAPID_") || strings.HasPrefix(v, "GOMAXPROCS=") || strings.HasPrefix(v, "GORACE=") || strings.HasPrefix(v, "GODEBUG=") {
			continue
		}
		e = append(e, v)
	}
	e = append(e, "GODEBUG=randseednop=0")
	if kind == "race" {
		e = append(e, "GORACE=exitcode=66 halt_on_error=1 history_size=3", "GOMAXPROCS=4")
	} else {
		e = append(e, "GOMAXPROCS=2", "GOGC=200")
	}
	return e
}

// --- parent ---

type shardResult struct {
	kind   string
	shard  int
	stats  []*SubStats
	crash  *crash
	errMsg string
}

type crash struct {
	sub    string
	kase   json.RawMessage
	why    string // "exit", "hang", "memory"
	detail string
}

func procCPU(pid int) (time.Duration, int, bool) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0, 0, false
	}
	i := bytes.LastIndexByte(b, ')')
	if i < 0 {
		return 0, 0, false
	}
	f := strings.Fields(string(b[i+1:]))
	if len(f) < 22 {
		return 0, 0, false
	}
	u, _ := strconv.ParseInt(f[11], 10, 64)
	s, _ := strconv.ParseInt(f[12], 10, 64)
	rss, _ := strconv.ParseInt(f[21], 10, 64)
	return time.Duration(u+s) * 10 * time.Millisecond, int(rss * 4 / 1024), true
}

type runOutcome struct {
	exit   int
	signal string
	stdout string
	stderr string
	why    string // "", "hang", "memory", "wall"
}

// supervise runs cmd, killing it when one case uses too much CPU or memory. cur may be "".
func supervise(cmd *exec.Cmd, cur string, cpu time.Duration, wall time.Duration, memMB int) runOutcome {
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &capped{b: &so}, &capped{b: &se}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return runOutcome{exit: exitError, stderr: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var (
		lastMod time.Time
		baseCPU time.Duration
		start   = time.Now()
		baseW   = start
		why     string
	)
	tick := time.NewTicker(250 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case err := <-done:
			o := runOutcome{stdout: so.String(), stderr: se.String(), why: why}
			if err != nil {
				o.exit = exitError
				if ee, ok := err.(*exec.ExitError); ok {
					ws := ee.Sys().(syscall.WaitStatus)
					o.exit = ws.ExitStatus()
					if ws.Signaled() {
						o.signal = ws.Signal().String()
						o.exit = 128 + int(ws.Signal())
					}
				}
			}
			return o
		case <-tick.C:
			c, rss, ok := procCPU(cmd.Process.Pid)
			if !ok || why != "" {
				continue
			}
			if cur != "" {
				if fi, err := os.Stat(cur); err != nil {
					baseCPU, baseW = c, time.Now()
				} else if !fi.ModTime().Equal(lastMod) {
					lastMod, baseCPU, baseW = fi.ModTime(), c, time.Now()
				}
			}
			switch {
			case c-baseCPU > cpu:
				why = "hang"
			case time.Since(baseW) > stuckWall && c-baseCPU < stuckCPU:
				why = "stuck"
			case rss > memMB:
				why = "memory"
			case wall > 0 && time.Since(baseW) > wall:
				why = "wall"
			}
			if why != "" {
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			}
		}
	}
}

type capped struct {
	b *bytes.Buffer
}

func (c *capped) Write(p []byte) (int, error) {
	if c.b.Len() < 1<<20 {
		c.b.Write(p)
	}
	return len(p), nil
}

func runShard(prop, kind string, shard int, work string) *shardResult {
	r := &shardResult{kind: kind, shard: shard}
	out := filepath.Join(work, fmt.Sprintf("out-%s-%d", kind, shard))
	cur := filepath.Join(work, fmt.Sprintf("cur-%s-%d", kind, shard))
	os.Remove(out)
	os.Remove(cur)
	wd := filepath.Join(work, fmt.Sprintf("wd-%s-%d", kind, shard))
	os.MkdirAll(wd, 0o755)
	args := []string{"-child", "-prop", prop, "-binkind", kind, "-shard", strconv.Itoa(shard), "-shards", strconv.Itoa(*fShards),
		"-out", out, "-cur", cur, "-mult", fmt.Sprint(*fMult), "-only", *fOnly}
	cmd := exec.Command(self(kind), args...)
	cmd.Env = childEnv(kind)
	cmd.Dir = wd
	o := supervise(cmd, cur, hangCPU, 300*time.Second, memLimitMB)
	if f, err := os.Open(out); err == nil {
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<30)
		for sc.Scan() {
			var st SubStats
			if err := json.Unmarshal(sc.Bytes(), &st); err == nil {
				r.stats = append(r.stats, &st)
			}
		}
		f.Close()
	}
	if o.exit == 0 && o.why == "" {
		return r
	}
	b, err := os.ReadFile(cur)
	i := bytes.IndexByte(b, '\n')
	if err != nil || i < 0 {
		r.errMsg = fmt.Sprintf("child %s/%d ended with %d %s outside a case: %s", kind, shard, o.exit, o.why, tail(o.stderr, 2000))
		return r
	}
	why := o.why
	if why == "" {
		why = "exit"
	}
	r.crash = &crash{sub: string(b[:i]), kase: json.RawMessage(b[i+1:]), why: why,
		detail: fmt.Sprintf("exit %d %s\n%s", o.exit, o.signal, tail(o.stderr, 4000))}
	return r
}

func tail(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
}

// runOne runs a case in a fresh process.
func runOne(rp *Replay, kind string, work string, cpu time.Duration, wall time.Duration) runOutcome {
	f, err := os.CreateTemp(work, "one-*.json")
	if err != nil {
		return runOutcome{exit: 3, stderr: err.Error()}
	}
	b, _ := json.Marshal(rp)
	f.Write(b)
	f.Close()
	defer os.Remove(f.Name())
	cmd := exec.Command(self(kind), "-one", f.Name(), "-binkind", kind)
	cmd.Env = childEnv(kind)
	cmd.Dir = work
	return supervise(cmd, "", cpu, wall, memLimitMB)
}

// bad says whether the outcome of a fresh run shows the violation, and how.
func (o runOutcome) bad() (bool, string) {
	switch {
	case o.why == "hang":
		return true, "the call does not return (CPU time limit)"
	case o.why == "stuck":
		return true, "the call does not return (all goroutines wait)\n"
	case o.why == "memory":
		return true, "memory grows without bound"
	case o.why == "wall":
		return false, "inconclusive: wall clock limit"
	case o.exit == 0 || o.exit == 3:
		return false, ""
	case o.exit == exitViolation:
		return true, strings.TrimSpace(o.stdout)
	case o.exit == 66:
		return true, "data race\n" + tail(o.stderr, 6000)
	case strings.Contains(o.stderr, "all goroutines are asleep"):
		return true, "deadlock: all goroutines are asleep\n" + tail(o.stderr, 4000)
	case strings.Contains(o.stderr, "harness: "):
		return false, ""
	case strings.Contains(o.stderr, "panic: ") || strings.Contains(o.stderr, "fatal error: "):
		return true, "crash\n" + tail(o.stderr, 4000)
	}
	return false, ""
}

// minimise drops array elements of the case while the fresh run keeps failing in some way.
func minimise(rp *Replay, kind, work string, budget time.Duration) {
	var v any
	if json.Unmarshal(rp.Case, &v) != nil {
		return
	}
	deadline := time.Now().Add(budget)
	var arrays func(v any, get func() any, set func(any), f func(get func() any, set func(any)))
	arrays = func(v any, get func() any, set func(any), f func(get func() any, set func(any))) {
		switch t := v.(type) {
		case []any:
			if len(t) > 1 {
				f(get, set)
			}
		case map[string]any:
			keys := make([]string, 0, len(t))
			for k := range t {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				k := k
				arrays(t[k], func() any { return t[k] }, func(x any) { t[k] = x }, f)
			}
		}
	}
	root := v
	arrays(v, func() any { return root }, func(x any) { root = x }, func(get func() any, set func(any)) {
		cur := get().([]any)
		for size := len(cur) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(cur) && time.Now().Before(deadline); {
				cand := append(append([]any{}, cur[:i]...), cur[i+size:]...)
				set(cand)
				b, _ := json.Marshal(root)
				r2 := *rp
				r2.Case = b
				s := find(rp.Property, rp.Sub)
				if _, err := s.decode(b); err == nil {
					if ok, msg := runOne(&r2, kind, work, 10*time.Second, 20*time.Second).bad(); ok {
						cur = cand
						rp.Case, rp.Error = b, msg
						continue
					}
				}
				set(cur)
				i += size
			}
			set(cur)
		}
	})
}

func parentMain() int {
	start := time.Now()
	prop := *fProp
	if len(registry[prop]) == 0 {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		return exitError
	}
	work, err := os.MkdirTemp("", "verif-"+prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	defer os.RemoveAll(work)
	tier := env("VERIF_TIER", "quick")
	seed := seedEnv()

	kinds := []string{}
	for _, k := range []string{"", "step", "sched", "race"} {
		if len(selected(prop, k)) > 0 {
			if _, err := os.Stat(self(k)); err != nil {
				if k == "sched" || k == "step" { // optional layers: see DESIGN.md
					fmt.Fprintln(os.Stderr, "note: "+k+" build not available, its cases are skipped")
					continue
				}
				fmt.Fprintln(os.Stderr, err)
				return exitError
			}
			kinds = append(kinds, k)
		}
	}
	var results []*shardResult
	for _, k := range kinds {
		var wg sync.WaitGroup
		rs := make([]*shardResult, *fShards)
		sem := make(chan struct{}, 8)
		for i := 0; i < *fShards; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				sem <- struct{}{}
				rs[i] = runShard(prop, k, i, work)
				<-sem
			}(i)
		}
		wg.Wait()
		results = append(results, rs...)
		bad := false
		for _, r := range rs {
			bad = bad || r.crash != nil
			for _, st := range r.stats {
				bad = bad || st.Viol != nil
			}
		}
		if bad {
			break // no need for the other builds
		}
	}

	type viol struct {
		rp   *Replay
		path string
	}
	var viols []viol
	var errs []string
	reported := map[string]bool{}
	known := loadKnown()
	report := func(rp *Replay) {
		for _, k := range known {
			if k.matches(rp) {
				return // listed finding: printed below
			}
		}
		dir := filepath.Join(*fVerif, "replays")
		os.MkdirAll(dir, 0o755)
		b, _ := json.MarshalIndent(rp, "", " ")
		p := filepath.Join(dir, fmt.Sprintf("%s-%s-%016x.json", prop, rp.Sub, hash64(rp.Case)))
		if err := os.WriteFile(p, b, 0o644); err != nil {
			errs = append(errs, err.Error())
		}
		viols = append(viols, viol{rp, p})
	}
	agg := map[string]*SubStats{}
	hashes := map[string]map[uint64]bool{}
	var order []string
	for _, r := range results {
		if r.errMsg != "" {
			errs = append(errs, r.errMsg)
		}
		for _, st := range r.stats {
			a := agg[st.Sub]
			if a == nil {
				a = &SubStats{Sub: st.Sub, Labels: map[string]int{}}
				agg[st.Sub] = a
				hashes[st.Sub] = map[uint64]bool{}
				order = append(order, st.Sub)
			}
			a.Evals += st.Evals
			for k, n := range st.Labels {
				a.Labels[k] += n
			}
			for _, h := range st.Hashes {
				hashes[st.Sub][h] = true
			}
			if len(a.Samples) < 3 {
				a.Samples = append(a.Samples, st.Samples...)
			}
			a.CPU = math.Max(a.CPU, st.CPU)
			if st.Ratio > a.Ratio {
				a.Ratio, a.Note = st.Ratio, st.Note
			}
			if st.Invalid != "" {
				errs = append(errs, st.Sub+": "+st.Invalid)
			}
			if v := st.Viol; v != nil {
				if v.Harness {
					errs = append(errs, v.Sub+": "+v.Error)
					continue
				}
				if reported[v.Sub] {
					continue
				}
				rp := &Replay{Property: prop, Sub: v.Sub, Mode: "case", Seed: seed, Tier: tier, Shard: r.shard, Shards: *fShards, Error: v.Error, Case: v.Case}
				s := find(prop, v.Sub)
				ok, msg := runOne(rp, r.kind, work, hangCPU, 120*time.Second).bad()
				switch {
				case ok:
					rp.Error = msg
				case s.Retry > 0 && v.InChild:
					// schedule dependent: the failing history itself is the evidence
				case s.FreshOnly || !v.InChild:
					errs = append(errs, fmt.Sprintf("%s: a failure did not reproduce: %s case %s", v.Sub, v.Error, clip(v.Case)))
					continue
				default:
					rp.Mode = "shard"
				}
				reported[v.Sub] = true
				report(rp)
			}
		}
		if c := r.crash; c != nil {
			if reported[c.sub] {
				continue
			}
			rp := &Replay{Property: prop, Sub: c.sub, Mode: "case", Seed: seed, Tier: tier, Shard: r.shard, Shards: *fShards, Error: c.detail, Case: c.kase}
			s := find(prop, c.sub)
			if s == nil {
				errs = append(errs, "crash in unknown sub-check "+c.sub)
				continue
			}
			ok, msg := false, ""
			for i := 0; i < 3 && !ok; i++ {
				ok, msg = runOne(rp, r.kind, work, hangCPU, 150*time.Second).bad()
			}
			race := strings.Contains(c.detail, "DATA RACE")
			dead := strings.Contains(c.detail, "all goroutines are asleep")
			switch {
			case ok:
				rp.Error = msg
				if c.why == "exit" && !race {
					minimise(rp, r.kind, work, 20*time.Second)
				}
			case race || dead:
				// definite whatever the schedule
			default:
				errs = append(errs, fmt.Sprintf("%s: child died (%s) but the case alone does not: %s\ncase %s", c.sub, c.why, c.detail, clip(c.kase)))
				continue
			}
			reported[c.sub] = true
			report(rp)
		}
	}

	nviol := 0
	for _, v := range viols {
		nviol++
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, v.path)
		fmt.Printf("  sub-check %s: %s\n", v.rp.Sub, strings.ReplaceAll(tail(v.rp.Error, 1500), "\n", "\n    "))
		fmt.Printf("  case: %s\n", tail(string(v.rp.Case), 1500))
	}
	for _, k := range known {
		if k.Property == prop && k.Status == "known" {
			if ok, msg := k.stillFails(work); ok {
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", prop, k.What, firstLine(msg))
			}
		}
	}
	if !*fNoEv {
		if err := writeEvidence(prop, tier, seed, order, agg, hashes, nviol, time.Since(start)); err != nil {
			errs = append(errs, err.Error())
		}
	}
	if *fVerbose {
		for _, n := range order {
			a := agg[n]
			fmt.Printf("%-28s evals %7d nontrivial %7d cpu %5.2f ratio %.3g %s\n", n, a.Evals, len(hashes[n]), a.CPU, a.Ratio, tail(a.Note, 300))
			var ks []string
			for k := range a.Labels {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				fmt.Printf("      %-40s %d\n", k, a.Labels[k])
			}
		}
		fmt.Printf("wall %.1fs\n", time.Since(start).Seconds())
	}
	if nviol > 0 {
		return exitViolation
	}
	if len(errs) > 0 {
		for _, e := range errs {
			fmt.Fprintln(os.Stderr, "ERROR:", e)
		}
		return exitError
	}
	total := 0
	for _, a := range agg {
		total += a.Evals
	}
	fmt.Printf("OK property=%s cases=%d tier=%s seed=%d wall=%.1fs\n", prop, total, tier, seed, time.Since(start).Seconds())
	return exitOK
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func writeEvidence(prop, tier string, seed int64, order []string, agg map[string]*SubStats, hashes map[string]map[uint64]bool, nviol int, wall time.Duration) error {
	evals, nt := 0, 0
	var rules []string
	samples := []any{}
	subs := map[string]any{}
	for _, n := range order {
		a := agg[n]
		s := find(prop, n)
		evals += a.Evals
		nt += len(hashes[n])
		rules = append(rules, n+": "+s.Rule)
		for i, sm := range a.Samples {
			if i < 2 {
				samples = append(samples, map[string]any{"sub": n, "case": sm})
			}
		}
		e := map[string]any{"evaluations": a.Evals, "distinct_nontrivial": len(hashes[n])}
		if len(a.Labels) > 0 {
			e["classes"] = a.Labels
		}
		if a.Ratio > 0 {
			e["max_error_over_tolerance"] = a.Ratio
		}
		subs[n] = e
	}
	if evals == 0 && nviol == 0 {
		return fmt.Errorf("no case was run")
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations": evals, "distinct_nontrivial": nt,
			"rule": strings.Join(rules, " | "), "samples": samples, "sub_checks": subs,
		},
		"assumptions": []string{"rapid's generators and the harness's reference models are trusted", "bounds of each generator as in DESIGN.md"},
		"wall_s":      wall.Seconds(),
		"violations":  nviol,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(*fVerif, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, prop+".json"), b, 0o644)
}

func replayMain() int {
	r, err := loadReplay(*fReplay)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	s := find(r.Property, r.Sub)
	if s == nil {
		fmt.Fprintln(os.Stderr, "unknown sub-check in replay file")
		return exitError
	}
	work, err := os.MkdirTemp("", "verif-replay-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	defer os.RemoveAll(work)
	if r.Mode == "shard" {
		os.Setenv("VERIF_SEED", strconv.FormatInt(r.Seed, 10))
		os.Setenv("VERIF_TIER", r.Tier)
		*fShards = r.Shards
		*fOnly = ""
		res := runShard(r.Property, s.Binary, r.Shard, work)
		for _, st := range res.stats {
			if st.Viol != nil && st.Viol.Sub == r.Sub {
				fmt.Printf("VIOLATION property=%s replay=%s\n%s\n", r.Property, *fReplay, st.Viol.Error)
				return exitViolation
			}
		}
		fmt.Println("replay passes")
		return exitOK
	}
	for i := 0; i < 3; i++ {
		o := runOne(r, s.Binary, work, hangCPU, 150*time.Second)
		if ok, msg := o.bad(); ok {
			fmt.Printf("VIOLATION property=%s replay=%s\n%s\n", r.Property, *fReplay, msg)
			return exitViolation
		}
		if o.exit != 0 {
			fmt.Fprintln(os.Stderr, "error:", o.exit, o.why, o.stderr)
			return exitError
		}
		if s.Retry == 0 && s.Binary == "" {
			break
		}
	}
	fmt.Println("replay passes")
	return exitOK
}
