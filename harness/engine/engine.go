// Package engine runs generated-input checks: registry, child runner (rapid generates and shrinks), replay.
package engine

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

// F is a float64 whose JSON form keeps NaN, infinities and the sign of zero.
type F float64

func (f F) MarshalJSON() ([]byte, error) {
	v := float64(f)
	switch {
	case math.IsNaN(v):
		return []byte(`"NaN"`), nil
	case math.IsInf(v, 1):
		return []byte(`"+Inf"`), nil
	case math.IsInf(v, -1):
		return []byte(`"-Inf"`), nil
	}
	return []byte(strconv.FormatFloat(v, 'g', -1, 64)), nil
}

func (f *F) UnmarshalJSON(b []byte) error {
	s := strings.Trim(string(b), `"`)
	v, err := strconv.ParseFloat(s, 64)
	if err != nil && !errors.Is(err, strconv.ErrRange) {
		return err
	}
	*f = F(v)
	return nil
}

// X is what a run function reports about the case besides its verdict.
type X struct {
	nontrivial bool
	labels     []string
	Ratio      float64 // largest observed error as a fraction of the tolerance (numeric checks)
	RatioNote  string
}

// NonTrivial marks the case as exercising what the rule of the sub-check asks for.
func (x *X) NonTrivial() { x.nontrivial = true }

// Label counts a class of cases.
func (x *X) Label(s string) { x.labels = append(x.labels, s) }

// Obs records err/tol of a numeric comparison.
func (x *X) Obs(r float64, note func() string) {
	if !(r < 1e300) {
		r = 1e300
	}
	if r > x.Ratio {
		x.Ratio = r
		if note != nil {
			x.RatioNote = note()
		}
	}
}

// Fail builds a violation.
func Fail(format string, a ...any) error { return fmt.Errorf(format, a...) }

// HarnessError is an error of the check itself: never a violation.
type HarnessError struct{ Msg string }

func (h HarnessError) Error() string { return "harness: " + h.Msg }

// Sub is one registered sub-check.
type Sub struct {
	Prop, Name, Rule string
	N                [2]int // cases over all shards: quick, thorough
	Binary           string // "" or "race" or "sched": which build of the harness runs it
	Shards           int    // 0 = all
	Retry            int    // extra runs of a failing case allowed to reproduce it (schedule-dependent checks)
	FreshOnly        bool   // a violation must reproduce in a fresh process
	NoBoost          bool   // the quick count is not multiplied by Boost
	gen              func(t *rapid.T) any
	run              func(c any, x *X) error
	decode           func(b []byte) (any, error)
}

// Opt changes registration defaults.
type Opt func(*Sub)

func Binary(b string) Opt { return func(s *Sub) { s.Binary = b } }
func Shards(n int) Opt    { return func(s *Sub) { s.Shards = n } }
func Retry(n int) Opt     { return func(s *Sub) { s.Retry = n } }
func NoBoost() Opt        { return func(s *Sub) { s.NoBoost = true } }
func FreshOnly() Opt      { return func(s *Sub) { s.FreshOnly = true } }

var registry = map[string][]*Sub{}

// Reg registers a sub-check. C must be JSON-serialisable.
func Reg[C any](prop, name, rule string, quick, thorough int, gen func(t *rapid.T) C, run func(c C, x *X) error, opts ...Opt) {
	s := &Sub{Prop: prop, Name: name, Rule: rule, N: [2]int{quick, thorough},
		gen: func(t *rapid.T) any { return gen(t) },
		run: func(c any, x *X) error { return run(c.(C), x) },
		decode: func(b []byte) (any, error) {
			var c C
			err := json.Unmarshal(b, &c)
			return c, err
		}}
	for _, o := range opts {
		o(s)
	}
	registry[prop] = append(registry[prop], s)
}

// Boost multiplies the quick case counts of a property (not those of its statistical sub-checks).
var Boost = map[string]int{}

// Props lists the registered properties.
func Props() []string {
	var r []string
	for p := range registry {
		r = append(r, p)
	}
	sort.Strings(r)
	return r
}

// Subs returns the sub-checks of a property.
func Subs(prop string) []*Sub { return registry[prop] }

func find(prop, name string) *Sub {
	for _, s := range registry[prop] {
		if s.Name == name {
			return s
		}
	}
	return nil
}

func hash64(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// exec runs one case, turning a panic into an error.
func (s *Sub) exec(c any, x *X) (err error) {
	defer func() {
		if p := recover(); p != nil {
			if h, ok := p.(HarnessError); ok {
				err = h
				return
			}
			err = fmt.Errorf("panic: %v\n%s", p, trimStack(string(debug.Stack())))
		}
	}()
	return s.run(c, x)
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	var out []string
	for i := 0; i+1 < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "goroutine") || strings.HasPrefix(l, "runtime") || strings.HasPrefix(l, "panic(") {
			continue
		}
		if strings.Contains(l, "engine.(*Sub).exec") && len(out) > 0 {
			break
		}
		out = append(out, l+" "+strings.TrimSpace(lines[i+1]))
	}
	if len(out) > 14 {
		out = append(out[:7], append([]string{"..."}, out[len(out)-6:]...)...)
	}
	return strings.Join(out, "\n")
}

// Violation is a failing case found by a child.
type Violation struct {
	Sub      string          `json:"sub"`
	Case     json.RawMessage `json:"case"`
	Error    string          `json:"error"`
	Shard    int             `json:"shard"`
	InChild  bool            `json:"in_child"` // reproduced by a direct run in the child
	Harness  bool            `json:"harness"`  // error of the harness, not a violation
	Attempts int             `json:"attempts"`
}

// SubStats is what one child reports about one sub-check.
type SubStats struct {
	Sub     string            `json:"sub"`
	Evals   int               `json:"evals"`
	Hashes  []uint64          `json:"hashes"`
	Labels  map[string]int    `json:"labels"`
	Samples []json.RawMessage `json:"samples"`
	Ratio   float64           `json:"ratio"`
	CPU     float64           `json:"cpu"` // the most CPU seconds a case took
	Note    string            `json:"note"`
	Done    bool              `json:"done"`
	Viol    *Violation        `json:"viol,omitempty"`
	Invalid string            `json:"invalid,omitempty"`
}

type fakeTB struct {
	failed bool
	msgs   []string
}

type failNow struct{}

func (f *fakeTB) Helper()                  {}
func (f *fakeTB) Name() string             { return "check" }
func (f *fakeTB) Logf(s string, a ...any)  {}
func (f *fakeTB) Log(a ...any)             {}
func (f *fakeTB) Skipf(s string, a ...any) { panic(failNow{}) }
func (f *fakeTB) Skip(a ...any)            { panic(failNow{}) }
func (f *fakeTB) SkipNow()                 { panic(failNow{}) }
func (f *fakeTB) Errorf(s string, a ...any) {
	f.failed = true
	f.msgs = append(f.msgs, fmt.Sprintf(s, a...))
}
func (f *fakeTB) Error(a ...any)            { f.failed = true; f.msgs = append(f.msgs, fmt.Sprint(a...)) }
func (f *fakeTB) Fatalf(s string, a ...any) { f.Errorf(s, a...); panic(failNow{}) }
func (f *fakeTB) Fatal(a ...any)            { f.Error(a...); panic(failNow{}) }
func (f *fakeTB) FailNow()                  { f.failed = true; panic(failNow{}) }
func (f *fakeTB) Fail()                     { f.failed = true }
func (f *fakeTB) Failed() bool              { return f.failed }

var _ rapid.TB = (*fakeTB)(nil)

const maxSamples = 2

func selfCPU() float64 {
	var r syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &r) != nil {
		return 0
	}
	return float64(r.Utime.Sec+r.Stime.Sec) + float64(r.Utime.Usec+r.Stime.Usec)/1e6
}

// childSub runs n generated cases of s in this process.
func childSub(s *Sub, n int, curFile string, shard int) *SubStats {
	st := &SubStats{Sub: s.Name, Labels: map[string]int{}}
	seen := map[uint64]bool{}
	var lastFail []byte
	var lastErr error
	var harness error
	shrinking := false
	var until time.Time // rapid looks at its own limit now and then only
	tb := &fakeTB{}
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(failNow); !ok {
					harness = fmt.Errorf("panic outside a case: %v\n%s", p, trimStack(string(debug.Stack())))
				}
			}
		}()
		rapid.Check(tb, func(t *rapid.T) {
			if shrinking && time.Now().After(until) {
				return
			}
			c := s.gen(t)
			b, err := json.Marshal(c)
			if err != nil {
				panic(HarnessError{"cannot marshal case: " + err.Error()})
			}
			writeCur(curFile, s.Name, b)
			x := &X{}
			before := selfCPU()
			err = s.exec(c, x)
			if !shrinking {
				st.CPU = math.Max(st.CPU, selfCPU()-before)
				st.Evals++
				for _, l := range x.labels {
					st.Labels[l]++
				}
				if x.Ratio > st.Ratio {
					st.Ratio, st.Note = x.Ratio, x.RatioNote
				}
				if x.nontrivial {
					h := hash64(b)
					if !seen[h] {
						seen[h] = true
						st.Hashes = append(st.Hashes, h)
						if len(st.Samples) < maxSamples || (len(st.Samples) < 6 && len(b) < 200) {
							if len(b) < 1500 || len(st.Samples) == 0 {
								st.Samples = append(st.Samples, json.RawMessage(clip(b)))
							}
						}
					}
				}
			}
			if err != nil {
				if !shrinking {
					shrinking, until = true, time.Now().Add(shrinkSecs*time.Second)
				}
				if h, ok := err.(HarnessError); ok {
					harness = h
				}
				lastFail, lastErr = append([]byte(nil), b...), err
				t.Fatalf("violation")
			}
		})
	}()
	removeCur(curFile)
	st.Done = true
	if lastErr != nil {
		v := &Violation{Sub: s.Name, Case: lastFail, Error: lastErr.Error(), Shard: shard}
		if _, ok := lastErr.(HarnessError); ok {
			v.Harness = true
		} else if s.Binary == "" || s.Binary == "sched" {
			// direct run, without rapid
			for i := 0; i <= s.Retry; i++ {
				c, err := s.decode(lastFail)
				if err != nil {
					v.Harness, v.Error = true, "cannot decode case: "+err.Error()
					break
				}
				v.Attempts++
				if err := s.exec(c, &X{}); err != nil {
					v.InChild, v.Error = true, err.Error()
					break
				}
			}
		} else {
			v.InChild = true
		}
		st.Viol = v
	} else if harness != nil {
		st.Viol = &Violation{Sub: s.Name, Error: harness.Error(), Shard: shard, Harness: true}
	} else if tb.failed {
		st.Invalid = strings.Join(tb.msgs, "; ")
	}
	return st
}

func clip(b []byte) []byte {
	if len(b) <= 3000 {
		return b
	}
	r, _ := json.Marshal(string(b[:1500]) + "...")
	return r
}

func writeCur(file, sub string, b []byte) {
	if file == "" {
		return
	}
	buf := make([]byte, 0, len(b)+len(sub)+1)
	buf = append(buf, sub...)
	buf = append(buf, '\n')
	buf = append(buf, b...)
	f, err := os.OpenFile(file, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o644)
	if err != nil {
		panic(HarnessError{err.Error()})
	}
	f.Write(buf)
	f.Close()
}

func removeCur(file string) {
	if file != "" {
		os.Remove(file)
	}
}
