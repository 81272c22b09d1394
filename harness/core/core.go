// Package core runs generated-case checks: rapid draws plain-data cases, a
// check function decides each case, failures shrink to a JSON replay file.
package core

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"
)

// Fail describes a violated property; Known, when not empty, identifies the
// specific failure for the known-findings file.
type Fail struct {
	Msg   string
	Known string
}

func Failf(format string, a ...any) *Fail { return &Fail{Msg: fmt.Sprintf(format, a...)} }

// Prop is one property with its sub-checks.
type Prop struct {
	ID   string
	Rule string
	Race bool // workers run in the race-instrumented binary
	Big  bool // workers or their children need a large address space
	Subs []Sub
}

// Sub is one generated check.
type Sub struct {
	Name            string
	Quick, Thorough int
	run             func(*ctx)
	replay          func(json.RawMessage) (*Fail, error)
}

// Hex is a byte string that prints as hex in JSON.
type Hex []byte

func (h Hex) MarshalJSON() ([]byte, error) { return json.Marshal(hex.EncodeToString(h)) }
func (h *Hex) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	v, err := hex.DecodeString(s)
	*h = v
	return err
}

// Text is a string that may hold any bytes ("x:" hex form when not clean UTF-8).
type Text string

func (s Text) MarshalJSON() ([]byte, error) {
	if strings.ToValidUTF8(string(s), "\x00") == string(s) && !strings.HasPrefix(string(s), "x:") {
		return json.Marshal(string(s))
	}
	return json.Marshal("x:" + hex.EncodeToString([]byte(s)))
}
func (s *Text) UnmarshalJSON(b []byte) error {
	var v string
	if err := json.Unmarshal(b, &v); err != nil {
		return err
	}
	if strings.HasPrefix(v, "x:") {
		d, err := hex.DecodeString(v[2:])
		*s = Text(d)
		return err
	}
	*s = Text(v)
	return nil
}

// SubStats is what one worker measured for one sub-check.
type SubStats struct {
	Name     string
	Evals    int
	Shrink   int
	Classes  map[string]int
	Hashes   []uint64 // distinct non-trivial cases
	Distinct int
	Samples  []json.RawMessage
}

// Violation is a failure found by a worker.
type Violation struct {
	Prop  string          `json:"property"`
	Sub   string          `json:"sub"`
	Msg   string          `json:"message"`
	Case  json.RawMessage `json:"case"`
	First json.RawMessage `json:"first_failing_case,omitempty"`
	Seed  int64           `json:"seed"`
	Shard int             `json:"shard"`
	Nsh   int             `json:"shards"`
	Tier  string          `json:"tier"`
}

// Result is a worker's output.
type Result struct {
	Subs       []*SubStats
	Violations []Violation
	Known      map[string]string // key -> message
	Error      string
}

type ctx struct {
	prop    *Prop
	tier    string
	seed    int64
	shard   int
	nshards int
	known   map[string]bool
	res     *Result
	scale   float64
	out     string
}

type fakeTB struct {
	name   string
	failed bool
	log    strings.Builder
}

func (f *fakeTB) Helper()                   {}
func (f *fakeTB) Name() string              { return f.name }
func (f *fakeTB) Logf(s string, a ...any)   { fmt.Fprintf(&f.log, s+"\n", a...) }
func (f *fakeTB) Log(a ...any)              { fmt.Fprintln(&f.log, a...) }
func (f *fakeTB) Skipf(string, ...any)      { f.SkipNow() }
func (f *fakeTB) Skip(...any)               { f.SkipNow() }
func (f *fakeTB) SkipNow()                  { runtime.Goexit() }
func (f *fakeTB) Errorf(s string, a ...any) { f.Logf(s, a...); f.failed = true }
func (f *fakeTB) Error(a ...any)            { f.Log(a...); f.failed = true }
func (f *fakeTB) Fatalf(s string, a ...any) { f.Errorf(s, a...); f.FailNow() }
func (f *fakeTB) Fatal(a ...any)            { f.Error(a...); f.FailNow() }
func (f *fakeTB) FailNow()                  { f.failed = true; runtime.Goexit() }
func (f *fakeTB) Fail()                     { f.failed = true }
func (f *fakeTB) Failed() bool              { return f.failed }

func mix(parts ...any) uint64 {
	h := sha256.Sum256([]byte(fmt.Sprint(parts...)))
	v := binary.LittleEndian.Uint64(h[:])
	if v == 0 {
		v = 1
	}
	return v
}

// Harness is what a check panics with when it can't decide its case.
type Harness string

// Spec describes a sub-check over cases of type C.
type Spec[C any] struct {
	Name            string
	Quick, Thorough int // cases per run (split over the shards)
	Gen             func(*rapid.T) C
	Check           func(C) *Fail
	// Class labels a case; labels starting with "+" make it non-trivial.
	Class func(C) []string
	// Fixed cases are always run, before the generated ones.
	Fixed func() []C
}

const maxHashes = 400000

var watch struct {
	running atomic.Bool
	n       atomic.Int64
	cur     atomic.Pointer[func() json.RawMessage]
}

// CPULimit is the CPU time after which a single case counts as not terminating.
const CPULimit = 150 * time.Second

// New builds a Sub from a Spec.
func New[C any](s Spec[C]) Sub {
	guarded := func(c C) (f *Fail) {
		defer func() {
			if r := recover(); r != nil {
				if h, ok := r.(Harness); ok { // no verdict on the code
					fmt.Fprintln(os.Stderr, "harness:", string(h))
					os.Exit(4)
				}
				f = Failf("panic: %v\n%s", r, trimStack(debug.Stack()))
			}
		}()
		return s.Check(c)
	}
	return Sub{Name: s.Name, Quick: s.Quick, Thorough: s.Thorough,
		replay: func(raw json.RawMessage) (*Fail, error) {
			var c C
			if err := json.Unmarshal(raw, &c); err != nil {
				return nil, err
			}
			return guarded(c), nil
		},
		run: func(x *ctx) {
			st := &SubStats{Name: s.Name, Classes: map[string]int{}}
			x.res.Subs = append(x.res.Subs, st)
			seen := map[uint64]bool{}
			var firstFail, lastFail json.RawMessage
			var lastMsg string
			stop := make(chan struct{})
			var curCase atomic.Pointer[C]
			go func() { // CPU-time watchdog
				var last int64 = -1
				var base time.Duration
				waiting := 0
				hung := func(cp *C, msg string) {
					raw, _ := json.Marshal(*cp)
					x.res.Violations = append(x.res.Violations, x.viol(s.Name, msg, raw, nil))
					x.write()
					os.Exit(0)
				}
				for {
					select {
					case <-stop:
						return
					case <-time.After(2 * time.Second):
					}
					n := watch.n.Load()
					if n != last {
						last, base, waiting = n, cpuTime(), 0
						continue
					}
					cp := curCase.Load()
					if cp == nil {
						continue
					}
					if cpuTime()-base > CPULimit {
						hung(cp, fmt.Sprintf("case did not terminate within %v of CPU time", CPULimit))
					}
					where, all := allWaiting()
					if waiting++; !all {
						waiting = 0
					}
					if waiting == 5 && watch.n.Load() == n {
						hung(cp, "deadlock: every goroutine waits for another\n"+where)
					}
				}
			}()
			defer close(stop)
			one := func(c C) *Fail {
				watch.n.Add(1)
				curCase.Store(&c)
				if fTrace != "" { // the case this process may die of
					raw, _ := json.Marshal(c)
					raw, _ = json.Marshal(Violation{Sub: s.Name, Case: raw})
					os.WriteFile(fTrace, raw, 0o644)
				}
				f := guarded(c)
				curCase.Store(nil)
				watch.n.Add(1)
				if f != nil && f.Known != "" && x.known[f.Known] {
					if _, ok := x.res.Known[f.Known]; !ok {
						x.res.Known[f.Known] = f.Msg
					}
					st.Classes["known-finding"]++
					f = nil
				}
				if firstFail != nil { // shrinking
					st.Shrink++
				} else {
					st.Evals++
					nontriv := false
					if s.Class != nil {
						for _, l := range s.Class(c) {
							if strings.HasPrefix(l, "+") {
								nontriv = true
							}
							st.Classes[l]++
						}
					} else {
						nontriv = true
					}
					if nontriv && len(seen) < maxHashes {
						raw, _ := json.Marshal(c)
						h := sha256.Sum256(raw)
						k := binary.LittleEndian.Uint64(h[:])
						if !seen[k] {
							seen[k] = true
							if n := len(seen); (n == 1 || n == 7 || n == 40) && len(raw) < 3000 {
								st.Samples = append(st.Samples, raw)
							}
						}
					}
				}
				if f != nil {
					raw, err := json.Marshal(c)
					if err != nil {
						raw = json.RawMessage(`"unmarshalable"`)
					}
					if firstFail == nil {
						firstFail = raw
					}
					lastFail, lastMsg = raw, f.Msg
				}
				return f
			}
			finish := func() {
				if lastFail != nil {
					x.res.Violations = append(x.res.Violations, x.viol(s.Name, lastMsg, lastFail, firstFail))
				}
				for k := range seen {
					st.Hashes = append(st.Hashes, k)
				}
			}
			if s.Fixed != nil {
				for i, c := range s.Fixed() {
					if i%x.nshards != x.shard {
						continue
					}
					if one(c) != nil {
						finish()
						return
					}
				}
			}
			n := s.Quick
			if x.tier == "thorough" {
				n = s.Thorough
			}
			n = int(float64(n)*x.scale)/x.nshards + 1
			if s.Gen == nil || (s.Quick == 0 && s.Thorough == 0) {
				finish()
				return
			}
			flag.Set("rapid.checks", fmt.Sprint(n))
			flag.Set("rapid.seed", fmt.Sprint(mix(x.seed, x.prop.ID, s.Name, x.shard)))
			flag.Set("rapid.nofailfile", "true")
			flag.Set("rapid.shrinktime", "25s")
			tb := &fakeTB{name: "verif-no-such-test-" + x.prop.ID}
			done := make(chan struct{})
			go func() {
				defer close(done)
				rapid.Check(tb, func(rt *rapid.T) {
					c := s.Gen(rt)
					if f := one(c); f != nil {
						rt.Fatalf("violation")
					}
				})
			}()
			<-done
			if tb.failed && lastFail == nil {
				x.res.Error = fmt.Sprintf("generator trouble in %s/%s: %s", x.prop.ID, s.Name, tb.log.String())
			}
			finish()
		}}
}

// allWaiting tells whether no goroutine but the caller's can go on: all wait for
// another to release a lock or use a channel. It also says where.
func allWaiting() (where string, all bool) {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	all = true
	for i, g := range strings.Split(string(buf), "\n\n") {
		if i == 0 { // this one
			continue
		}
		head, _, _ := strings.Cut(g, "\n")
		_, state, _ := strings.Cut(head, "[")
		state, _, _ = strings.Cut(strings.TrimSuffix(state, "]:"), ",")
		switch state {
		case "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock", "sync.WaitGroup.Wait", "sync.Cond.Wait", "semacquire",
			"chan receive", "chan send", "chan receive (nil chan)", "chan send (nil chan)", "select (no cases)":
		default:
			return "", false
		}
		if t := trimStack([]byte(g)); t != "" {
			where += t + "\n"
		}
	}
	return where, all
}

func (x *ctx) viol(sub, msg string, c, first json.RawMessage) Violation {
	return Violation{Prop: x.prop.ID, Sub: sub, Msg: short(msg), Case: c, First: first,
		Seed: x.seed, Shard: x.shard, Nsh: x.nshards, Tier: x.tier}
}

func (x *ctx) write() {
	b, err := json.Marshal(x.res)
	if err == nil {
		err = os.WriteFile(x.out, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "worker output:", err)
		os.Exit(4)
	}
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var keep []string
	for _, l := range lines {
		if strings.Contains(l, "mearaj/bips") && !strings.Contains(l, "zzverif/core") {
			keep = append(keep, strings.TrimSpace(l))
		}
		if len(keep) >= 8 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}
