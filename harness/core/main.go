package core

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"
)

// DataDir holds the committed reference data.
var DataDir string

var (
	fProp, fTier, fOut, fVerif, fReplay, fSub string
	fTrace                                    string
	fChild                                    bool
	fSeed                                     int64
	fShard, fShards                           int
	fScale                                    float64
)

// OnStart runs before any case is generated or replayed.
var OnStart = func() {}

// RegisterFlags registers the driver's flags.
func RegisterFlags() {
	flag.StringVar(&fProp, "vprop", "", "property id")
	flag.StringVar(&fTier, "vtier", "quick", "tier")
	flag.Int64Var(&fSeed, "vseed", 1, "seed")
	flag.IntVar(&fShard, "vshard", -1, "worker shard")
	flag.IntVar(&fShards, "vshards", 7, "number of worker processes")
	flag.StringVar(&fOut, "vout", "", "worker output file")
	flag.StringVar(&fVerif, "verif", "/verif", "framework root")
	flag.StringVar(&fReplay, "vreplay", "", "replay file")
	flag.StringVar(&fTrace, "vtrace", "", "file that names the case being decided")
	flag.BoolVar(&fChild, "vchild", false, "replay in this process")
	flag.StringVar(&fSub, "vsub", "", "only this sub-check")
	flag.Float64Var(&fScale, "vscale", 1, "case-count multiplier")
}

// Main runs the property selected by the flags and returns the exit code.
// extraArgs are passed to worker processes (used by the go test wrapper).
func Main(props []*Prop, extraArgs ...string) int {
	if !flag.Parsed() {
		testing.Init()
		flag.Parse()
	}
	DataDir = filepath.Join(fVerif, "harness", "data")
	if fReplay != "" {
		if !fChild {
			return replayInChild(extraArgs)
		}
		OnStart()
		return replay(props)
	}
	var p *Prop
	for _, q := range props {
		if q.ID == fProp {
			p = q
		}
	}
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property:", fProp)
		return 2
	}
	if fShard >= 0 {
		if !p.Race && !p.Big {
			limitMemory()
		}
		OnStart()
		runWorker(p)
		return 0
	}
	return parent(p, extraArgs)
}

func loadKnown() (map[string]bool, error) {
	known := map[string]bool{}
	b, err := os.ReadFile(filepath.Join(fVerif, "known_findings.txt"))
	if os.IsNotExist(err) {
		return known, nil
	}
	if err != nil {
		return nil, err
	}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=<id> key=<key> <text>
		f := strings.Fields(l)
		if len(f) >= 3 && f[0] == "known:" && strings.HasPrefix(f[2], "key=") {
			known[strings.TrimPrefix(f[1], "property=")+"/"+strings.TrimPrefix(f[2], "key=")] = true
		}
	}
	return known, nil
}

func newCtx(p *Prop) (*ctx, error) {
	all, err := loadKnown()
	if err != nil {
		return nil, err
	}
	mine := map[string]bool{}
	for k := range all {
		if strings.HasPrefix(k, p.ID+"/") {
			mine[strings.TrimPrefix(k, p.ID+"/")] = true
		}
	}
	deep = fTier == "thorough"
	return &ctx{prop: p, tier: fTier, seed: fSeed, shard: fShard, nshards: fShards, known: mine,
		scale: fScale, out: fOut, res: &Result{Known: map[string]string{}}}, nil
}

func runWorker(p *Prop) {
	x, err := newCtx(p)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	for _, s := range p.Subs {
		if fSub != "" && s.Name != fSub {
			continue
		}
		s.run(x)
		if len(x.res.Violations) > 0 || x.res.Error != "" {
			break
		}
	}
	x.write()
}

func parent(p *Prop, extra []string) int {
	start := time.Now()
	tmp, err := os.MkdirTemp("", "verif-run-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	type wres struct {
		r      *Result
		stderr string
		err    error
	}
	results := make([]wres, fShards)
	var wg sync.WaitGroup
	worker := func(i int, more ...string) {
		out := filepath.Join(tmp, fmt.Sprintf("w%d.json", i))
		os.Remove(out)
		args := append([]string{}, extra...)
		args = append(args, "-vprop", p.ID, "-vtier", fTier, "-vseed", fmt.Sprint(fSeed),
			"-vshard", fmt.Sprint(i), "-vshards", fmt.Sprint(fShards), "-vout", out, "-verif", fVerif,
			"-vsub", fSub, "-vscale", fmt.Sprint(fScale))
		args = append(args, more...)
		cmd := exec.Command(self, args...)
		cmd.Dir = tmp
		cmd.Env = append(os.Environ(), "GOMEMLIMIT=3GiB", "GORACE=halt_on_error=1 exitcode=66")
		cmd.Env = append(cmd.Env, fmt.Sprintf("GOMAXPROCS=%d", procs(i, p.Race)))
		var eb strings.Builder
		cmd.Stderr = &eb
		var err error
		if cpus := map[int]int{1: 1, 2: 3}[i]; cpus > 0 && !p.Race {
			err = startOn(cpus, cmd)
		} else {
			err = cmd.Start()
		}
		if err == nil {
			err = cmd.Wait()
		}
		results[i].stderr = eb.String()
		results[i].err = err
		if b, rerr := os.ReadFile(out); rerr == nil && err == nil {
			r := &Result{}
			if jerr := json.Unmarshal(b, r); jerr != nil {
				results[i].err = jerr
			} else {
				results[i].r = r
			}
		} else if err == nil {
			results[i].err = rerr
		}
	}
	for i := 0; i < fShards; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			worker(i)
		}()
	}
	wg.Wait()
	// a worker that died is run again, noting its cases; when it dies again it
	// is the last case that kills it
	traced := map[int]*Violation{}
	again := 0
	for i, w := range results {
		var ee *exec.ExitError
		if !errors.As(w.err, &ee) || ee.ExitCode() == 4 || isRace(w.stderr) || again == 2 {
			continue
		}
		again++
		trace := filepath.Join(tmp, fmt.Sprintf("trace%d.json", i))
		worker(i, "-vtrace", trace)
		if !errors.As(results[i].err, &ee) || ee.ExitCode() == 4 {
			continue
		}
		v := &Violation{}
		if b, err := os.ReadFile(trace); err == nil && json.Unmarshal(b, v) == nil {
			traced[i] = v
		}
	}
	var viols []Violation
	known := map[string]string{}
	bad := ""
	subs := map[string]*SubStats{}
	var order []string
	hashes := map[string]map[uint64]bool{}
	for i, w := range results {
		if w.err != nil {
			switch v := traced[i]; {
			case isRace(w.stderr):
				c, _ := json.Marshal(map[string]any{"report": tail(w.stderr, 6000)})
				viols = append(viols, Violation{Prop: p.ID, Sub: "race-detector", Msg: "data race detected:\n" + firstLines(w.stderr, 40),
					Case: c, Seed: fSeed, Shard: i, Nsh: fShards, Tier: fTier})
			case strings.Contains(w.stderr, "fatal error: stack overflow") || strings.Contains(w.stderr, "goroutine stack exceeds"):
				c, _ := json.Marshal(map[string]any{"report": firstLines(w.stderr, 40)})
				viols = append(viols, Violation{Prop: p.ID, Sub: "stack-overflow", Msg: "unbounded recursion:\n" + firstLines(w.stderr, 20),
					Case: c, Seed: fSeed, Shard: i, Nsh: fShards, Tier: fTier})
			case v != nil:
				viols = append(viols, Violation{Prop: p.ID, Sub: v.Sub, Msg: fmt.Sprintf("the process dies (%v):\n%s", w.err, firstLines(w.stderr, 12)),
					Case: v.Case, Seed: fSeed, Shard: i, Nsh: fShards, Tier: fTier})
			default:
				bad = fmt.Sprintf("worker %d: %v\n%s", i, w.err, tail(w.stderr, 4000))
			}
			continue
		}
		if w.r.Error != "" {
			bad = w.r.Error
		}
		viols = append(viols, w.r.Violations...)
		for k, v := range w.r.Known {
			known[k] = v
		}
		for _, s := range w.r.Subs {
			t := subs[s.Name]
			if t == nil {
				t = &SubStats{Name: s.Name, Classes: map[string]int{}}
				subs[s.Name] = t
				order = append(order, s.Name)
				hashes[s.Name] = map[uint64]bool{}
			}
			t.Evals += s.Evals
			for k, v := range s.Classes {
				t.Classes[k] += v
			}
			for _, h := range s.Hashes {
				hashes[s.Name][h] = true
			}
			if len(t.Samples) < 3 {
				t.Samples = append(t.Samples, s.Samples...)
			}
		}
	}
	// evidence
	evals, distinct := 0, 0
	var samples []any
	per := map[string]any{}
	for _, n := range order {
		s := subs[n]
		s.Distinct = len(hashes[n])
		evals += s.Evals
		distinct += s.Distinct
		per[n] = map[string]any{"evaluations": s.Evals, "distinct_nontrivial": s.Distinct, "classes": s.Classes}
		for i, c := range s.Samples {
			if i < 2 {
				samples = append(samples, map[string]any{"check": n, "case": c})
			}
		}
	}
	if samples == nil {
		samples = []any{}
	}
	ev := map[string]any{
		"property": p.ID, "tier": fTier, "seed": fSeed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations": evals, "distinct_nontrivial": distinct, "rule": p.Rule,
			"samples": samples, "checks": per, "shards": fShards,
		},
		"assumptions": []string{"the standard library, x/crypto hashes, x/text normalisation and rapid are correct",
			"case generation is a pure function of VERIF_SEED"},
		"wall_s":         time.Since(start).Seconds(),
		"violations":     len(viols),
		"known_findings": sortedKeys(known),
	}
	if err := os.MkdirAll(filepath.Join(fVerif, "evidence"), 0o755); err == nil {
		b, _ := json.MarshalIndent(ev, "", " ")
		err = os.WriteFile(filepath.Join(fVerif, "evidence", p.ID+".json"), append(b, '\n'), 0o644)
		if err != nil {
			bad = err.Error()
		}
	}
	for _, k := range sortedKeys(known) {
		fmt.Printf("KNOWN-FINDING: property=%s key=%s %s\n", p.ID, k, oneLine(known[k]))
	}
	if len(viols) > 0 {
		for i, v := range viols {
			dir := filepath.Join(fVerif, "replays")
			os.MkdirAll(dir, 0o755)
			path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", p.ID, v.Sub, v.Shard))
			b, _ := json.MarshalIndent(v, "", " ")
			if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
				fmt.Fprintln(os.Stderr, err)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			if i < 3 {
				fmt.Printf("  check %s: %s\n", v.Sub, short(v.Msg))
				fmt.Printf("  case: %s\n", tail(string(v.Case), 1500))
			}
		}
		return 1
	}
	if bad != "" {
		fmt.Fprintln(os.Stderr, "ERROR:", bad)
		return 2
	}
	if evals == 0 {
		fmt.Fprintln(os.Stderr, "ERROR: nothing was evaluated")
		return 2
	}
	fmt.Printf("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs\n",
		p.ID, fTier, fSeed, evals, distinct, time.Since(start).Seconds())
	return 0
}

// short is a message without the middle of what is very long.
func short(s string) string {
	if len(s) > 4000 {
		s = s[:2500] + " [...] " + s[len(s)-1400:]
	}
	return s
}

// procs is the number of processors a worker may use: results must not
// depend on it.
func procs(shard int, race bool) int {
	n := []int{2, 1, 3, 4, 5, 6, 7}
	if race {
		n = []int{4, 2, 3, 4, 8, 4, 6}
	}
	return n[shard%len(n)]
}

func isRace(stderr string) bool {
	return strings.Contains(stderr, "WARNING: DATA RACE") || strings.Contains(stderr, "fatal error: concurrent map")
}

// replayInChild replays in a process of its own, which the case may kill.
func replayInChild(extra []string) int {
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	cmd := exec.Command(self, append(append([]string{}, extra...), "-vreplay", fReplay, "-verif", fVerif, "-vchild")...)
	var out strings.Builder
	cmd.Stdout = io.MultiWriter(os.Stdout, &out)
	cmd.Stderr = os.Stderr
	err = cmd.Run()
	var ee *exec.ExitError
	switch {
	case err == nil:
		return 0
	case !errors.As(err, &ee):
		fmt.Fprintln(os.Stderr, err)
		return 2
	case strings.Contains(out.String(), "VIOLATION property="):
		return 1
	case strings.Contains(out.String(), replayEnd):
		return 2
	}
	var v Violation
	b, _ := os.ReadFile(fReplay)
	if json.Unmarshal(b, &v) != nil {
		return 2
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n  the process dies: %v\n", v.Prop, fReplay, err)
	return 1
}

const replayEnd = "the replay ends without a verdict"

func replay(props []*Prop) (rc int) {
	defer func() {
		if rc == 2 {
			fmt.Println(replayEnd)
		}
	}()
	return replayCase(props)
}

func replayCase(props []*Prop) int {
	b, err := os.ReadFile(fReplay)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, p := range props {
		if p.ID != v.Prop {
			continue
		}
		runtime.GOMAXPROCS(procs(v.Shard, p.Race))
		if !p.Race && !p.Big {
			limitMemory()
		}
		for _, s := range p.Subs {
			if s.Name != v.Sub {
				continue
			}
			f, err := s.replay(v.Case)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
			if f != nil {
				fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n", p.ID, fReplay, short(f.Msg))
				return 1
			}
			fmt.Printf("the single case passes; re-running check %s with seed %d (the failure may depend on earlier cases)\n", s.Name, v.Seed)
		}
		// history-dependent failure (or race report): re-run the whole search
		fSeed, fShards, fTier, fProp = v.Seed, v.Nsh, v.Tier, v.Prop
		return parent(p, nil)
	}
	fmt.Fprintln(os.Stderr, "no such property:", v.Prop)
	return 2
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}
func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}
func oneLine(s string) string { return strings.Join(strings.Fields(s), " ") }

var deep bool

// Thorough says whether this run explores as deeply as it can.
func Thorough() bool { return deep }
