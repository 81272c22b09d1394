//go:build linux

package checks

import (
	"bytes"
	"context"
	"crypto/rand"
	"expvar"
	"flag"
	"fmt"
	"log"
	"log/slog"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"slices"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/mearaj/bips/bip39"
	"github.com/mearaj/bips/zzverif/core"
)

// ------------------------------------------------------------------ X08

// x08 is a sequence of calls after which the process has to be as before.
type x08 struct {
	Ops  []op
	List int
	Idle bool // no call at all: a new process that has the packages loaded

	Series *x09kept // many different requests of one kind instead
}

var x08room struct {
	dir   string
	out   *os.File // takes the place of standard output and error
	saved [2]int
}

// x08enter makes a scratch directory the place for files of any kind.
func x08enter() {
	if x08room.dir != "" {
		return
	}
	dir, err := os.MkdirTemp("", "x08-")
	if err != nil {
		panic(err)
	}
	if x08room.out, err = os.Create(dir + ".out"); err != nil {
		panic(err)
	}
	for _, v := range []string{"HOME", "TMPDIR", "XDG_CACHE_HOME", "XDG_CONFIG_HOME", "XDG_DATA_HOME", "XDG_RUNTIME_DIR", "XDG_STATE_HOME"} {
		os.Setenv(v, dir)
	}
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	x08room.dir = dir
	for i := range x08room.saved {
		if x08room.saved[i], err = syscall.Dup(i + 1); err != nil {
			panic(err)
		}
		syscall.CloseOnExec(x08room.saved[i])
	}
}

func tree(dir string) []string {
	var out []string
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && p != dir {
			out = append(out, fmt.Sprintf("%s (%d bytes, %v)", strings.TrimPrefix(p, dir+"/"), i.Size(), i.Mode()))
		}
		return nil
	})
	return out
}

func openFiles() []string {
	var out []string
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		l, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err == nil && !strings.HasPrefix(l, "anon_inode:") && !strings.HasPrefix(l, "/proc/") {
			out = append(out, e.Name()+" -> "+l)
		}
	}
	return out
}

// written is the number of bytes this process has written to anything.
func written() int64 {
	b, err := os.ReadFile("/proc/self/io")
	if err != nil {
		return 0
	}
	for _, l := range strings.Split(string(b), "\n") {
		if v, ok := strings.CutPrefix(l, "wchar: "); ok {
			n, _ := strconv.ParseInt(v, 10, 64)
			return n
		}
	}
	return 0
}

func settings() map[string]string {
	cwd, _ := os.Getwd()
	gc := debug.SetGCPercent(100)
	debug.SetGCPercent(gc)
	umask := syscall.Umask(0o22)
	syscall.Umask(umask)
	var lim syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim)
	var zone string
	if time.Local != nil {
		zone = time.Local.String()
	}
	env := os.Environ()
	slices.Sort(env)
	stack := debug.SetMaxStack(1 << 29)
	debug.SetMaxStack(stack)
	threads := debug.SetMaxThreads(10000)
	debug.SetMaxThreads(threads)
	fault := debug.SetPanicOnFault(false)
	debug.SetPanicOnFault(fault)
	here := make([]byte, 100)
	here = here[:runtime.Stack(here, false)]
	here, _, _ = bytes.Cut(here, []byte("\n"))
	flags, metrics := 0, 0
	flag.VisitAll(func(*flag.Flag) { flags++ })
	expvar.Do(func(expvar.KeyValue) { metrics++ })
	return map[string]string{
		"working directory": cwd,
		"environment":       strings.Join(env, "\n"),
		"GC percentage":     strconv.Itoa(gc),
		"memory limit":      fmt.Sprint(debug.SetMemoryLimit(-1)),
		"GOMAXPROCS":        strconv.Itoa(runtime.GOMAXPROCS(0)),
		"stack limit":       strconv.Itoa(stack),
		"thread limit":      strconv.Itoa(threads),
		"panic on fault":    fmt.Sprint(fault),
		"caller's thread":   fmt.Sprint(bytes.Contains(here, []byte("locked to thread"))),
		"profiling":         fmt.Sprint(runtime.MemProfileRate, runtime.SetMutexProfileFraction(-1)),
		"command line":      fmt.Sprintf("%q, %d flags, %v", os.Args, flags, flag.Parsed()),
		"shared variables":  fmt.Sprintf("%d expvars", metrics),
		"umask":             strconv.Itoa(umask),
		"file limit":        fmt.Sprint(lim),
		"time zone":         zone,
		"random source":     fmt.Sprintf("%p", rand.Reader),
		"default logger":    fmt.Sprintf("%p %q %d", log.Writer(), log.Prefix(), log.Flags()),
		"slog's level":      fmt.Sprintf("%p %v", slog.Default(), slog.Default().Enabled(context.Background(), slog.LevelDebug)),
		"handled signals":   fmt.Sprint(signal.Ignored(syscall.SIGINT), signal.Ignored(syscall.SIGTERM), signal.Ignored(syscall.SIGHUP)),
		"standard files":    fmt.Sprintf("%p %p %p", os.Stdin, os.Stdout, os.Stderr),
		"open files":        strings.Join(openFiles(), "\n"),
	}
}

// strangers is a goroutine started by neither the harness nor the runtime.
func strangers() string {
	buf := make([]byte, 1<<20)
	for _, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
		i := strings.LastIndex(g, "created by ")
		if i < 0 {
			continue
		}
		by, _, _ := strings.Cut(g[i+len("created by "):], " in goroutine")
		if !strings.Contains(by, "/zzverif/") && !strings.HasPrefix(by, "runtime.") && !strings.HasPrefix(by, "os/exec.") {
			return g
		}
	}
	return ""
}

// x08idle starts this program without doing anything.
func x08idle() *Fail {
	self, err := os.Executable()
	if err != nil {
		return nil
	}
	dir, err := os.MkdirTemp(x08room.dir, "idle-")
	if err != nil {
		return nil
	}
	defer os.RemoveAll(dir)
	cmd := exec.Command(self)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "VERIF_IDLE=1", "HOME="+dir, "TMPDIR="+dir)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Run(); err != nil {
		return nil
	}
	if out.Len() > 0 {
		return failf("a program that only imports the packages prints %q", short(out.String()))
	}
	if fs := tree(dir); len(fs) > 0 {
		return failf("a program that only imports the packages leaves files: %v", fs)
	}
	return nil
}

// Idle is the program that does nothing but look around.
func Idle() {
	time.Sleep(20 * time.Millisecond) // what init functions started has a chance
	if g := strangers(); g != "" {
		fmt.Println("a goroutine is running:", g)
	}
}

func checkX08(c x08) *Fail {
	x08enter()
	if c.Idle {
		return x08idle()
	}
	if c.List > 0 {
		bip39.SetWordList(libList(c.List))
		defer bip39.SetWordList(libList(0))
	}
	if c.Series != nil {
		pubs := somePub()
		for i := 0; i < c.Series.N; i++ {
			c.Ops = append(c.Ops, c.Series.request(i, pubs))
		}
	}
	// prepared beforehand: only the calls themselves are watched
	ins := func() (ins []*input) {
		for _, o := range c.Ops {
			ins = append(ins, o.prep())
		}
		return ins
	}
	was := settings()
	call := func(ins []*input) {
		for _, in := range ins {
			in.run(&state{})
		}
	}
	outs := func() string { return strings.Join(kindsOf(c.Ops), ", ") }
	prepared := ins()
	var n int64
	func() {
		x08room.out.Truncate(0)
		x08room.out.Seek(0, 0)
		syscall.Dup2(int(x08room.out.Fd()), 1)
		syscall.Dup2(int(x08room.out.Fd()), 2)
		defer func() {
			syscall.Dup2(x08room.saved[0], 1)
			syscall.Dup2(x08room.saved[1], 2)
		}()
		n = written()
		call(prepared)
		n = written() - n
	}()
	if b, _ := os.ReadFile(x08room.out.Name()); len(b) > 0 {
		return failf("%s: printed %q", outs(), short(string(b)))
	}
	if fs := tree(x08room.dir); len(fs) > 0 {
		for _, e := range fs {
			os.RemoveAll(filepath.Join(x08room.dir, strings.Fields(e)[0]))
		}
		return failf("%s: left files: %v", outs(), fs)
	}
	for i := 0; n != 0 && c.Series == nil; i++ { // the Go runtime writes now and then, too
		if i == 20 {
			return failf("%s: wrote %d bytes somewhere", outs(), n)
		}
		prepared = ins()
		n = written()
		call(prepared)
		n = written() - n
	}
	now := settings()
	for _, k := range sortedNames(was) {
		for i := 0; now[k] != was[k]; i++ { // finalizers may close files
			if i == 3 {
				return failf("%s: the %s changed from %q to %q", outs(), k, was[k], now[k])
			}
			runtime.GC()
			time.Sleep(10 * time.Millisecond)
			now = settings()
		}
	}
	for i := 0; ; i++ {
		g := ""
		if runtime.NumGoroutine() > 1 {
			g = strangers()
		}
		if g == "" {
			break
		}
		if i == 100 {
			return failf("%s: left a goroutine running: %s", outs(), short(g))
		}
		time.Sleep(time.Duration(i) * time.Millisecond)
	}
	return nil
}

func sortedNames(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	slices.Sort(out)
	return out
}

func kindsOf(ops []op) []string {
	var out []string
	for i, o := range ops {
		if i == 8 {
			return append(out, fmt.Sprintf("and %d more", len(ops)-i))
		}
		out = append(out, o.K)
	}
	return out
}

var specX08 = core.Spec[x08]{
	Name: "traces", Quick: 24000, Thorough: 700000,
	Gen: func(t *T) x08 {
		c := x08{}
		if oneIn(t, "list", 4) {
			c.List = pick(t, "li", len(listNames))
		}
		p := genPool(t, []int{c.List})
		for i, n := 0, 1+pick(t, "n", 6); i < n; i++ {
			if pick(t, "weird", 3) == 0 {
				c.Ops = append(c.Ops, genWeirdOp(t))
			} else {
				c.Ops = append(c.Ops, p.genOp(t, allKinds))
			}
		}
		return c
	},
	Fixed: func() []x08 {
		cs := []x08{{Idle: true}}
		for i, k := range allKinds {
			n := 4200
			if slowKinds[k] {
				n = 300
			}
			for way := -1; way < 4; way++ {
				if way >= 0 && k != "NewSeed" {
					n = 4200 // refused before the slow part
				}
				cs = append(cs, x08{Series: &x09kept{K: k, Seed: uint32(i), N: n, Bad: way >= 0, Way: max(way, 0)}})
			}
		}
		return cs
	},
	Check: checkX08,
	Class: func(c x08) []string {
		if c.Idle {
			return []string{"+import-only"}
		}
		if c.Series != nil {
			return []string{"+series-" + c.Series.K}
		}
		seen := map[string]bool{}
		var out []string
		for _, k := range kindsOf(c.Ops) {
			if !seen[k] {
				seen[k] = true
				out = append(out, "+op-"+k)
			}
		}
		return out
	},
}
