// Package kit runs the harnesses: units of exploration are distributed over worker
// processes, failures are confirmed in fresh processes, results become evidence.
package kit

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/mc"
)

// Unit is one bounded space of executions.
type Unit struct {
	Prop  string
	Name  string
	Rule  string // what is enumerated
	Race  bool   // runs in the build with the race detector
	Opt   mc.Options
	Body  func(*mc.T)
	Check func(*mc.Result)
}

var gens = map[string]func(tier string) []*Unit{}

// Prop registers the units of a property.
func Prop(id string, gen func(tier string) []*Unit) { gens[id] = gen }

// Also adds to the units of a property.
func Also(id string, gen func(tier string) []*Unit) { more[id] = append(more[id], gen) }

// Large adds a unit of large sizes or a long run: few executions, one schedule each, beyond the sizes at which batches,
// caches, buffers and limits begin. The rule holds the number, which is another in the thorough tier.
func Large(prop, name, rule string, quick, thorough int, body func(t *mc.T, n int)) {
	Also(prop, func(tier string) []*Unit {
		n := quick
		if tier != "quick" {
			n = thorough
		}
		return []*Unit{{
			Name: "large/" + name,
			Rule: fmt.Sprintf(rule, n) + " (one schedule)",
			Opt:  mc.Options{Delay: true, Horizon: 100000000},
			Body: func(t *mc.T) { body(t, n) },
		}}
	})
}

var more = map[string][]func(tier string) []*Unit{}

func units(prop, tier string, race bool) []*Unit {
	g := gens[prop]
	if g == nil {
		return nil
	}
	var r []*Unit
	seen := map[string]bool{}
	all := g(tier)
	for _, m := range more[prop] {
		all = append(all, m(tier)...)
	}
	for _, u := range all {
		if u.Race != race {
			continue
		}
		if seen[u.Name] {
			panic("duplicate unit " + u.Name)
		}
		seen[u.Name] = true
		u.Prop = prop
		r = append(r, u)
	}
	return r
}

// Result is what a worker reports about a unit.
type Result struct {
	Unit       string
	Execs      int
	Ops        int
	Points     int
	States     int
	Bound      int
	BoundDone  int
	Exhaustive bool
	Diverged   int
	Secs       float64
	Fail       string
	Choices    string
	Trace      []string
	Sample     []string
	Nondet     string
	crashed    bool
}

var (
	fProp   = flag.String("prop", "", "property")
	fTier   = flag.String("tier", "quick", "tier")
	fWorker = flag.Bool("worker", false, "")
	fTrace  = flag.String("tracefile", "", "")
	fReplay = flag.String("replay-unit", "", "")
	fChoice = flag.String("choices", "", "")
	fOut    = flag.String("out", "", "result file")
	fBudget = flag.Float64("budget", 60, "seconds")
	fList   = flag.Bool("list", false, "")
	fUnit   = flag.String("unit", "", "only units whose name contains this")
	fJobs   = flag.Int("j", 8, "workers")
)

// Main is the main function of every harness binary.
func Main() {
	flag.Parse()
	us := units(*fProp, *fTier, mc.RaceEnabled)
	switch {
	case *fList:
		for _, u := range us {
			fmt.Println(u.Name, "-", u.Rule)
		}
	case *fWorker:
		worker(us)
	case *fReplay != "":
		replay(us)
	default:
		master(us)
	}
}

func watchdog() {
	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(500 * time.Millisecond)
			p := mc.Progress()
			if p != last || !busy() {
				last, since = p, time.Now()
				continue
			}
			if time.Since(since) > 40*time.Second {
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stderr, "HANG: no operation for 40 s\n%s\n", buf)
				os.Exit(97)
			}
		}
	}()
}

var busyMu sync.Mutex
var busyFlag bool

func busy() bool { busyMu.Lock(); defer busyMu.Unlock(); return busyFlag }
func setBusy(b bool) {
	busyMu.Lock()
	busyFlag = b
	busyMu.Unlock()
}

func setup() {
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(400)
	debug.SetMaxStack(64 << 20)
	watchdog()
}

func worker(us []*Unit) {
	setup()
	byName := map[string]*Unit{}
	for _, u := range us {
		byName[u.Name] = u
	}
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(nil, 1<<20)
	out := json.NewEncoder(os.Stdout)
	for in.Scan() {
		var job struct {
			Unit string
			Secs float64
		}
		if err := json.Unmarshal(in.Bytes(), &job); err != nil {
			panic(err)
		}
		setBusy(true)
		r := runUnit(byName[job.Unit], job.Secs)
		setBusy(false)
		out.Encode(r)
	}
}

var gaveUp string

// GiveUp says why the unit that runs cannot decide anything.
func GiveUp(why string) { gaveUp = why }

func runUnit(u *Unit, secs float64) (r *Result) {
	gaveUp = ""
	defer func() {
		if gaveUp != "" && r.Fail == "" {
			r.Nondet, r.Exhaustive = gaveUp, false
		}
	}()
	start := time.Now()
	r = &Result{Unit: u.Name, Bound: u.Opt.Bound}
	if *fTrace != "" {
		f, err := os.Create(*fTrace)
		if err != nil {
			panic(err)
		}
		mc.TraceExec = func(p []byte) {
			b := append([]byte(fmt.Sprintf("%08d", len(p))), p...)
			f.WriteAt(b, 0)
		}
	} else {
		// The same choices must give the same execution.
		t1, f1 := mc.Trace(u.Opt, nil, u.Body, u.Check)
		if f1 != nil && mc.RaceEnabled {
			// (the race detector reports a race once only: the search would not see it)
			r.Execs, r.Fail, r.Secs = 1, f1.Msg, time.Since(start).Seconds()
			return r
		}
		if f1 == nil {
			t2, f2 := mc.Trace(u.Opt, nil, u.Body, u.Check)
			if f2 != nil && mc.RaceEnabled {
				r.Execs, r.Fail, r.Secs = 2, f2.Msg, time.Since(start).Seconds()
				return r
			}
			if f2 != nil || strings.Join(t1, "\n") != strings.Join(t2, "\n") {
				r.Nondet = "the first execution differs when it is repeated"
				if f2 != nil {
					r.Nondet += ": " + f2.Msg
				}
			}
			if len(t1) > 60 {
				t1 = append(t1[:60:60], "...")
			}
			r.Sample = t1
		}
	}
	states := map[uint64]struct{}{}
	st, fail, choices := mc.Explore(u.Opt, u.Body, u.Check, states, func() bool { return time.Since(start).Seconds() > secs })
	r.Execs, r.Ops, r.Points, r.Exhaustive, r.BoundDone, r.Diverged = st.Execs, st.Ops, st.Points, st.Exhaustive, st.BoundDone, st.Diverged
	r.States = len(states)
	r.Secs = time.Since(start).Seconds()
	if fail != nil {
		r.Fail = fail.Msg
		r.Choices = hex.EncodeToString(choices)
	}
	return r
}

func replay(us []*Unit) {
	setup()
	for _, u := range us {
		if u.Name != *fReplay {
			continue
		}
		c, err := hex.DecodeString(*fChoice)
		if err != nil {
			panic(err)
		}
		setBusy(true)
		trace, f := mc.Trace(u.Opt, c, u.Body, u.Check)
		for i := 0; f == nil && mc.RaceEnabled && i < 3; i++ {
			// (what a process does once only can order what is not ordered later)
			trace, f = mc.Trace(u.Opt, c, u.Body, u.Check)
		}
		if f != nil {
			if len(trace) > 400 {
				trace = append([]string{"..."}, trace[len(trace)-400:]...)
			}
			for _, l := range trace {
				fmt.Println(l)
			}
			fmt.Println("FAIL:", f.Msg)
			os.Exit(5)
		}
		fmt.Println("no violation with these choices")
		os.Exit(0)
	}
	fmt.Fprintln(os.Stderr, "no such unit:", *fReplay)
	os.Exit(2)
}

// tailBuf keeps the end of what is written to it.
type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		// keep the beginning (the cause of a crash) and the end
		t.b = append(t.b[:1<<14:1<<14], t.b[len(t.b)-(1<<15):]...)
	}
	return len(p), nil
}

func (t *tailBuf) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

type proc struct {
	cmd *exec.Cmd
	in  *json.Encoder
	out *bufio.Reader
	err *tailBuf
	cl  func()
}

func start(args ...string) *proc {
	p := &proc{err: &tailBuf{}}
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	p.cmd = exec.Command(self, append([]string{"-worker", "-prop", *fProp, "-tier", *fTier}, args...)...)
	w, err := p.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, err := p.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	p.cmd.Stderr = p.err
	p.in = json.NewEncoder(w)
	p.out = bufio.NewReaderSize(r, 1<<20)
	if err := p.cmd.Start(); err != nil {
		panic(err)
	}
	p.cl = func() { w.Close(); p.cmd.Process.Kill(); p.cmd.Wait() }
	return p
}

// do runs a unit in the worker; ok is false when the worker died.
func (p *proc) do(unit string, secs float64) (*Result, bool) {
	if err := p.in.Encode(map[string]any{"Unit": unit, "Secs": secs}); err != nil {
		return nil, false
	}
	line, err := p.out.ReadBytes('\n')
	if err != nil {
		p.cmd.Wait()
		return nil, false
	}
	r := &Result{}
	if err := json.Unmarshal(line, r); err != nil {
		return nil, false
	}
	return r, true
}

// Violation is a confirmed failure.
type Violation struct {
	Unit    string
	Race    bool
	Msg     string
	Choices string
	Trace   string
}

// Report is the result of the master.
type Report struct {
	Units      []*Result
	Violations []*Violation
	Problems   []string
	Skipped    []string
	Rules      map[string]string
	Secs       float64
}

// interleave orders the units so that each family (the name up to the first
// slash) gets a turn before a family gets its next one.
func interleave(us []*Unit) []*Unit {
	var names []string
	fam := map[string][]*Unit{}
	for _, u := range us {
		f, _, _ := strings.Cut(u.Name, "/")
		if fam[f] == nil {
			names = append(names, f)
		}
		fam[f] = append(fam[f], u)
	}
	var out []*Unit
	for len(out) < len(us) {
		for _, f := range names {
			if l := fam[f]; len(l) > 0 {
				out = append(out, l[0])
				fam[f] = l[1:]
			}
		}
	}
	return out
}

func master(us []*Unit) {
	t0 := time.Now()
	if *fUnit != "" {
		var f []*Unit
		for _, u := range us {
			if strings.Contains(u.Name, *fUnit) {
				f = append(f, u)
			}
		}
		us = f
	}
	rep := &Report{Rules: map[string]string{}}
	deadline := t0.Add(time.Duration(*fBudget * float64(time.Second)))
	var mu sync.Mutex
	next := 0
	stop := false
	var wg sync.WaitGroup
	nw := *fJobs
	if len(us) < nw {
		nw = len(us)
	}
	queue := interleave(us)
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var p *proc
			defer func() {
				if p != nil {
					p.cl()
				}
			}()
			for {
				mu.Lock()
				if stop || next >= len(queue) {
					mu.Unlock()
					return
				}
				u := queue[next]
				waves := math.Ceil(float64(len(queue)-next) / float64(nw))
				next++
				left := time.Until(deadline).Seconds()
				mu.Unlock()
				if left < 0.2 {
					mu.Lock()
					rep.Skipped = append(rep.Skipped, u.Name)
					mu.Unlock()
					continue
				}
				// Three times its share of what is left, but, on a slow
				// machine too, leave something to the units that have not
				// started.
				secs := left
				if waves > 1 {
					secs = min(left*0.85, left/waves*3)
				}
				if p == nil {
					p = start()
				}
				r, ok := p.do(u.Name, secs)
				if !ok {
					msg := p.err.String()
					p.cl()
					p = nil
					r = crashed(u, secs, msg)
				}
				var v *Violation
				prob := ""
				if r.Fail != "" {
					v, prob = confirm(u, r, secs)
				}
				mu.Lock()
				rep.Units = append(rep.Units, r)
				rep.Rules[u.Name] = u.Rule
				if v != nil {
					rep.Violations = append(rep.Violations, v)
					stop = true
				}
				if prob != "" {
					rep.Problems = append(rep.Problems, prob)
				}
				if r.Nondet != "" {
					rep.Problems = append(rep.Problems, u.Name+": "+r.Nondet)
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	for _, u := range us {
		found := false
		for _, r := range rep.Units {
			found = found || r.Unit == u.Name
		}
		for _, s := range rep.Skipped {
			found = found || s == u.Name
		}
		if !found {
			rep.Skipped = append(rep.Skipped, u.Name)
		}
	}
	sort.Slice(rep.Units, func(i, j int) bool { return rep.Units[i].Unit < rep.Units[j].Unit })
	rep.Secs = time.Since(t0).Seconds()
	b, _ := json.MarshalIndent(rep, "", " ")
	if *fOut != "" {
		if err := os.WriteFile(*fOut, b, 0644); err != nil {
			panic(err)
		}
	}
	for _, r := range rep.Units {
		fmt.Printf("%-46s execs=%-8d ops=%-9d states=%-7d bound=%d/%d exhaustive=%v %.1fs %s\n", r.Unit, r.Execs, r.Ops, r.States, r.BoundDone, r.Bound, r.Exhaustive, r.Secs, first(r.Fail))
	}
	for _, s := range rep.Skipped {
		fmt.Println("not run:", s)
	}
	for _, s := range rep.Problems {
		fmt.Println("problem:", s)
	}
	for _, v := range rep.Violations {
		fmt.Printf("violation in %s: %s\n", v.Unit, v.Msg)
	}
}

func first(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return s
}

// crashed runs a unit whose worker died again, noting each execution before it starts.
func crashed(u *Unit, secs float64, msg string) *Result {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "crash")
	if err != nil {
		panic(err)
	}
	tf := filepath.Join(dir, "prefix")
	p := start("-tracefile", tf)
	r, ok := p.do(u.Name, secs*3+20)
	msg2 := p.err.String()
	p.cl()
	if ok {
		if r.Fail == "" {
			r.Nondet = "a worker died and the crash did not repeat: " + firstLines(msg, 12)
		}
		return r
	}
	res := &Result{Unit: u.Name, Bound: u.Opt.Bound, BoundDone: -1, crashed: true}
	res.Fail = "the process died: " + firstLines(msg2, 30)
	b, _ := os.ReadFile(tf)
	if len(b) >= 8 {
		n := 0
		fmt.Sscanf(string(b[:8]), "%d", &n)
		if 8+n <= len(b) {
			res.Choices = hex.EncodeToString(b[8 : 8+n])
		}
	}
	return res
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	for i := range l {
		if len(l[i]) > 300 {
			l[i] = l[i][:300]
		}
	}
	return strings.Join(l, "\n")
}

// confirm replays a failure in fresh processes.
func confirm(u *Unit, r *Result, secs float64) (*Violation, string) {
	self, _ := os.Executable()
	for attempt := 0; attempt < 2; attempt++ {
		for i := 0; i < 5; i++ {
			cmd := exec.Command(self, "-prop", *fProp, "-tier", *fTier, "-replay-unit", u.Name, "-choices", r.Choices)
			var out, errb bytes.Buffer
			te := &tailBuf{}
			cmd.Stdout, cmd.Stderr = &out, te
			_ = errb
			err := cmd.Run()
			if err == nil {
				continue
			}
			code := cmd.ProcessState.ExitCode()
			if code == 0 {
				continue
			}
			tr := out.String() + firstLines(te.String(), 60)
			msg := r.Fail
			if i := strings.LastIndex(tr, "FAIL: "); i >= 0 && code == 5 {
				msg = firstLines(tr[i+6:], 40)
			}
			return &Violation{Unit: u.Name, Race: u.Race, Msg: msg, Choices: r.Choices, Trace: tr}, ""
		}
		// Not reproduced: explore the unit once more in a fresh process.
		p := start()
		r2, ok := p.do(u.Name, secs)
		p.cl()
		if !ok || r2.Fail == "" {
			break
		}
		r = r2
	}
	return nil, fmt.Sprintf("unit %s: a failure could not be reproduced: %s", u.Name, firstLines(r.Fail, 10))
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}
