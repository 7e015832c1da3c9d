package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifharness/gen"
)

// proc is a worker process.
type proc struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	res    chan Result
	errb   *tail
	exited chan struct{}
	cases  int
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 4<<20 { // the head of a crash report is what matters
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

func start(prop string, seed int64, size int, real bool) (*proc, error) {
	mode := "virt"
	if real {
		mode = "real"
	}
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	p := &proc{res: make(chan Result, 64), errb: &tail{}, exited: make(chan struct{})}
	p.cmd = exec.Command(self, "worker", prop, strconv.FormatInt(seed, 10), strconv.Itoa(size), mode)
	procs := props[prop].Procs
	if procs == 0 {
		procs = 3
	}
	p.cmd.Env = append(os.Environ(), "GOMAXPROCS="+strconv.Itoa(procs), "GOTRACEBACK=all", "GOMEMLIMIT=2500MiB", "GORACE=log_path="+self+".race halt_on_error=0 exitcode=0 history_size=4 suppress_equal_stacks=0 suppress_equal_addresses=0")
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	p.cmd.Stderr = p.errb
	r, w, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	p.cmd.ExtraFiles = []*os.File{w}
	if p.in, err = p.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	if err := p.cmd.Start(); err != nil {
		return nil, err
	}
	w.Close()
	go func() {
		br := bufio.NewReaderSize(r, 1<<20)
		for {
			line, err := br.ReadBytes('\n')
			if err != nil {
				break
			}
			var x Result
			if json.Unmarshal(line, &x) == nil {
				p.res <- x
			}
		}
		r.Close()
		p.cmd.Wait()
		if raceOn {
			os.Remove(fmt.Sprintf("%s.race.%d", self, p.cmd.Process.Pid))
		}
		close(p.exited)
		close(p.res)
	}()
	return p, nil
}

func (p *proc) send(c command) error {
	b, err := json.Marshal(c)
	if err != nil {
		return err
	}
	_, err = p.in.Write(append(b, '\n'))
	return err
}

func (p *proc) kill() {
	p.cmd.Process.Kill()
	for range p.res {
	}
}

// dump has the process print its goroutines and end.
func (p *proc) dump() {
	p.cmd.Process.Signal(syscall.SIGQUIT)
	select {
	case <-p.exited:
	case <-time.After(10 * time.Second):
	}
	p.kill()
}

// cpu returns the CPU time used by the process in seconds, and whether any of its threads is runnable.
func (p *proc) cpu() (float64, bool) {
	dirs, _ := filepath.Glob(fmt.Sprintf("/proc/%d/task/*/stat", p.cmd.Process.Pid))
	busy := false
	for _, d := range dirs {
		b, err := os.ReadFile(d)
		if err != nil {
			continue
		}
		if i := bytes.LastIndexByte(b, ')'); i >= 0 && i+2 < len(b) && (b[i+2] == 'R' || b[i+2] == 'D') {
			busy = true
		}
	}
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", p.cmd.Process.Pid))
	if err != nil {
		return 0, true
	}
	f := strings.Fields(string(b[bytes.LastIndexByte(b, ')')+1:]))
	if len(f) < 13 {
		return 0, true
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	s, _ := strconv.ParseFloat(f[12], 64)
	return (u + s) / 100, busy
}

const (
	endOK = iota
	endCrash
	endFreeze
	endSpin
	endLost // killed from outside, out of memory, not started
	endErr  // failure of the harness
)

// outcome is the end of a stretch of cases.
type outcome struct {
	how    int
	at     int // the case that was running
	detail string
}

var (
	freezeAfter = 20 * time.Second
	spinAfter   = 90.0 // seconds of CPU time
)

// collect receives results until the command is done or something goes wrong.
func (p *proc) collect(on func(Result)) outcome {
	at := -2
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
	last := time.Now()
	cpu0, _ := p.cpu()
	cpuL, idle := cpu0, time.Now()
	for {
		select {
		case r, ok := <-p.res:
			if !ok {
				return p.classify(at)
			}
			last = time.Now()
			idle = last
			if r.S != nil {
				at = *r.S
				cpu0, _ = p.cpu()
				cpuL = cpu0
				continue
			}
			if r.D {
				return outcome{how: endOK}
			}
			if r.R != nil {
				if r.Err != "" {
					p.kill()
					return outcome{endErr, at, r.Err}
				}
				at = -2
				on(r)
			}
		case <-tick.C:
			c, busy := p.cpu()
			if busy || c-cpuL > 0.05 {
				idle, cpuL = time.Now(), c
			}
			if time.Since(idle) > freezeAfter {
				p.dump()
				return outcome{endFreeze, at, p.errb.String()}
			}
			if c-cpu0 > spinAfter && time.Since(last) > 30*time.Second {
				p.dump()
				return outcome{endSpin, at, p.errb.String()}
			}
		}
	}
}

func (p *proc) classify(at int) outcome {
	e := p.errb.String()
	ws, _ := p.cmd.ProcessState.Sys().(syscall.WaitStatus)
	if ws.Signaled() && ws.Signal() == syscall.SIGKILL {
		return outcome{endLost, at, "killed"}
	}
	if strings.Contains(e, "out of memory") || strings.Contains(e, "cannot allocate memory") || strings.Contains(e, "failed to create new OS thread") {
		return outcome{endLost, at, e}
	}
	if i := strings.Index(e, "WARNING: DATA RACE"); i >= 0 {
		return outcome{endCrash, at, e[i:]}
	}
	i := strings.Index(e, "panic: ")
	if j := strings.Index(e, "fatal error: "); j >= 0 && (i < 0 || j < i) {
		i = j
	}
	if i < 0 {
		return outcome{endErr, at, "worker ended unexpectedly: " + p.cmd.ProcessState.String() + "\n" + e}
	}
	e = e[i:]
	// The goroutine at fault is the first one printed.
	g := e
	if k := strings.Index(e, "\ngoroutine "); k >= 0 {
		g = e[k+1:]
		if m := strings.Index(g, "\n\n"); m >= 0 {
			g = g[:m]
		}
	}
	if noiseStack(g) && !(strings.Contains(g, "main.") && !noiseFirst(g)) {
		return outcome{endCrash, at, head(e, 6000)}
	}
	return outcome{endErr, at, head(e, 6000)}
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// finding is a violation found.
type finding struct {
	i       int
	msg     string
	kind    string
	plan    json.RawMessage
	choices []uint64
	sure    bool
}

type run struct {
	p        *Prop
	tier     string
	seed     int64
	size     int
	dir      string
	mu       sync.Mutex
	next     int
	total    int
	chunk    int
	evals    int
	disc     int
	incs     map[string]int
	labels   map[string]int
	hashes   map[uint64]struct{}
	samples  []json.RawMessage
	known    map[string]string
	found    []finding
	herr     string
	stop     bool
	deadline time.Time
	t0       time.Time
	notes    []string
}

func (r *run) take() (int, int, bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.stop || r.next >= r.total || time.Now().After(r.deadline) {
		return 0, 0, false
	}
	a := r.next
	b := a + r.chunk
	if b > r.total {
		b = r.total
	}
	r.next = b
	return a, b, true
}

func (r *run) add(x Result) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evals++
	if x.Disc {
		r.disc++
	}
	if x.Inc != "" {
		r.incs[x.Inc]++
	}
	for l, n := range x.L {
		r.labels[l] += n
	}
	if x.NT && !x.Disc {
		r.hashes[x.H] = struct{}{}
		if len(r.samples) < 3 && len(x.Plan) > 0 && len(x.Plan) < 4000 {
			r.samples = append(r.samples, x.Plan)
		}
	}
	for k, v := range x.Known {
		if _, ok := r.known[k]; !ok {
			r.known[k] = v
		}
	}
	if x.V != "" {
		r.found = append(r.found, finding{i: *x.R, msg: x.V, kind: x.K, plan: x.Plan, choices: x.Ch, sure: x.K == "race"})
		if len(r.found) >= 3 {
			r.stop = true
		}
	}
}

func (r *run) work() {
	var p *proc
	defer func() {
		if p != nil {
			p.in.Close()
			p.kill()
		}
	}()
	for {
		a, b, ok := r.take()
		if !ok {
			return
		}
		for a < b {
			if p != nil && r.p.Restart > 0 && p.cases >= r.p.Restart {
				p.in.Close()
				p.kill()
				p = nil
			}
			if p == nil {
				var err error
				if p, err = start(r.p.ID, r.seed, r.size, false); err != nil {
					r.fail("cannot start a worker: " + err.Error())
					return
				}
			}
			if p.send(command{Op: "range", From: a, To: b}) != nil {
				p.kill()
				p = nil
				r.fail("a worker went away")
				return
			}
			o := p.collect(func(x Result) { r.add(x); p.cases++; a = *x.R + 1 })
			if o.how == endOK {
				break
			}
			p = nil
			if o.at == -2 {
				o.at = a
			}
			a = o.at + 1
			r.mu.Lock()
			r.evals++
			r.mu.Unlock()
			switch o.how {
			case endErr:
				r.fail(o.detail)
				return
			case endLost:
				r.mu.Lock()
				r.incs["worker lost"]++
				many := r.incs["worker lost"] > 20
				r.mu.Unlock()
				if many {
					r.fail("workers keep getting lost: " + o.detail)
					return
				}
			case endCrash:
				r.crashed(o.at, "crash", "the process crashed: "+head(o.detail, 4000))
			case endSpin:
				r.crashed(o.at, "spin", "the case never ends, using the processor all the time: "+head(o.detail, 4000))
			case endFreeze:
				r.froze(o)
			}
			r.mu.Lock()
			stop := r.stop
			r.mu.Unlock()
			if stop {
				return
			}
		}
	}
}

func (r *run) planOf(i int) (json.RawMessage, []uint64) {
	s := gen.New(r.seed, r.p.ID, i, r.size)
	js, _ := json.Marshal(r.p.gen(s))
	return js, s.Out
}

func (r *run) crashed(i int, kind, msg string) {
	plan, ch := r.planOf(i)
	r.mu.Lock()
	defer r.mu.Unlock()
	r.found = append(r.found, finding{i: i, msg: msg, kind: kind, plan: plan, choices: ch})
	if len(r.found) >= 3 || kind == "spin" {
		r.stop = true
	}
}

// froze handles a case in which the virtual clock cannot move on because of goroutines blocked on locks. It is decided
// on the real clock.
func (r *run) froze(o outcome) {
	plan, ch := r.planOf(o.at)
	saveDump(o.detail)
	r.mu.Lock()
	n := r.incs["frozen under the virtual clock"]
	r.incs["frozen under the virtual clock"]++
	if n >= 3 {
		r.stop = true
	}
	r.mu.Unlock()
	if n >= 3 {
		return
	}
	for try := 0; try < 2; try++ {
		if msg := realRun(r.p, r.seed, r.size, plan); msg != "" {
			r.mu.Lock()
			r.found = append(r.found, finding{i: o.at, msg: msg, kind: "freeze", plan: plan, choices: ch, sure: true})
			r.stop = true
			r.mu.Unlock()
			return
		}
	}
}

// saveDump keeps a dump of goroutines for the developer.
func saveDump(s string) {
	if d := os.Getenv("VERIF_DUMPS"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/%d", d, time.Now().UnixNano()), []byte(s), 0o644)
	}
}

// realRun runs a plan on the real clock and returns a message if something in it hangs.
func realRun(p *Prop, seed int64, size int, plan json.RawMessage) string {
	w, err := start(p.ID, seed, size, true)
	if err != nil {
		return ""
	}
	defer w.kill()
	if w.send(command{Op: "plan", Plan: plan}) != nil {
		return ""
	}
	t := time.After(170 * time.Second)
	for {
		select {
		case x, ok := <-w.res:
			if !ok {
				if o := w.classify(-1); o.how == endCrash {
					return "the process crashed: " + head(o.detail, 4000)
				}
				return ""
			}
			if x.R != nil {
				if x.V != "" && x.K == "hang" {
					return "on the real clock: " + x.V
				}
				return ""
			}
		case <-t:
			w.dump()
			e := w.errb.String()
			saveDump(e)
			for _, g := range strings.Split(e, "\n\n") {
				l, _, _ := strings.Cut(g, "\n")
				if noiseFirst(g) && strings.Contains(l, " minutes") && (strings.Contains(l, "sync.") || strings.Contains(l, "semacquire")) {
					return "goroutines are blocked on a lock for minutes: " + head(g, 3000)
				}
			}
			return ""
		}
	}
}

func (r *run) fail(msg string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.herr == "" {
		r.herr = msg
	}
	r.stop = true
}

// tester runs single plans in a worker process that is replaced when it dies.
type tester struct {
	p    *Prop
	seed int64
	size int
	w    *proc
	n    int
}

func (t *tester) close() {
	if t.w != nil {
		t.w.in.Close()
		t.w.kill()
		t.w = nil
	}
}

// try returns the violation message of one run, or "".
func (t *tester) try(c command) (string, Result) {
	if t.w == nil {
		w, err := start(t.p.ID, t.seed, t.size, false)
		if err != nil {
			return "", Result{}
		}
		t.w = w
		t.n = 0
	}
	var got Result
	if t.w.send(c) != nil {
		t.w.kill()
		t.w = nil
		return "", got
	}
	o := t.w.collect(func(x Result) { got = x })
	t.n++
	if o.how != endOK {
		t.w = nil
		switch o.how {
		case endCrash:
			return "the process crashed: " + o.detail, got
		case endSpin:
			return "the case never ends, using the processor all the time: " + o.detail, got
		}
		return "", got
	}
	if t.p.Restart > 0 && t.n >= t.p.Restart {
		t.close()
	}
	return got.V, got
}

// shrink returns a smaller plan that still fails.
func (r *run) shrink(f finding, tries int, budget time.Duration) finding {
	t := &tester{p: r.p, seed: r.seed, size: r.size}
	defer t.close()
	end := time.Now().Add(budget)
	best := f
	attempt := func(ch []uint64) bool {
		for i := 0; i < tries; i++ {
			if time.Now().After(end) {
				return false
			}
			if m, x := t.try(command{Op: "choices", Ch: ch}); m != "" {
				best.msg = m
				best.kind = x.K
				if x.Ch != nil {
					best.choices, best.plan = x.Ch, x.Plan
				} else {
					s := gen.Replay(ch, r.size)
					best.plan, _ = json.Marshal(r.p.gen(s))
					best.choices = s.Out
				}
				return true
			}
		}
		return false
	}
	for improved := true; improved && time.Now().Before(end); {
		improved = false
		for n := len(best.choices) / 2; n >= 1; n /= 2 {
			for i := len(best.choices) - n; i >= 0 && time.Now().Before(end); i -= n {
				if i+n > len(best.choices) {
					continue
				}
				ch := append(append([]uint64(nil), best.choices[:i]...), best.choices[i+n:]...)
				if l := len(best.choices); attempt(ch) && len(best.choices) < l {
					improved = true
				}
			}
		}
		for n := 8; n >= 1; n /= 2 {
			for i := 0; i+n <= len(best.choices) && time.Now().Before(end); i += n {
				ch := append([]uint64(nil), best.choices...)
				z := false
				for k := i; k < i+n; k++ {
					z = z || ch[k] != 0
					ch[k] = 0
				}
				if z && attempt(ch) {
					improved = true
				}
			}
		}
		for i := 0; i < len(best.choices) && time.Now().Before(end); i++ {
			lo := uint64(0)
			for k := 0; k < 12 && i < len(best.choices) && best.choices[i] > lo; k++ {
				ch := append([]uint64(nil), best.choices...)
				ch[i] = lo + (ch[i]-lo)/2
				old := best.choices[i]
				if attempt(ch) {
					improved = improved || (i < len(best.choices) && best.choices[i] < old)
				} else {
					lo = ch[i] + 1
				}
				if time.Now().After(end) {
					break
				}
			}
		}
	}
	return best
}

// confirm decides about the violations found and returns the one to be reported.
func (r *run) confirm() (finding, bool) {
	sort.Slice(r.found, func(i, j int) bool { return r.found[i].i < r.found[j].i })
	for _, f := range r.found {
		if f.sure && f.kind != "race" {
			return f, true
		}
	}
	budget := time.Now().Add(150 * time.Second)
	for _, f := range r.found {
		t := &tester{p: r.p, seed: r.seed, size: r.size}
		hits, runs := 0, 0
		for runs < 40 && hits < 3 && time.Now().Before(budget) {
			runs++
			if m, _ := t.try(command{Op: "plan", Plan: f.plan}); m != "" {
				hits++
			}
		}
		t.close()
		if hits > 0 {
			tries := 1
			if runs > hits {
				tries = runs/hits + 1
				if tries > 6 {
					tries = 6
				}
			}
			if f.kind == "spin" {
				return f, true
			}
			return r.shrink(f, tries, 40*time.Second), true
		}
	}
	for i, f := range r.found {
		if f.sure || i > 0 {
			return f, true
		}
	}
	return finding{}, false
}

func drive(prop, tier string, seed int64, dir string) int {
	p := props[prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", prop)
		return 2
	}
	r := &run{p: p, tier: tier, seed: seed, dir: dir, size: 1, total: p.Quick, incs: map[string]int{}, labels: map[string]int{},
		hashes: map[uint64]struct{}{}, known: map[string]string{}, t0: time.Now()}
	limit := 240 * time.Second
	if tier == "thorough" {
		r.size, r.total = 3, p.Thorough
		limit = 40 * time.Minute
	}
	if v := os.Getenv("VERIF_CASES"); v != "" {
		r.total, _ = strconv.Atoi(v)
	}
	if v := os.Getenv("VERIF_LIMIT"); v != "" {
		d, err := time.ParseDuration(v)
		if err == nil {
			limit = d
		}
	}
	r.deadline = r.t0.Add(limit)
	workers := 8
	r.chunk = r.total / (workers * 24)
	if r.chunk < 1 {
		r.chunk = 1
	}
	if r.chunk > 500 {
		r.chunk = 500
	}
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); r.work() }()
	}
	wg.Wait()
	if r.herr != "" && len(r.found) == 0 {
		fmt.Fprintln(os.Stderr, "ERROR of the check:", r.herr)
		return 2
	}
	listed := loadKnown(filepath.Join(dir, "known-findings.txt"), prop)
	var report *finding
	for sig, msg := range r.known {
		if _, ok := listed[sig]; !ok {
			report = &finding{msg: msg + " (" + sig + ")", kind: "unlisted finding"}
		}
	}
	if f, ok := r.confirm(); ok {
		report = &f
	} else if len(r.found) > 0 {
		r.notes = append(r.notes, fmt.Sprintf("one failure in case %d never happened again and was not reported: %s", r.found[0].i, head(r.found[0].msg, 1000)))
		fmt.Fprintln(os.Stderr, "note:", r.notes[0])
	}
	viol := 0
	if report != nil {
		viol = 1
	}
	if err := r.evidence(viol); err != nil {
		fmt.Fprintln(os.Stderr, "ERROR writing evidence:", err)
		return 2
	}
	for sig, text := range listed {
		if _, ok := r.known[sig]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, text)
		} else if report == nil {
			fmt.Fprintf(os.Stderr, "note: listed finding %s was not seen in this run\n", sig)
		}
	}
	if report != nil {
		path := r.save(*report)
		fmt.Printf("property %s is violated (case %d of seed %d): %s\n", prop, report.i, seed, head(report.msg, 3000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		return 1
	}
	fmt.Printf("property %s held on %d cases (%d distinct non-trivial) in %.1fs\n", prop, r.evals, len(r.hashes), time.Since(r.t0).Seconds())
	return 0
}

func loadKnown(path, prop string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "known: property="+prop+" sig=")
		if !ok {
			continue
		}
		sig, text, _ := strings.Cut(rest, " ")
		out[sig] = text
	}
	return out
}

func (r *run) save(f finding) string {
	h := fnv.New32a()
	h.Write(f.plan)
	rel := filepath.Join("replays", fmt.Sprintf("%s-%08x.json", r.p.ID, h.Sum32()))
	os.MkdirAll(filepath.Join(r.dir, "replays"), 0o755)
	b, _ := json.MarshalIndent(map[string]any{
		"property": r.p.ID, "seed": r.seed, "case": f.i, "size": r.size, "kind": f.kind,
		"message": f.msg, "plan": f.plan, "choices": f.choices,
	}, "", " ")
	os.WriteFile(filepath.Join(r.dir, rel), b, 0o644)
	return rel
}

func (r *run) evidence(viol int) error {
	os.MkdirAll(filepath.Join(r.dir, "evidence"), 0o755)
	samples := []any{}
	for _, s := range r.samples {
		samples = append(samples, s)
	}
	ass := append([]string{
		"The code runs over an in-memory network hooked in below package net and, where schedules matter, under the virtual clock of testing/synctest; both behave like TCP and real time as far as the property is concerned.",
		"Absence of violations is shown for the generated cases only.",
	}, r.p.Assume...)
	cov := map[string]any{
		"evaluations":         r.evals,
		"distinct_nontrivial": len(r.hashes),
		"rule":                r.p.Rule,
		"samples":             samples,
		"classes":             r.labels,
		"discarded":           r.disc,
		"undecided":           r.incs,
		"planned":             r.total,
	}
	if len(r.notes) > 0 {
		cov["notes"] = r.notes
	}
	b, err := json.MarshalIndent(map[string]any{
		"property": r.p.ID, "tier": r.tier, "seed": r.seed, "level": "exploration",
		"coverage": cov, "assumptions": ass, "wall_s": time.Since(r.t0).Seconds(), "violations": viol,
	}, "", " ")
	if err != nil {
		return err
	}
	p := filepath.Join(r.dir, "evidence", r.p.ID+".json")
	if err := os.WriteFile(p+".tmp", b, 0o644); err != nil {
		return err
	}
	return os.Rename(p+".tmp", p)
}

func replay(file string, n int) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var x struct {
		Property string          `json:"property"`
		Seed     int64           `json:"seed"`
		Size     int             `json:"size"`
		Plan     json.RawMessage `json:"plan"`
	}
	if err := json.Unmarshal(b, &x); err != nil || props[x.Property] == nil {
		fmt.Fprintln(os.Stderr, "bad replay file", err)
		return 2
	}
	t := &tester{p: props[x.Property], seed: x.Seed, size: x.Size}
	defer t.close()
	for i := 0; i < n; i++ {
		if m, _ := t.try(command{Op: "plan", Plan: x.Plan}); m != "" {
			fmt.Printf("run %d: %s\nVIOLATION property=%s replay=%s\n", i+1, m, x.Property, file)
			return 1
		}
	}
	fmt.Printf("held in %d runs\n", n)
	return 0
}
