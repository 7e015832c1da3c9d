package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"verifharness/gen"
	"verifharness/vnet"
)

// C is one case in execution.
type C struct {
	mu     sync.Mutex
	viol   string
	kind   string // "", "hang", "known:<sig>"
	known  map[string]string
	labels map[string]int
	nt     bool
	disc   bool
	inc    string
	real   bool // run on the real clock
	seedB  uint64
}

// Fail records a violation; the first one counts.
func (c *C) Fail(format string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.viol == "" {
		c.viol = fmt.Sprintf(format, a...)
		c.kind = ""
	}
}

// Hang records that something never ended.
func (c *C) Hang(format string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.viol == "" {
		c.viol = fmt.Sprintf(format, a...)
		c.kind = "hang"
		if f := os.Getenv("VERIF_STACKS"); f != "" { // for looking into a hang that is hard to reproduce
			os.WriteFile(fmt.Sprintf("%s.%d", f, time.Now().UnixNano()), []byte(c.viol+"\n"+strings.Join(Stacks(), "\n\n")), 0o644)
		}
	}
}

// Known records a violation that may be a listed finding.
func (c *C) Known(sig, format string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.known == nil {
		c.known = map[string]string{}
	}
	c.known[sig] = fmt.Sprintf(format, a...)
}

// Failed tells whether a violation was recorded.
func (c *C) Failed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.viol != ""
}

// Label counts the case under a class.
func (c *C) Label(format string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	l := format
	if len(a) > 0 {
		l = fmt.Sprintf(format, a...)
	}
	c.labels[l]++
}

// NonTrivial marks the case as non-trivial by the property's rule.
func (c *C) NonTrivial() {
	c.mu.Lock()
	c.nt = true
	c.mu.Unlock()
}

// Inconclusive marks the case as undecided.
func (c *C) Inconclusive(format string, a ...any) {
	c.mu.Lock()
	c.inc = fmt.Sprintf(format, a...)
	c.mu.Unlock()
}

// Prop is a property's check.
type Prop struct {
	ID       string
	Rule     string
	Quick    int
	Thorough int
	Restart  int // restart workers after so many cases (0: never)
	Procs    int // GOMAXPROCS of workers
	gen      func(s *gen.S) any
	dec      func(b []byte) (any, error)
	run      func(c *C, plan any)
	hasExtra bool
	Assume   []string
}

var props = map[string]*Prop{}

func register[P any](p *Prop, g func(s *gen.S) P, run func(c *C, p P)) {
	p.gen = func(s *gen.S) any { return g(s) }
	p.dec = func(b []byte) (any, error) {
		var v P
		err := json.Unmarshal(b, &v)
		return v, err
	}
	p.run = func(c *C, v any) { run(c, v.(P)) }
	props[p.ID] = p
}

// Result is what became of a case.
type Result struct {
	S     *int              `json:"s,omitempty"` // case started
	R     *int              `json:"r,omitempty"` // case done
	D     bool              `json:"d,omitempty"` // command done
	V     string            `json:"v,omitempty"`
	K     string            `json:"k,omitempty"`
	Known map[string]string `json:"known,omitempty"`
	L     map[string]int    `json:"l,omitempty"`
	NT    bool              `json:"nt,omitempty"`
	Disc  bool              `json:"disc,omitempty"`
	Inc   string            `json:"inc,omitempty"`
	H     uint64            `json:"h,omitempty"`
	Plan  json.RawMessage   `json:"plan,omitempty"`
	Ch    []uint64          `json:"ch,omitempty"`
	Err   string            `json:"err,omitempty"`
}

func noiseStack(st string) bool {
	return strings.Contains(st, "github.com/perlin-network/noise")
}

func execute(p *Prop, plan any, real bool) (res Result) {
	js, err := json.Marshal(plan)
	if err != nil {
		panic(err)
	}
	h := fnv.New64a()
	h.Write(js)
	res.H = h.Sum64()
	res.Plan = js
	c := &C{labels: map[string]int{}, real: real, seedB: res.H}
	func() {
		defer func() {
			if r := recover(); r != nil {
				buf := make([]byte, 1<<16)
				st := string(buf[:runtime.Stack(buf, false)])
				if strings.HasPrefix(fmt.Sprint(r), "deadlock:") {
					return
				}
				if noiseFirst(st) {
					c.Fail("panic in the caller's goroutine: %v\n%s", r, st)
				} else {
					res.Err = fmt.Sprintf("harness panic: %v\n%s", r, st)
				}
			}
		}()
		p.run(c, plan)
	}()
	vnet.Use(nil)
	c.mu.Lock()
	defer c.mu.Unlock()
	res.V, res.K, res.Known, res.L, res.NT, res.Disc, res.Inc = c.viol, c.kind, c.known, c.labels, c.nt, c.disc, c.inc
	return res
}

// noiseFirst tells whether a panicking goroutine's stack reaches code of noise before code of the harness.
func noiseFirst(st string) bool {
	i := strings.Index(st, "panic(")
	if i < 0 {
		i = 0
	}
	st = st[i:]
	a, b := strings.Index(st, "github.com/perlin-network/noise"), strings.Index(st, "\nmain.")
	if k := strings.Index(st, "\nverifharness"); k >= 0 && (b < 0 || k < b) {
		b = k
	}
	return a >= 0 && (b < 0 || a < b)
}

// Env is the surroundings of a case that uses the network.
type Env struct {
	*C
	Net   *vnet.Net
	clean []func()
	mu2   sync.Mutex
	Leak  string
	sem   chan struct{}
}

// Defer has f run at the end of the case.
func (e *Env) Defer(f func()) {
	e.mu2.Lock()
	e.clean = append(e.clean, f)
	e.mu2.Unlock()
}

// Bubble runs f with a fresh network under a virtual clock. It returns the environment afterwards; Leak is set if
// goroutines remained blocked for ever.
func Bubble(c *C, f func(e *Env)) *Env {
	e := &Env{C: c}
	body := func() {
		e.Net = vnet.New()
		e.sem = make(chan struct{}, 1)
		vnet.Use(e.Net)
		f(e)
		for i := len(e.clean) - 1; i >= 0; i-- {
			e.Within(2*time.Minute, e.clean[i])
		}
		e.Net.Down()
		if !c.real {
			time.Sleep(time.Hour) // sleeping goroutines of the case end, and do not keep its nodes in memory
		}
	}
	if c.real {
		body()
		return e
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				s := fmt.Sprint(r)
				if !strings.HasPrefix(s, "deadlock:") {
					panic(r)
				}
				e.Leak = s
			}
		}()
		synctest.VerifRun(body)
	}()
	return e
}

// Within runs f in its own goroutine and tells whether it returned within d.
func (e *Env) Within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-done:
		return true
	case <-t.C:
		select {
		case <-done:
			return true
		default:
		}
		return false
	}
}

// Settle lets everything that is about to happen at this instant happen.
func (e *Env) Settle() {
	if e.real {
		time.Sleep(50 * time.Millisecond)
		return
	}
	e.sem <- struct{}{}
	synctest.Wait()
	<-e.sem
}

// Stacks returns the stacks of all goroutines of this bubble that run code of noise.
func Stacks() []string {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	parts := strings.Split(string(buf), "\n\n")
	if len(parts) == 0 {
		return nil
	}
	tag := bubbleTag(parts[0])
	var out []string
	for _, g := range parts[1:] {
		if bubbleTag(g) == tag && noiseStack(g) {
			out = append(out, g)
		}
	}
	return out
}

func bubbleTag(g string) string {
	l, _, _ := strings.Cut(g, "\n")
	i := strings.Index(l, "synctest bubble ")
	if i < 0 {
		return ""
	}
	r := l[i:]
	if j := strings.IndexAny(r, "],"); j >= 0 {
		r = r[:j]
	}
	return r
}
