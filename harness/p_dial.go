package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/perlin-network/noise"

	"verifharness/gen"
	"verifharness/wire"
)

// C15: dialling tries exactly as often as configured and reports failure once.

const (
	dRefuse     = iota // refused after D ms
	dHang              // never answered
	dDrop              // established after D ms, closed by the peer H ms later, before the handshake
	dReset             // likewise, but reset
	dGarbage           // garbage after H ms
	dHello             // hello, and then closed after H ms
	dBadHello          // a hello with a bad signature after H ms
	dBadProof          // a proof with a bad signature after H ms
	dStall             // never shakes hands
	dHelloStall        // hello after H ms, and then nothing
	dOK                // success after D+H ms
	dKinds
)

type c15Try struct {
	Kind int
	D, H int // ms, both at least 0; D is at least 1
}

type c15Ctx struct {
	Hms    int
	Cancel bool
}

type c15Call struct {
	How    int // ping, send, request
	Tries  []c15Try
	CtxHms int      // half milliseconds (odd) until the context ends, 0: never
	Cancel bool     // rather than a deadline
	Also   []c15Ctx // further calls at the same instant
	BadAdr int      // an address that cannot be dialled at all
}

type c15Plan struct {
	Max   int // -1: default
	Idle  int
	Proto int // number of protocols with a callback
	Calls []c15Call
}

func init() {
	register(&Prop{ID: "C15", Quick: 8000, Thorough: 250000, Rule: "A node with 1 to 6 attempts (0, or the default), with and without an idle timeout, makes one to four calls (ping, send, request) to an address at which each attempt has a generated outcome: refused, no answer, dropped, reset or garbled at some stage of the handshake, stalled, or successful, after generated delays; contexts end by deadline or cancellation at generated instants between those of events, or never. Number and instants of dials, instant and kind of the result, invocations of the failed-dial callback of each protocol, and what is left open are compared with a model. Non-trivial: an attempt fails or a context ends first.",
		Assume: []string{"Calls made at the same instant may share their attempts."}},
		func(s *gen.S) c15Plan {
			p := c15Plan{Max: gen.Pick(s, -1, 0, 1, 2, 3, s.Range(1, 6)), Idle: gen.Pick(s, 0, 0, 200, s.Range(150, 1000)), Proto: s.Range(1, 3)}
			m := p.attempts()
			for k := s.Range(1, 4); k > 0; k-- {
				c := c15Call{How: s.Intn(3)}
				endless, total := false, 0
				for i := 0; i < m; i++ {
					t := c15Try{Kind: s.Weighted(4, 2, 3, 1, 2, 2, 1, 1, 2, 2, 3), D: gen.Pick(s, 1, 2, s.Range(1, 100)), H: gen.Pick(s, 0, 1, s.Range(0, 100))}
					c.Tries = append(c.Tries, t)
					total += t.D + t.H
					if t.Kind == dHang {
						endless = true
					}
					if t.Kind == dStall || t.Kind == dHelloStall {
						if p.Idle == 0 {
							endless = true
						} else {
							total += p.Idle
						}
					}
					if t.Kind == dOK {
						break
					}
				}
				if endless || s.Bool(35) {
					c.CtxHms = 2*gen.Pick(s, s.Intn(total+50), s.Intn(total+1), s.Intn(10)) + 1
					c.Cancel = s.Bool(50)
				}
				if s.Bool(25) {
					own := s.Bool(60)
					for j := s.Range(1, 3); j > 0; j-- {
						x := c15Ctx{c.CtxHms, c.Cancel}
						if endless || own && s.Bool(70) {
							x = c15Ctx{2*gen.Pick(s, s.Intn(total+50), s.Intn(total+1), s.Intn(10)) + 1, s.Bool(50)}
						} else if own {
							x = c15Ctx{}
						}
						c.Also = append(c.Also, x)
					}
				}
				if s.Bool(4) {
					c = c15Call{How: c.How, BadAdr: s.Range(1, 4)}
				}
				p.Calls = append(p.Calls, c)
			}
			return p
		}, runC15)
}

func (p c15Plan) attempts() int {
	switch p.Max {
	case -1:
		return 3
	case 0:
		return 1
	}
	return p.Max
}

func runC15(c *C, p c15Plan) {
	Bubble(c, func(e *Env) {
		ms := time.Millisecond
		var mu sync.Mutex
		var script []c15Try
		var dialled []time.Duration
		const addr = "127.0.0.1:7000"
		tryOf := func(i int) c15Try {
			if i < len(script) {
				return script[i]
			}
			if len(script) > 0 {
				return script[len(script)-1]
			}
			return c15Try{Kind: dRefuse, D: 1}
		}
		e.Net.OnDial = func(d *dialRec) outcome2 {
			mu.Lock()
			defer mu.Unlock()
			t := tryOf(len(dialled))
			dialled = append(dialled, d.At)
			return outcome2{Delay: time.Duration(t.D) * ms, Refuse: t.Kind == dRefuse, Hang: t.Kind == dHang}
		}
		l, err := e.Net.Listen("tcp", addr)
		if err != nil {
			panic(err)
		}
		e.Defer(func() { l.Close() })
		me := peerIdent(4, 7000)
		var live []*vconn
		go func() {
			for {
				x, err := l.Accept()
				if err != nil {
					return
				}
				cn := x.(*vconn)
				mu.Lock()
				t := tryOf(len(dialled) - 1)
				live = append(live, cn)
				mu.Unlock()
				go c15Peer(cn, t, me)
			}
		}()
		opts := []noise.NodeOption{noise.WithNodeIdleTimeout(time.Duration(p.Idle) * ms)}
		if p.Max >= 0 {
			opts = append(opts, noise.WithNodeMaxDialAttempts(uint(p.Max)))
		}
		a := e.Node(opts...)
		type failed struct {
			proto int
			addr  string
			err   error
		}
		var fails []failed
		for i := 0; i < p.Proto; i++ {
			a.Bind(noise.Protocol{OnPingFailed: func(addr string, err error) {
				mu.Lock()
				fails = append(fails, failed{i, addr, err})
				mu.Unlock()
			}})
			if i == 1 {
				a.Bind(noise.Protocol{}) // one without callbacks
			}
		}
		if !e.Listen(a) {
			return
		}
		m := p.attempts()
		for ci, x := range p.Calls {
			mu.Lock()
			script, dialled, fails, live = x.Tries, nil, nil, nil
			mu.Unlock()
			to := addr
			if x.BadAdr > 0 {
				to = []string{"", "nohost", "no.such.host:1", ":99999", "[::1"}[x.BadAdr]
			}
			// The model of the calls, which share their attempts.
			type model struct {
				at         time.Duration // when it ends
				ok, ctxErr bool
				dials      int
				limit      time.Duration
				cancel     bool
			}
			modelOf := func(y c15Ctx) model {
				w := model{limit: time.Duration(y.Hms) * ms / 2, cancel: y.Cancel}
				if y.Hms == 0 {
					w.limit = 1000 * time.Hour
				}
				for i := 0; i < m && !w.ok && !w.ctxErr && x.BadAdr == 0; i++ {
					t := x.Tries[i]
					w.dials++
					d := time.Duration(t.D) * ms
					switch t.Kind {
					case dRefuse:
					case dHang:
						d = w.limit
					case dStall:
						d += time.Duration(p.Idle) * ms
					case dHelloStall:
						d += time.Duration(p.Idle+t.H) * ms
					case dOK:
						d += time.Duration(t.H) * ms
						w.ok = w.at+d < w.limit
					default:
						d += time.Duration(t.H) * ms
					}
					if (t.Kind == dStall || t.Kind == dHelloStall) && p.Idle == 0 {
						d = w.limit
					}
					if w.at+d >= w.limit {
						w.at, w.ctxErr = w.limit, true
					} else {
						w.at += d
					}
				}
				return w
			}
			models := []model{modelOf(c15Ctx{x.CtxHms, x.Cancel})}
			for _, y := range x.Also {
				models = append(models, modelOf(y))
			}
			dials, ok, ctxErr := 0, false, false
			for _, w := range models {
				dials = max(dials, w.dials)
				ok = ok || w.ok
				ctxErr = ctxErr || w.ctxErr
			}
			start := e.Net.Now()
			type result struct {
				err error
				at  time.Duration
			}
			res := make([]result, len(models))
			var fs []func()
			for k := range res {
				fs = append(fs, func() {
					ctx, cancel := context.Background(), context.CancelFunc(func() {})
					if limit := models[k].limit; limit < 1000*time.Hour && models[k].cancel {
						ctx, cancel = context.WithCancel(ctx)
						t := time.AfterFunc(limit, cancel)
						defer t.Stop()
					} else if limit < 1000*time.Hour {
						ctx, cancel = context.WithTimeout(ctx, limit)
					}
					defer cancel()
					var err error
					switch x.How {
					case 0:
						var cl *noise.Client
						cl, err = a.Ping(ctx, to)
						if err == nil && (cl == nil || !sameID(cl.ID(), noiseID(me))) {
							e.Fail("a ping returned a wrong client")
						}
					case 1:
						err = a.Send(ctx, to, []byte("hello"))
					case 2:
						var b []byte
						b, err = a.Request(ctx, to, []byte("question"))
						if err == nil && !bytes.Equal(b, []byte("answer")) {
							e.Fail("a request returned %q", b)
						}
					}
					res[k] = result{err, e.Net.Now() - start}
				})
			}
			if !e.Within(2000*time.Hour, func() { All(fs...) }) {
				e.Hang("call %d does not end", ci)
				return
			}
			e.Settle()
			mu.Lock()
			nd, nf := len(dialled), append([]failed{}, fails...)
			lv := append([]*vconn{}, live...)
			mu.Unlock()
			alone, failures := len(res) == 1, 0
			for k, r := range res {
				w := models[k]
				if r.err != nil {
					failures++
				}
				switch {
				case !alone && nd != dials: // they did not share all attempts
				case w.ok && r.err != nil:
					e.Fail("call %d failed although attempt %d works: %v", ci, w.dials, r.err)
				case !w.ok && r.err == nil:
					e.Fail("call %d succeeded although no attempt does in time", ci)
				case r.at != w.at:
					e.Fail("call %d returned after %v instead of %v (%v)", ci, r.at, w.at, r.err)
				case w.ctxErr && w.cancel && !errors.Is(r.err, context.Canceled), w.ctxErr && !w.cancel && !errors.Is(r.err, context.DeadlineExceeded):
					e.Fail("call %d, whose context ended, returned %v", ci, r.err)
				case alone && !w.ctxErr && !w.ok && (errors.Is(r.err, context.Canceled) || errors.Is(r.err, context.DeadlineExceeded)) && p.Idle == 0:
					e.Fail("call %d, whose context did not end, returned %v", ci, r.err)
				}
				if r.err == nil && !ok {
					e.Fail("call %d succeeded although no attempt does", ci)
				}
			}
			if nd < dials || nd > dials*len(res) || (alone && nd != dials) {
				e.Fail("call %d (of %d at once) made %d attempts instead of %d", ci, len(res), nd, dials)
			}
			for i := 0; i < p.Proto; i++ {
				n := 0
				for _, f := range nf {
					if f.proto == i {
						n++
						if f.addr != to {
							e.Fail("a failed dial of %q was reported for %q", to, f.addr)
						}
						if f.err == nil {
							e.Fail("a failed dial was reported without an error")
						}
					}
				}
				if n != failures {
					e.Fail("%d failed dials were reported to protocol %d after %d calls, %d of which failed", n, i, len(res), failures)
				}
			}
			out := a.Outbound()
			want := 0
			if ok {
				want = 1
			}
			if len(out) != want {
				e.Fail("%d connections are listed after a call (success: %v)", len(out), ok)
			}
			for i, cn := range lv {
				if ok && i == len(lv)-1 {
					if cn.Peer().Closed() {
						e.Fail("a successful dial's connection is closed")
					}
				} else if !cn.Peer().Closed() && !cn.Broken() {
					e.Fail("a failed dial leaves a connection open")
				}
			}
			if ctxErr || !ok || dials > 1 {
				e.NonTrivial()
			}
			if e.Failed() {
				return
			}
			e.Label("ok=%v ctx=%v", ok, ctxErr)
			if !alone {
				e.Label("calls at once: shared=%v", nd == dials)
			}
			if ok {
				// Once more: no further dial.
				if _, err := a.Ping(context.Background(), addr); err != nil {
					e.Fail("a ping over a live connection failed: %v", err)
				}
				// Nor does a call whose context has ended already dial, or count as a failure to connect.
				for k := 0; k < 4; k++ {
					ctx, cancel := context.WithCancel(context.Background())
					cancel()
					if _, err := a.Ping(ctx, addr); err != nil && !errors.Is(err, context.Canceled) {
						e.Fail("a ping over a live connection whose context has ended returned %v", err)
					}
				}
				e.Settle()
				mu.Lock()
				if len(dialled) != nd {
					e.Fail("a ping over a live connection dialled")
				}
				if len(fails) != len(nf) {
					e.Fail("a failed dial was reported of a peer that is connected")
				}
				mu.Unlock()
				if lv[len(lv)-1].Peer().Closed() {
					e.Fail("a connection was closed by a call whose context had ended")
				}
				lv[len(lv)-1].Close()
				e.Settle()
			}
			time.Sleep(10 * ms)
			e.Settle()
			if len(a.Outbound()) != 0 {
				e.Fail("connections are listed although all are gone")
				return
			}
			mu.Lock()
			if len(fails) != len(nf) || len(dialled) != nd {
				e.Fail("dials or failures go on after the call has returned")
			}
			mu.Unlock()
		}
	})
}

func c15Peer(cn *vconn, t c15Try, me wire.Identity) {
	wait := time.Duration(t.H) * time.Millisecond
	eat := func() {
		b := make([]byte, 4096)
		for {
			if _, err := cn.Read(b); err != nil {
				return
			}
		}
	}
	switch t.Kind {
	case dDrop:
		time.Sleep(wait)
		cn.Close()
	case dReset:
		time.Sleep(wait)
		cn.Reset()
	case dGarbage:
		time.Sleep(wait)
		cn.Write(wire.Frame([]byte("garbage")))
		eat()
	case dHello:
		cn.Write(wire.Frame(wire.Hello(wire.GenEph())))
		time.Sleep(wait)
		cn.Close()
	case dBadHello:
		time.Sleep(wait)
		h := wire.Hello(wire.GenEph())
		h[50] ^= 1
		cn.Write(wire.Frame(h))
		eat()
	case dBadProof:
		s := &wire.Session{Conn: cn, Eph: wire.GenEph()}
		cn.Write(wire.Frame(wire.Hello(s.Eph)))
		h, err := wire.ReadFrame(cn)
		if err != nil || s.Derive(h) != nil {
			return
		}
		b := s.Proof(me)
		b[len(b)-1] ^= 1
		time.Sleep(wait)
		cn.Write(wire.Frame(wire.Seal(s.A, b)))
		eat()
	case dStall:
		eat()
	case dHelloStall:
		time.Sleep(wait)
		cn.Write(wire.Frame(wire.Hello(wire.GenEph())))
		eat()
	case dOK:
		time.Sleep(wait)
		s, err := wire.Handshake(cn, me)
		if err != nil {
			return
		}
		for {
			n, _, err := s.Recv()
			if err != nil {
				return
			}
			if n != 0 {
				s.Send(n, []byte("answer"))
			}
		}
	}
}

var _ = fmt.Sprint
