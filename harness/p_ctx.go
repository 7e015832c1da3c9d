package main

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"net"
	"sync"
	"time"

	"github.com/perlin-network/noise"

	"verifharness/gen"
	"verifharness/wire"
)

// C16: one caller's context never harms another call.

type c16Call struct {
	Addr   int
	At     int // ms
	How    int // ping, send, request
	CtxHms int // odd number of half milliseconds after At, 0: none, -1: has ended before
	Cancel bool
	Reply  int // ms until the reply
	Shared int // takes part in the context of that call (index+1), which is cancelled for all
}

type c16Addr struct {
	Refuse int // so many dials are refused first
	D, H   int // ms
	Lat    int
	DropHs bool // dials fail by being dropped in the handshake
}

type c16Plan struct {
	Max   int
	Addrs []c16Addr
	Calls []c16Call
}

func init() {
	register(&Prop{ID: "C16", Quick: 8000, Thorough: 250000, Rule: "Two to sixteen calls (ping, send, request with a reply after up to 200 ms) to one or two addresses that take a generated time to connect and may fail at first, at generated instants, each with a context that never ends, ends before, or ends by deadline or cancellation at an instant between those of all other events. Each call must succeed by the time a connection made for it alone would have, unless its own context ends first, in which case it must return that context's error at that instant; the established connection stays the only one. Non-trivial: a context ends while another call to that address is under way.",
		Assume: []string{"A call whose own context ends before a fresh connection could be made may still profit from a connection another call made."}},
		func(s *gen.S) c16Plan {
			p := c16Plan{Max: s.Range(1, 4)}
			for k := s.Range(1, 2); k > 0; k-- {
				p.Addrs = append(p.Addrs, c16Addr{Refuse: gen.Pick(s, 0, 0, s.Intn(p.Max)), D: gen.Pick(s, 1, 10, s.Range(1, 50)), H: gen.Pick(s, 0, 5, s.Range(0, 50)), Lat: gen.Pick(s, 0, 0, 1, 7), DropHs: s.Bool(30)})
			}
			span := gen.Pick(s, 1, 20, 100, 400)
			for k := s.Range(2, gen.Pick(s, 3, 16)); k > 0; k-- {
				c := c16Call{Addr: s.Intn(len(p.Addrs)), At: gen.Pick(s, 0, s.Intn(span)), How: s.Intn(3), Reply: gen.Pick(s, 0, 1, s.Intn(200)), Cancel: s.Bool(50)}
				switch s.Weighted(3, 6, 1) {
				case 1:
					c.CtxHms = 2*gen.Pick(s, s.Intn(100), s.Intn(10), s.Intn(300)) + 1
				case 2:
					c.CtxHms = -1
				}
				p.Calls = append(p.Calls, c)
			}
			return p
		}, runC16)
}

func runC16(c *C, p c16Plan) {
	Bubble(c, func(e *Env) {
		ms := time.Millisecond
		var mu sync.Mutex
		dials := make([]int, len(p.Addrs))
		est := make([]int, len(p.Addrs)) // connections whose handshake the peer completed
		idx := map[string]int{}
		var addrs []string
		for i := range p.Addrs {
			addrs = append(addrs, fmt.Sprintf("127.0.0.1:%d", 7000+i))
			idx[addrs[i]] = i
		}
		e.Net.OnConn = func(d *dialRec) (policy, policy) {
			l := policy{Latency: time.Duration(p.Addrs[idx[d.Addr]].Lat) * ms}
			return l, l
		}
		drop := map[int]bool{}
		e.Net.OnDial = func(d *dialRec) outcome2 {
			mu.Lock()
			defer mu.Unlock()
			i, ok := idx[d.Addr]
			if !ok {
				return outcome2{}
			}
			x := p.Addrs[i]
			dials[i]++
			bad := dials[i] <= x.Refuse
			if bad && x.DropHs {
				drop[d.N] = true
				bad = false
			}
			return outcome2{Delay: time.Duration(x.D) * ms, Refuse: bad}
		}
		gotSends := map[uint64]int{}
		for i, x := range p.Addrs {
			l, err := e.Net.Listen("tcp", addrs[i])
			if err != nil {
				panic(err)
			}
			e.Defer(func() { l.Close() })
			me := peerIdent(10+i, 7000+i)
			go func() {
				for {
					y, err := l.Accept()
					if err != nil {
						return
					}
					cn := y.(*vconn)
					go func() {
						time.Sleep(time.Duration(x.H) * ms)
						mu.Lock()
						dr := drop[cn.DialRec().N]
						mu.Unlock()
						if dr {
							cn.Close()
							return
						}
						s, err := wire.Handshake(cn, me)
						if err != nil {
							return
						}
						mu.Lock()
						est[i]++
						mu.Unlock()
						c16Serve(s, &mu, gotSends)
					}()
				}
			}()
		}
		a := e.Node(noise.WithNodeMaxDialAttempts(uint(p.Max)))
		reports := make([]int, len(p.Addrs))
		a.Bind(noise.Protocol{OnPingFailed: func(addr string, err error) {
			mu.Lock()
			reports[idx[addr]]++
			mu.Unlock()
		}})
		if !e.Listen(a) {
			return
		}
		base := e.Net.Now()
		type result struct {
			err error
			at  time.Duration
		}
		res := make([]result, len(p.Calls))
		var fs []func()
		for k, x := range p.Calls {
			fs = append(fs, func() {
				time.Sleep(time.Duration(x.At) * ms)
				ctx, cancel := context.Background(), context.CancelFunc(func() {})
				d := time.Duration(x.CtxHms) * ms / 2
				switch {
				case x.CtxHms < 0:
					ctx, cancel = context.WithCancel(ctx)
					cancel()
				case x.CtxHms > 0 && x.Cancel:
					ctx, cancel = context.WithCancel(ctx)
					t := time.AfterFunc(d, cancel)
					defer t.Stop()
				case x.CtxHms > 0:
					ctx, cancel = context.WithTimeout(ctx, d)
				}
				defer cancel()
				var err error
				q := make([]byte, 12)
				binary.BigEndian.PutUint64(q, uint64(k+1))
				binary.BigEndian.PutUint32(q[8:], uint32(x.Reply))
				switch x.How {
				case 0:
					var cl *noise.Client
					cl, err = a.Ping(ctx, addrs[x.Addr])
					if err == nil && cl.ID().Port != uint16(7000+x.Addr) {
						e.Fail("a ping returned the wrong client")
					}
				case 1:
					err = a.Send(ctx, addrs[x.Addr], q)
				case 2:
					var b []byte
					b, err = a.Request(ctx, addrs[x.Addr], q)
					if err == nil && string(b) != string(q) {
						e.Fail("call %d got the wrong reply", k)
					}
				}
				res[k] = result{err, e.Net.Now() - base}
			})
		}
		if !e.Within(time.Hour, func() { All(fs...) }) {
			e.Hang("a call does not end")
			return
		}
		e.Settle()
		time.Sleep(time.Second)
		e.Settle()
		failed := make([]int, len(p.Addrs))
		works := make([]int, len(p.Addrs))
		over := false
		for k, x := range p.Calls {
			y := p.Addrs[x.Addr]
			fresh := time.Duration(x.At+(y.Refuse+1)*(y.D+y.H+y.Lat)+y.Lat) * ms
			if x.How == 2 {
				fresh += time.Duration(x.Reply+2*y.Lat) * ms
			}
			end := time.Duration(x.At)*ms + time.Duration(x.CtxHms)*ms/2
			if x.CtxHms < 0 {
				end = time.Duration(x.At) * ms
			}
			r := res[k]
			if r.err == nil {
				works[x.Addr]++
				if x.CtxHms > 0 && r.at > end {
					e.Fail("call %d succeeded %v after its context had ended", k, r.at-end)
				}
				if r.at > fresh {
					e.Fail("call %d succeeded at %v only, although a connection of its own would have been used by %v", k, r.at, fresh)
				}
			} else {
				failed[x.Addr]++
				want := context.Canceled
				if !x.Cancel && x.CtxHms > 0 {
					want = context.DeadlineExceeded
				}
				switch {
				case x.CtxHms == 0:
					e.Fail("call %d, whose context never ends, failed: %v", k, r.err)
				case !errors.Is(r.err, want):
					e.Fail("call %d failed with something other than the error of its context: %v", k, r.err)
				case r.at != end:
					e.Fail("call %d returned at %v, but its context ended at %v", k, r.at, end)
				case end > fresh:
					e.Fail("call %d ran into its context at %v, although a connection of its own would have been used by %v", k, end, fresh)
				}
				for j, z := range p.Calls {
					if j != k && z.Addr == x.Addr && time.Duration(z.At)*ms <= end && (res[j].at >= end) {
						over = true
					}
				}
			}
			if x.How == 1 {
				mu.Lock()
				n := gotSends[uint64(k+1)]
				mu.Unlock()
				if r.err == nil && n != 1 {
					e.Fail("a message sent by call %d arrived %d times", k, n)
				}
				if r.err != nil && n != 0 {
					e.Fail("a message of the failed call %d arrived", k)
				}
			}
		}
		if over {
			e.NonTrivial()
		}
		if e.Failed() {
			return
		}
		for i := range p.Addrs {
			mu.Lock()
			es, dl, rp := est[i], dials[i], reports[i]
			mu.Unlock()
			if rp > failed[i] {
				e.Fail("%d failed dials reported, but only %d calls failed", rp, failed[i])
			}
			open := 0
			for _, cn := range e.Net.Conns() {
				_, port, _ := net.SplitHostPort(cn.RemoteAddr().String())
				if port == itoa(7000+i) && !cn.Closed() && !cn.Broken() {
					open++
				}
			}
			if works[i] == 0 {
				// Nobody used the connection; that it was made is possible.
				continue
			}
			if open != 1 {
				e.Fail("%d connections to address %d are open although the calls are over", open, i)
				continue
			}
			if es > 1 {
				e.Label("established again")
			}
			if _, err := a.Ping(context.Background(), addrs[i]); err != nil {
				e.Fail("a further ping failed: %v", err)
			}
			mu.Lock()
			if dials[i] != dl {
				e.Fail("a further ping needed a new connection")
			}
			mu.Unlock()
		}
	})
}

func c16Serve(s *wire.Session, mu *sync.Mutex, sends map[uint64]int) {
	var w sync.Mutex
	for {
		n, b, err := s.Recv()
		if err != nil {
			return
		}
		if len(b) != 12 {
			continue
		}
		if n == 0 {
			mu.Lock()
			sends[binary.BigEndian.Uint64(b)]++
			mu.Unlock()
			continue
		}
		go func() {
			time.Sleep(time.Duration(binary.BigEndian.Uint32(b[8:])) * time.Millisecond)
			w.Lock()
			defer w.Unlock()
			s.Send(n, b)
		}()
	}
}
