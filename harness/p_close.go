package main

import (
	"bytes"
	"context"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/gossip"
	"github.com/perlin-network/noise/kademlia"

	"verifharness/gen"
	"verifharness/wire"
)

// C13: Close always returns and leaves nothing running.

type c13Act struct {
	AtMs int
	Kind int
	N    int
	Ms   int // how long a handler takes, or a context lasts
	Dead int // kind of address
}

const (
	xReqOut    = iota // the node requests, never answered
	xReqEcho          // the node requests, answered after Ms
	xSend             // the node sends
	xPing             // the node pings an address
	xDead             // the node uses an address that is unreachable in some way
	xMsgIn            // the peer sends messages, whose handlers take Ms
	xReqIn            // the peer requests; the handler answers after Ms
	xWireIn           // a wire peer connects and stays
	xWireStall        // a wire peer connects and stalls within the handshake
	xWireFlood        // a wire peer sends requests, and does not read the replies
	xBack             // the peer sends a message whose handler requests something of the peer
	xPush             // gossip
	xDiscover         // search
	xPeerClose        // the peer closes
	xClientClose
	xStream // the peer answers a message with a stream of messages
	xKinds
)

type c13Plan struct {
	Link     Link
	Workers  int
	Idle     int
	Listen   int // 0 yes, 1 never, 2 fails (port taken), 3 while closing, 4 after closing, 5 bind refuses
	Proto    bool
	DialMs   int
	Acts     []c13Act
	Close    []int // instants
	Together int   // so many Close calls at each instant
	CallMs   int   // ms callbacks take
	Late     int   // calls on the node after it was closed
}

func init() {
	register(&Prop{ID: "C13", Quick: 8000, Thorough: 80000, Restart: 200, Rule: "A node that listens, fails to, never does, or does so at or after Close; up to twenty activities (requests that are answered, late or never; sends, pings, dials that hang, stall or fail; handlers that take up to minutes or call back; streams of messages; callbacks that take time; floods that are not read; half-made handshakes; gossip and searches; peers that close) at instants around those of one to three Close calls, each made by up to four goroutines, some at once after Listen. Connections, port, running handlers, pending calls and goroutines are inspected when each Close returns. Non-trivial: something was in flight at the first Close.",
		Assume: []string{"Close is not called from handlers and callbacks of the node itself.", "A goroutine outlives a node for long if it is still there one virtual hour later, with all peers closed."}},
		func(s *gen.S) c13Plan {
			p := c13Plan{Link: genLinkBatch(s), Workers: gen.Pick(s, 1, 1, 2, 4), Idle: gen.Pick(s, 0, 0, 0, 2000), Listen: s.Weighted(14, 1, 1, 2, 1, 1), Proto: s.Bool(35), DialMs: gen.Pick(s, 0, 0, 3, 100), Together: gen.Pick(s, 1, 1, 2, 4), Late: s.Intn(4), CallMs: gen.Pick(s, 0, 0, 0, s.Intn(20), s.Intn(1000))}
			t := gen.Pick(s, 0, s.Intn(10), s.Intn(1000))
			for k := s.Range(1, 3); k > 0; k-- {
				p.Close = append(p.Close, t)
				t += gen.Pick(s, 0, s.Intn(5), s.Intn(3000))
			}
			for k := gen.Pick(s, 0, s.Range(1, 6), s.Range(1, 20)); k > 0; k-- {
				p.Acts = append(p.Acts, c13Act{AtMs: gen.Pick(s, 0, p.Close[0], s.Intn(p.Close[0]+20), max(0, p.Close[0]-s.Intn(5)), s.Intn(p.Close[0]+2000)), Kind: s.Intn(xKinds), N: gen.Pick(s, 1, 1, s.Range(1, 5), s.Range(1, 20)), Ms: gen.Pick(s, 0, 1, s.Intn(300), s.Intn(60000)), Dead: s.Intn(5)})
			}
			if s.Bool(5) { // messages wait behind one whose callback runs
				p.CallMs, p.DialMs, p.Idle = s.Range(1, 50), 0, 0
				p.Acts = append(p.Acts, c13Act{AtMs: 0, Kind: xStream, N: s.Range(1, 3), Ms: s.Intn(50)})
				p.Close[0] = s.Range(p.CallMs, 8*p.CallMs)
			}
			return p
		}, runC13)
}

func runC13(c *C, p c13Plan) {
	Bubble(c, func(e *Env) {
		e.Net.OnConn = func(*dialRec) (policy, policy) { return p.Link.policies() }
		e.Net.OnDial = func(d *dialRec) outcome2 {
			o := outcome2{Delay: time.Duration(p.DialMs) * time.Millisecond}
			switch {
			case strings.HasSuffix(d.Addr, ":7001"):
				o.Hang = true
			case strings.HasSuffix(d.Addr, ":7002"):
				o.Delay = 700 * time.Millisecond
				o.Refuse = true
			}
			return o
		}
		opts := []noise.NodeOption{noise.WithNodeNumWorkers(uint(p.Workers)), noise.WithNodeIdleTimeout(time.Duration(p.Idle) * time.Millisecond)}
		if p.Listen == 2 {
			opts = append(opts, noise.WithNodeBindPort(6000))
			l, err := e.Net.Listen("tcp", ":6000")
			if err != nil {
				panic(err)
			}
			e.Defer(func() { l.Close() })
		}
		a, err := noise.NewNode(opts...)
		if err != nil {
			panic(err)
		}
		b, err := noise.NewNode(noise.WithNodeNumWorkers(4))
		if err != nil {
			panic(err)
		}
		var running, started atomic.Int64
		var returned atomic.Bool
		a.Handle(func(ctx noise.HandlerContext) error {
			running.Add(1)
			defer running.Add(-1)
			if returned.Load() {
				e.Fail("a handler starts after Close has returned")
			}
			started.Add(1)
			var ms int
			f := bytes.Fields(ctx.Data())
			if len(f) < 2 {
				return nil
			}
			fmt.Sscan(string(f[1]), &ms)
			switch string(f[0]) {
			case "\xffslow":
				time.Sleep(time.Duration(ms) * time.Millisecond)
			case "\xffreply":
				time.Sleep(time.Duration(ms) * time.Millisecond)
				ctx.Send([]byte("reply"))
			case "\xffback":
				a.Request(context.Background(), b.Addr(), []byte("\xffnever 0"))
				ctx.Send([]byte("reply"))
			}
			return nil
		})
		b.Handle(func(ctx noise.HandlerContext) error {
			var ms int
			f := bytes.Fields(ctx.Data())
			if len(f) == 2 && string(f[0]) == "\xffstream" {
				for k := 0; k < 5; k++ {
					ctx.Send([]byte("\xffslow " + string(f[1])))
				}
			}
			if len(f) == 2 && string(f[0]) == "\xffecho" {
				fmt.Sscan(string(f[1]), &ms)
				go func() {
					time.Sleep(time.Duration(ms) * time.Millisecond)
					ctx.Send([]byte("echo"))
				}()
			}
			return nil
		})
		ka := kademlia.New()
		ga := gossip.New(ka)
		if p.Proto {
			kb := kademlia.New()
			gb := gossip.New(kb)
			a.Bind(ka.Protocol(), ga.Protocol())
			b.Bind(kb.Protocol(), gb.Protocol())
		}
		if p.CallMs > 0 {
			call := func(*noise.Client) {
				running.Add(1)
				time.Sleep(time.Duration(p.CallMs) * time.Millisecond)
				running.Add(-1)
				if returned.Load() {
					e.Fail("a callback runs after Close has returned")
				}
			}
			a.Bind(noise.Protocol{OnPeerConnected: call, OnPeerDisconnected: call, OnMessageRecv: call, OnMessageSent: call})
		}
		refused := fmt.Errorf("no")
		if p.Listen == 5 {
			a.Bind(noise.Protocol{Bind: func(*noise.Node) error { return refused }})
		}
		if !e.Listen(b) {
			return
		}
		listened := false
		listen := func(must bool) {
			var err error
			if !e.Within(time.Minute, func() { err = a.Listen() }) {
				e.Hang("Listen does not return")
			}
			if err == nil {
				listened = true
			}
			if must != (err == nil) {
				e.Fail("Listen returned %v", err)
			}
		}
		port := 0
		switch p.Listen {
		case 0:
			listen(true)
			port = int(a.ID().Port)
		case 2, 5:
			listen(false)
			listened = false
		}
		// Listeners to be dialled: one that never shakes hands.
		stall, err := e.Net.Listen("tcp", ":7003")
		if err != nil {
			panic(err)
		}
		e.Defer(func() { stall.Close() })
		go func() {
			for {
				cn, err := stall.Accept()
				if err != nil {
					return
				}
				cn.Write(wire.Frame(wire.Hello(wire.GenEph())))
			}
		}()
		var mu sync.Mutex
		type pend struct {
			what string
			done bool
			err  error
		}
		var pending []*pend
		call := func(what string, f func() error) {
			x := &pend{what: what}
			mu.Lock()
			pending = append(pending, x)
			mu.Unlock()
			go func() {
				err := f()
				mu.Lock()
				x.done, x.err = true, err
				mu.Unlock()
			}()
		}
		var acts []func()
		base := e.Net.Now()
		ctxOf := func(x c13Act) context.Context {
			if x.Ms%3 != 0 {
				return context.Background()
			}
			ctx, cancel := context.WithTimeout(context.Background(), time.Duration(x.Ms)*time.Millisecond)
			e.Defer(cancel)
			return ctx
		}
		inFlight := false
		for i, x := range p.Acts {
			acts = append(acts, func() {
				time.Sleep(base + time.Duration(x.AtMs)*time.Millisecond - e.Net.Now())
				if x.AtMs <= p.Close[0] {
					inFlight = true
				}
				dead := fmt.Sprintf(":%d", 7000+x.Dead)
				for k := 0; k < x.N; k++ {
					switch x.Kind {
					case xReqOut:
						call("a request without an answer", func() error {
							_, err := a.Request(ctxOf(x), b.Addr(), []byte("\xffnever 0"))
							return err
						})
					case xReqEcho:
						call("a request", func() error {
							_, err := a.Request(ctxOf(x), b.Addr(), []byte(fmt.Sprintf("\xffecho %d", x.Ms)))
							return err
						})
					case xSend:
						call("a send", func() error { return a.Send(ctxOf(x), b.Addr(), make([]byte, 500)) })
					case xStream:
						call("a send", func() error {
							return a.Send(ctxOf(x), b.Addr(), []byte(fmt.Sprintf("\xffstream %d", x.Ms%50)))
						})
					case xPing:
						call("a ping", func() error { _, err := a.Ping(ctxOf(x), b.Addr()); return err })
					case xDead:
						if k < 3 {
							call("a ping of a dead address", func() error { _, err := a.Ping(ctxOf(x), dead); return err })
						}
					case xMsgIn:
						if listened {
							b.Send(context.Background(), a.Addr(), []byte(fmt.Sprintf("\xffslow %d", x.Ms)))
						}
					case xReqIn:
						if listened {
							go b.Request(context.Background(), a.Addr(), []byte(fmt.Sprintf("\xffreply %d", x.Ms)))
						}
					case xBack:
						if listened {
							go b.Request(context.Background(), a.Addr(), []byte("\xffback 0"))
						}
					case xWireIn, xWireFlood, xWireStall:
						if port == 0 || k > 3 {
							return
						}
						go func() {
							cn, err := e.Net.DialFrom(context.Background(), fmt.Sprintf(":%d", port), policy{}, policy{Window: 2000})
							if err != nil {
								return
							}
							e.Defer(func() { cn.Close() })
							if x.Kind == xWireStall {
								if x.Ms%2 == 0 {
									cn.Write(wire.Frame(wire.Hello(wire.GenEph())))
								}
								return
							}
							s, err := wire.Handshake(cn, peerIdent(i*100+k, 5000+i))
							if err != nil || x.Kind == xWireIn {
								return
							}
							cn.SetWriteDeadline(time.Now().Add(time.Minute))
							for j := 0; j < 100; j++ {
								s.Send(uint64(j+1), []byte("\xffreply 0"))
							}
						}()
					case xPush:
						if p.Proto && listened && k < 3 {
							call("a push", func() error { ga.Push(context.Background(), []byte(fmt.Sprint("g", i, k))); return nil })
						}
					case xDiscover:
						if p.Proto && listened && k < 2 {
							call("a search", func() error { ka.Discover(); return nil })
						}
					case xPeerClose:
						go b.Close()
					case xClientClose:
						for _, cl := range append(a.Outbound(), a.Inbound()...) {
							cl.Close()
						}
					}
				}
			})
		}
		firstClose := make(chan struct{})
		var once sync.Once
		for _, at := range p.Close {
			for k := 0; k < p.Together; k++ {
				acts = append(acts, func() {
					time.Sleep(base + time.Duration(at)*time.Millisecond - e.Net.Now())
					if !e.Within(time.Hour, func() { a.Close() }) {
						e.Hang("Close does not return")
						return
					}
					if e.Failed() {
						return
					}
					if k := running.Load(); k != 0 {
						e.Fail("%d handlers and callbacks are running when Close has returned", k)
					}
					if p.Listen != 3 {
						returned.Store(true)
					}
					if port != 0 && e.Net.Bound(port) {
						e.Fail("the port is taken when Close has returned")
					}
					for _, cn := range e.Net.Conns() {
						end := cn
						if port != 0 && strings.HasSuffix(cn.RemoteAddr().String(), fmt.Sprintf(":%d", port)) {
							end = cn.Peer()
						}
						if p.Listen != 3 && !end.Closed() && !end.Broken() {
							e.Fail("a connection (%v) is open when Close has returned", cn)
						}
					}
					if len(a.Inbound())+len(a.Outbound()) > 0 && p.Listen != 3 {
						e.Fail("connections are listed when Close has returned")
					}
					once.Do(func() { close(firstClose) })
				})
			}
		}
		if p.Listen == 3 {
			acts = append(acts, func() {
				time.Sleep(base + time.Duration(p.Close[0])*time.Millisecond - e.Net.Now())
				if !e.Within(time.Minute, func() {
					if a.Listen() == nil {
						listened = true
					}
				}) {
					e.Hang("Listen does not return")
				}
			})
		}
		if !e.Within(3*time.Hour, func() { All(acts...) }) {
			e.Hang("an activity never ends")
			return
		}
		if e.Failed() {
			return
		}
		if inFlight {
			e.NonTrivial()
		}
		if p.Listen == 3 {
			// Whoever came first: everything must be down once Close has returned after Listen.
			if !e.Within(time.Hour, func() { a.Close() }) {
				e.Hang("Close does not return")
				return
			}
			returned.Store(true)
			if listened && e.Net.Bound(int(a.ID().Port)) {
				e.Fail("the port is taken when Close has returned")
			}
		}
		time.Sleep(time.Second)
		e.Settle()
		mu.Lock()
		for _, x := range pending {
			if !x.done {
				e.Fail("%s is pending when Close has returned", x.what)
			} else if x.err == nil && x.what == "a request without an answer" {
				e.Fail("a request without an answer succeeded")
			}
		}
		mu.Unlock()
		for k := 0; k < p.Late; k++ {
			if !e.Within(time.Minute, func() {
				ctx, cancel := context.WithTimeout(context.Background(), time.Second*30)
				defer cancel()
				var err error
				switch k {
				case 0:
					_, err = a.Request(ctx, b.Addr(), []byte("\xffecho 1"))
				case 1:
					err = a.Send(ctx, b.Addr(), []byte("late"))
				case 2:
					_, err = a.Ping(ctx, b.Addr())
				}
				if err == nil {
					e.Fail("a call on a closed node succeeded")
				}
			}) {
				e.Hang("a call on a closed node does not return")
				return
			}
		}
		if p.Listen == 4 {
			listen(false)
		}
		if !e.Within(time.Hour, func() { a.Close() }) {
			e.Hang("a further Close does not return")
			return
		}
		if !e.Within(time.Hour, func() { b.Close() }) {
			e.Hang("Close of the peer does not return")
			return
		}
		for i := len(e.clean) - 1; i >= 0; i-- { // nothing of the harness may hold anything back
			e.clean[i]()
		}
		e.clean = nil
		e.Net.Down()
		time.Sleep(time.Hour)
		e.Settle()
		if st := Stacks(); len(st) > 0 {
			e.Fail("%d goroutines are left over, one of them:\n%s", len(st), st[0])
		}
	})
}
