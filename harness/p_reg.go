package main

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/perlin-network/noise"

	"verifharness/gen"
)

// C19: every registration made before listening counts, none made after does.

type c19Reg struct {
	Proto bool
	N     int // registered with one call
	Inner int // what the Bind callback of a protocol registers: 0 nothing, 1 a handler, 2 a protocol
}

type c19Plan struct {
	Groups [][]c19Reg // one goroutine each, before listening
	Race   []c19Reg   // one goroutine, while listening begins
	Late   []c19Reg   // after listening
	Refuse int        // the so-manieth protocol refuses (0: none)
	Busy   bool       // the port is taken at first
	Again  []c19Reg   // registered after listening failed
	Twice  int        // further Listen calls
	Msgs   int
	Spin   int
}

func init() {
	register(&Prop{ID: "C19", Procs: 4, Quick: 6000, Thorough: 200000, Rule: "Up to six goroutines register up to two hundred handlers and protocols, one or several per call, concurrently; more while the node begins to listen, from Bind callbacks, after a listen that failed because the port is taken, and after the listen; one protocol may refuse to be bound. Then messages, requests and connections in both directions. Every handler and callback logs its number; counts and orders are compared with the registrations. Non-trivial: two goroutines registering, or a refusal, or registrations while or after listening.",
		Assume: []string{"A registration concurrent with the listen counts fully or not at all.", "Handlers that protocols register in their Bind callback count as made before listening (the bundled protocols depend on it)."}},
		func(s *gen.S) c19Plan {
			regs := func(most int) []c19Reg {
				var r []c19Reg
				for k := s.Intn(most + 1); k > 0; k-- {
					r = append(r, c19Reg{Proto: s.Bool(40), N: gen.Pick(s, 1, 1, 1, s.Range(0, 4)), Inner: s.Weighted(6, 2, 1)})
				}
				return r
			}
			p := c19Plan{Msgs: s.Range(1, 4), Twice: s.Intn(3), Spin: s.Intn(2000)}
			for k := s.Range(1, 6); k > 0; k-- {
				p.Groups = append(p.Groups, regs(gen.Pick(s, 3, 10, 40)))
			}
			if s.Bool(30) {
				p.Race = regs(20)
			}
			p.Late = regs(4)
			if s.Bool(20) {
				p.Refuse = s.Range(1, 8)
			}
			if s.Bool(20) {
				p.Busy = true
				p.Again = regs(4)
			}
			return p
		}, runC19)
}

func runC19(c *C, p c19Plan) {
	Bubble(c, func(e *Env) {
		port := 0
		var opts []noise.NodeOption
		if p.Busy {
			port = 6123
			opts = append(opts, noise.WithNodeBindPort(uint16(port)))
		}
		opts = append(opts, noise.WithNodeNumWorkers(1))
		a := e.Node(opts...)
		b := e.Node()
		b.Handle(func(ctx noise.HandlerContext) error {
			if ctx.IsRequest() {
				ctx.Send(ctx.Data())
			}
			return nil
		})
		if !e.Listen(b) {
			return
		}
		var mu sync.Mutex
		type item struct {
			group, seq int
			proto      bool
		}
		var items []item
		handled := map[string][]int{} // per message, handler numbers in order
		var bound []int
		var connected = map[*noise.Client][]int{}
		var failedDial []int
		refused := errors.New("refused by the protocol")
		nProto := 0
		refusal := -1
		handler := func(id int) noise.Handler {
			return func(ctx noise.HandlerContext) error {
				mu.Lock()
				k := string(ctx.Data())
				handled[k] = append(handled[k], id)
				mu.Unlock()
				return nil
			}
		}
		add := func(group, seq int, proto bool) int {
			mu.Lock()
			defer mu.Unlock()
			items = append(items, item{group, seq, proto})
			if proto && group < 100 {
				nProto++
			}
			return len(items) - 1
		}
		innerSeq := 0
		var protocol func(id, inner int) noise.Protocol
		protocol = func(id, inner int) noise.Protocol {
			return noise.Protocol{
				Bind: func(n *noise.Node) error {
					mu.Lock()
					bound = append(bound, id)
					k := len(bound)
					innerSeq++
					seq := innerSeq
					mu.Unlock()
					if n != a {
						e.Fail("a protocol is bound to another node")
					}
					if n.ID().ID != n.ID().ID || n.Addr() == "" || n.ID().Port == 0 {
						e.Fail("a protocol is bound to a node without an address")
					}
					if p.Refuse == k {
						refusal = id
						return refused
					}
					switch inner {
					case 1:
						n.Handle(handler(add(50, seq, false)))
					case 2:
						n.Bind(protocol(add(50, seq, true), 0))
					}
					return nil
				},
				OnPeerConnected: func(cl *noise.Client) {
					mu.Lock()
					connected[cl] = append(connected[cl], id)
					mu.Unlock()
				},
				OnPingFailed: func(string, error) { mu.Lock(); failedDial = append(failedDial, id); mu.Unlock() },
			}
		}
		do := func(group int, rs []c19Reg) {
			seq := 0
			for _, r := range rs {
				var hs []noise.Handler
				var ps []noise.Protocol
				for k := 0; k < r.N; k++ {
					seq++
					id := add(group, seq, r.Proto)
					if r.Proto {
						ps = append(ps, protocol(id, r.Inner))
					} else {
						hs = append(hs, handler(id))
					}
				}
				if r.Proto {
					a.Bind(ps...)
				} else {
					a.Handle(hs...)
				}
			}
		}
		var fs []func()
		start := make(chan struct{})
		for i, g := range p.Groups {
			fs = append(fs, func() { <-start; do(i, g) })
		}
		fs = append(fs, func() { close(start) })
		if !e.Within(time.Minute, func() { All(fs...) }) {
			e.Hang("registering does not end")
			return
		}
		listen := func() (err error) {
			if !e.Within(time.Minute, func() { err = a.Listen() }) {
				e.Hang("Listen does not return")
			}
			return
		}
		if p.Busy {
			l, err := e.Net.Listen("tcp", fmt.Sprintf(":%d", port))
			if err != nil {
				panic(err)
			}
			if err := listen(); err == nil {
				e.Fail("listening on a taken port succeeded")
				return
			}
			if e.Failed() {
				return
			}
			if len(bound) > 0 {
				e.Label("bound before the port is known to be free")
				return
			}
			l.Close()
			do(40, p.Again)
		}
		var lerr error
		if len(p.Race) > 0 {
			All(func() {
				for k := 0; k < p.Spin; k++ {
				}
				lerr = listen()
			}, func() { do(99, p.Race) })
		} else {
			lerr = listen()
		}
		if e.Failed() {
			return
		}
		mu.Lock()
		nb, total := len(bound), nProto
		mu.Unlock()
		if len(p.Groups) > 1 || refusal >= 0 || len(p.Race)+len(p.Late) > 0 {
			e.NonTrivial()
		}
		if refusal >= 0 {
			e.Label("refused")
			if !errors.Is(lerr, refused) {
				e.Fail("a protocol refused to be bound, and Listen returned %v", lerr)
			}
			if bound[nb-1] != refusal {
				e.Fail("protocols are bound after one that refused")
			}
			if pt := int(a.ID().Port); pt != 0 && e.Net.Bound(pt) {
				e.Fail("the port is taken after a listen that failed")
			}
			if _, err := e.Net.DialFrom(context.Background(), fmt.Sprintf("127.0.0.1:%d", a.ID().Port), policy{}, policy{}); err == nil && a.ID().Port != 0 {
				e.Fail("a node whose listen failed is reachable")
			}
			if !e.Within(time.Minute, func() { a.Close() }) {
				e.Hang("Close does not return")
			}
			return
		}
		if lerr != nil {
			e.Fail("listening failed: %v", lerr)
			return
		}
		for k := 0; k < p.Twice; k++ {
			if listen() == nil {
				e.Fail("listening twice succeeds")
			}
			if !e.Net.Bound(int(a.ID().Port)) {
				e.Fail("listening again made the node unreachable")
			}
		}
		_ = total
		do(100, p.Late)
		if len(bound) != nb {
			e.Fail("protocols are bound again, or although registered too late")
		}
		// Traffic.
		for k := 0; k < p.Msgs; k++ {
			if err := b.Send(context.Background(), a.Addr(), []byte(fmt.Sprint("message ", k))); err != nil {
				e.Fail("a send failed: %v", err)
				return
			}
		}
		if _, err := a.Ping(context.Background(), b.Addr()); err != nil {
			e.Fail("a ping failed: %v", err)
			return
		}
		a.Ping(context.Background(), "127.0.0.1:9")
		e.Settle()
		mu.Lock()
		defer mu.Unlock()
		// Which registrations count?
		must := map[int]bool{}
		may := map[int]bool{}
		for id, it := range items {
			switch {
			case it.group < 99:
				must[id] = true
			case it.group == 99:
				may[id] = true
			}
		}
		check := func(what string, got []int, proto bool) {
			n := map[int]int{}
			last := map[int]int{}
			for _, id := range got {
				n[id]++
				it := items[id]
				if it.proto != proto {
					e.Fail("%s: a wrong kind", what)
				}
				if n[id] > 1 {
					e.Fail("%s: a registration counts %d times", what, n[id])
				}
				if !must[id] && !may[id] {
					e.Fail("%s: a registration made after listening counts", what)
				}
				if it.seq <= last[it.group] {
					e.Fail("%s: registrations of one goroutine are used out of order", what)
				}
				last[it.group] = it.seq
			}
			for id := range must {
				if items[id].proto == proto && n[id] != 1 {
					e.Fail("%s: a registration made before listening counts %d times (%d of all %d)", what, n[id], len(n), len(must))
					return
				}
			}
		}
		for k := 0; k < p.Msgs; k++ {
			check("handlers", handled[fmt.Sprint("message ", k)], false)
			if k > 0 && fmt.Sprint(handled[fmt.Sprint("message ", k)]) != fmt.Sprint(handled["message 0"]) {
				e.Fail("handlers differ from message to message")
			}
		}
		check("bound protocols", bound, true)
		if len(connected) != 2 {
			if len(must) > 0 && nb > 0 {
				e.Fail("%d connections were announced instead of 2", len(connected))
			}
		}
		for _, x := range connected {
			if fmt.Sprint(x) != fmt.Sprint(bound) {
				e.Fail("protocols bound: %v, told of a connection: %v", bound, x)
			}
		}
		if fmt.Sprint(failedDial) != fmt.Sprint(bound) {
			e.Fail("protocols bound: %v, told of a failed dial: %v", bound, failedDial)
		}
	})
}
