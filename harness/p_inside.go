package main

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/gossip"
	"github.com/perlin-network/noise/kademlia"

	"verifharness/gen"
	"verifharness/vnet"
)

// C37: a node can be used from within everything it calls.

// Places from which the node is used.
const (
	inMsg      = iota // handler of a plain message
	inReq             // handler of a request, before the response
	inReqAfter        // handler of a request, after the response
	inDecode
	inMarshal
	inGossip
	inPingFailed
	inConnected // from here on: callbacks that a connection waits for
	inDisconnected
	inSent
	inRecv
	inAdmitted
	inActivity
	inEvicted
	inPlaces
)

var inNames = []string{"the handler of a message", "the handler of a request", "the handler of an answered request", "a decoder", "Marshal", "OnGossipReceived", "OnPingFailed", "OnPeerConnected", "OnPeerDisconnected", "OnMessageSent", "OnMessageRecv", "OnPeerAdmitted", "OnPeerActivity", "OnPeerEvicted"}

// Actions. The first ones do not wait for anything.
const (
	actLists = iota
	actSelf
	actCodec
	actClients
	actTable
	actAlter
	actAck
	actBind
	actRegister
	actClose
	actSend // from here on: with a context
	actSendMsg
	actRequest
	actRequestMsg
	actPing
	actDead
	actDiscover
	actOverlayPing
	actPush
	actKinds
)

var actNames = []string{"Inbound/Outbound", "ID/Addr/Sign", "EncodeMessage/DecodeMessage", "Client.Error/ID/SetLogger", "Table queries", "Table changes", "Ack", "Bind/Handle", "RegisterMessage", "Client.Close", "Send", "SendMessage", "Request", "RequestMessage", "Ping", "Ping of an unreachable address", "Discover", "overlay Ping", "Push"}

type c37Rule struct {
	Place int
	Nth   int // fires at the Nth time the place is reached
	Go    bool
	Act   int
	To    int
	Ctx   int // ms
	Then  int // another action that follows, not waiting; -1: none
}

type c37Op struct {
	At   int
	Kind int // 0 peer sends, 1 peer requests, 2 peer sends typed, 3 peer requests typed, 4 an action of the node, 5 peer pushes gossip, 6 peer closes its connections
	Peer int
	Act  int
	Ctx  int
}

type c37Plan struct {
	Link    Link
	Peers   int
	Workers int
	Kad     bool
	Calm    bool // nothing is closed: everything has to work
	Reply   bool // peers send something back to each message
	Hang    bool // unreachable addresses hang
	Max     int
	Rules   []c37Rule
	Ops     []c37Op
}

type c37Msg struct {
	B    []byte
	hook func()
}

func (m c37Msg) Marshal() []byte {
	if m.hook != nil {
		m.hook()
	}
	return m.B
}

func c37Decode(hook func()) func(b []byte) (c37Msg, error) {
	return func(b []byte) (c37Msg, error) {
		if hook != nil {
			hook()
		}
		return c37Msg{B: append([]byte{}, b...)}, nil
	}
}

func init() {
	register(&Prop{ID: "C37", Quick: 8000, Thorough: 300000, Rule: "A node, with or without the Kademlia and gossip protocols, and one to three peers; up to twelve events (messages, requests, typed ones, gossip, calls of the node, connections that end), and one to eight rules: on the n-th time a place (message handlers, decoders, Marshal, OnPeerConnected, OnPeerDisconnected, OnPingFailed, OnMessageSent, OnMessageRecv, the events of the overlay, OnGossipReceived) is reached, the node is used from there, in the same goroutine or in one of its own, by one of nineteen kinds of calls. Calls that wait for nothing must take no time, calls with a context must return when it ends, calls must succeed where nothing stands in their way, and afterwards the node and its peers exchange requests. Non-trivial: at least two rules fired."},
		func(s *gen.S) c37Plan {
			p := c37Plan{Link: genLinkFast(s), Peers: s.Range(1, 3), Workers: gen.Pick(s, 1, 1, 2, 8), Kad: s.Bool(60), Calm: s.Bool(50), Hang: s.Bool(50), Max: 128}
			if p.Reply = s.Bool(40); p.Reply && p.Calm {
				p.Workers = 64 // with few, all may be waiting while responses are behind other messages
			}
			if !p.Calm {
				p.Max = gen.Pick(s, 128, 128, 1, 2)
			}
			can := func(a int) bool {
				switch a {
				case actTable, actAck, actDiscover, actOverlayPing, actPush:
					return p.Kad
				case actClose:
					return !p.Calm
				case actAlter:
					return p.Kad && !p.Calm
				}
				return true
			}
			act := func(lo int) int {
				var l []int
				for a := lo; a < actKinds; a++ {
					if can(a) {
						l = append(l, a)
						if a >= actSend {
							l = append(l, a)
						}
					}
				}
				return gen.Pick(s, l...)
			}
			var places []int
			for i := 0; i < inPlaces; i++ {
				if p.Kad || i != inGossip && i < inAdmitted {
					places = append(places, i)
				}
			}
			ctx := func() int { return gen.Pick(s, 50, s.Range(1, 3000)) }
			nest := false
			slow := 0 // rules of a calm plan which have a connection wait
			for k := s.Range(1, 8); k > 0; k-- {
				r := c37Rule{Nth: gen.Pick(s, 1, 1, s.Range(1, 4)), Go: s.Bool(25), To: s.Intn(p.Peers), Ctx: ctx(), Then: -1}
				r.Place = gen.Pick(s, places...)
				r.Act = act(0)
				if p.Calm && !r.Go && r.Act >= actSend && r.Place >= inPingFailed {
					// The one whose connection waits must not be the one that is waited for.
					if r.Act == actDead || r.Act == actDiscover || r.Act == actPush || slow > 0 || p.Peers < 2 || r.Place >= inAdmitted || r.Place == inPingFailed {
						if r.Act = s.Intn(actClose); !can(r.Act) {
							r.Act = actLists
						}
					} else {
						slow++
					}
				}
				if s.Bool(30) {
					r.Then = gen.Pick(s, actLists, actSelf, actCodec, actClients)
				}
				if r.Place >= inPingFailed && (r.Act == actCodec || r.Then == actCodec) {
					nest = true
				}
				p.Rules = append(p.Rules, r)
			}
			if p.Calm && (slow > 0 || nest) { // nothing else may wait inside of what that one waits for
				for i := range p.Rules {
					if r := &p.Rules[i]; (r.Place == inMarshal || r.Place == inDecode || r.Place == inPingFailed) && r.Act >= actSend {
						r.Go = true
					}
				}
			}
			for k := s.Range(2, 12); k > 0; k-- {
				o := c37Op{At: gen.Pick(s, 0, s.Intn(100), s.Intn(3000)), Kind: s.Weighted(3, 3, 2, 3, 6, 2, 2), Peer: s.Intn(p.Peers), Ctx: ctx()}
				if o.Kind == 5 && !p.Kad || o.Kind == 6 && p.Calm {
					o.Kind = 3
				}
				o.Act = act(actClose)
				p.Ops = append(p.Ops, o)
			}
			return p
		}, runC37)
}

func runC37(c *C, p c37Plan) {
	Bubble(c, func(e *Env) {
		ms := time.Millisecond
		e.link(p.Link)
		e.Net.OnDial = func(d *vnet.Dial) vnet.Outcome {
			if strings.HasPrefix(d.Addr, "127.0.0.1:6") { // the unreachable ones
				return vnet.Outcome{Delay: ms, Refuse: !p.Hang, Hang: p.Hang}
			}
			return vnet.Outcome{}
		}
		var mu sync.Mutex
		var running, fired, nextID, dead, typ int
		stuck := map[string]int{}
		ready := false // everything is set up
		reached := make([]int, inPlaces)
		arrived := map[uint64]int{} // at the peers, by number
		sent := map[uint64]string{}

		var a *noise.Node
		var overlay *kademlia.Protocol
		var goss *gossip.Protocol
		peers := make([]*noise.Node, p.Peers)
		povers := make([]*kademlia.Protocol, p.Peers)
		pgoss := make([]*gossip.Protocol, p.Peers)
		id := func() uint64 {
			mu.Lock()
			defer mu.Unlock()
			nextID++
			return uint64(nextID)
		}
		// The longest that the rules may hold up a call, one inside of the other.
		slack := 2 * time.Second
		for _, r := range p.Rules {
			slack += time.Duration(r.Ctx)*ms + 20*time.Second
		}

		var reach func(place int, own *noise.Client)
		act := func(what string, k, to, ctxMs int, own *noise.Client) {
			if k >= actSend && p.Calm && k != actDead {
				ctxMs = 20000
				if own != nil && p.Peers > 1 && own.ID().ID == peers[to].ID().ID {
					to = (to + 1) % p.Peers
				}
			}
			what = fmt.Sprintf("%s from %s", actNames[k], what)
			mu.Lock()
			running++
			stuck[what]++
			mu.Unlock()
			defer func() {
				mu.Lock()
				running--
				stuck[what]--
				mu.Unlock()
			}()
			at := e.Net.Now()
			ctx, cancel := ctxFor(ctxMs)
			defer cancel()
			addr := peers[to].Addr()
			var err error
			hook := func() { reach(inMarshal, nil) }
			switch k {
			case actLists:
				for _, cl := range append(a.Inbound(), a.Outbound()...) {
					if cl == nil {
						e.Fail("%s: a nil client is listed", what)
					}
				}
			case actSelf:
				if a.ID().Address != a.Addr() || !a.ID().ID.Verify([]byte("x"), a.Sign([]byte("x"))) || a.Logger() == nil {
					e.Fail("%s: the node is %v at %s", what, a.ID(), a.Addr())
				}
			case actCodec:
				b, err := a.EncodeMessage(c37Msg{B: []byte("abc")})
				if err != nil {
					e.Fail("%s: %v", what, err)
				}
				m, err := a.DecodeMessage(b)
				if err != nil || string(m.(c37Msg).B) != "abc" {
					e.Fail("%s: %v", what, err)
				}
			case actClients:
				l := append(a.Inbound(), a.Outbound()...)
				if own != nil {
					l = append(l, own)
				}
				for _, cl := range l {
					cl.Error()
					cl.ID()
					cl.SetLogger(cl.Logger())
				}
			case actTable:
				t := overlay.Table()
				t.Entries()
				t.Peers()
				t.NumEntries()
				t.Recorded(peers[to].ID().ID)
				t.Bucket(peers[to].ID().ID)
				t.FindClosest(peers[to].ID().ID, 16)
				t.Last(peers[to].ID().ID)
			case actAlter:
				t := overlay.Table()
				t.Update(peers[to].ID())
				t.Delete(peers[(to+1)%p.Peers].ID().ID)
				t.DeleteByAddress(addr)
			case actAck:
				overlay.Ack(peers[to].ID())
			case actBind:
				a.Bind(noise.Protocol{OnMessageSent: func(*noise.Client) { e.Fail("a protocol bound late is called") }})
				a.Handle(func(noise.HandlerContext) error { e.Fail("a handler registered late is called"); return nil })
			case actRegister:
				mu.Lock()
				k := typ
				typ++
				mu.Unlock()
				if k < len(codecTypes) {
					a.RegisterMessage(codecTypes[k].proto, codecTypes[k].de)
				}
			case actClose:
				l := append(a.Inbound(), a.Outbound()...)
				if own != nil && to == 0 {
					own.Close()
				} else if len(l) > 0 {
					l[to%len(l)].Close()
				}
			case actSend, actSendMsg:
				n := id()
				if k == actSend {
					b := payload(n, 100)
					err = a.Send(ctx, addr, append([]byte{0xff, 0xff}, b...))
				} else {
					err = a.SendMessage(ctx, addr, c37Msg{B: payload(n, 100), hook: hook})
				}
				if err == nil {
					mu.Lock()
					sent[n] = what
					mu.Unlock()
				}
			case actRequest:
				n := id()
				b := append([]byte{0xff, 0xff}, payload(n, 100)...)
				var r []byte
				if r, err = a.Request(ctx, addr, b); err == nil {
					if d := diff(r, b); d != "" {
						e.Fail("%s returned another response: %s", what, d)
					}
				}
			case actRequestMsg:
				n := id()
				b := payload(n, 100)
				var r noise.Serializable
				if r, err = a.RequestMessage(ctx, addr, c37Msg{B: b, hook: hook}); err == nil {
					if d := diff(r.(c37Msg).B, b); d != "" {
						e.Fail("%s returned another response: %s", what, d)
					}
				}
			case actPing:
				_, err = a.Ping(ctx, addr)
			case actDead:
				mu.Lock()
				dead++
				d := fmt.Sprintf("127.0.0.1:%d", 6000+dead%3)
				mu.Unlock()
				if _, err := a.Ping(ctx, d); err == nil {
					e.Fail("%s worked", what)
				}
			case actDiscover:
				overlay.Discover(kademlia.WithIteratorLookupTimeout(time.Duration(ctxMs) * ms))
			case actOverlayPing:
				err = overlay.Ping(ctx, addr)
			case actPush:
				goss.Push(ctx, payload(id(), 40))
			}
			took := e.Net.Now() - at
			if k < actSend && k != actAck && took > 0 && !e.real && k != actCodec {
				e.Fail("%s took %v", what, took)
			}
			if lim := time.Duration(ctxMs)*ms + slack; k >= actSend && k != actDiscover && took > lim {
				e.Fail("%s returned after %v, and its context had ended after %d ms", what, took, ctxMs)
			}
			if p.Calm && err != nil {
				e.Fail("%s failed, though nothing stands in its way: %v", what, err)
			}
		}
		reach = func(place int, own *noise.Client) {
			mu.Lock()
			if !ready {
				mu.Unlock()
				return
			}
			reached[place]++
			var todo []c37Rule
			for _, r := range p.Rules {
				if r.Place == place && r.Nth == reached[place] {
					todo = append(todo, r)
				}
			}
			fired += len(todo)
			running += len(todo)
			mu.Unlock()
			for _, r := range todo {
				f := func() {
					defer func() {
						mu.Lock()
						running--
						mu.Unlock()
					}()
					act(inNames[place], r.Act, r.To, r.Ctx, own)
					if r.Then >= 0 {
						act(inNames[place], r.Then, r.To, r.Ctx, own)
					}
				}
				if r.Go {
					go f()
				} else {
					f()
				}
			}
		}

		make1 := func(i int) *noise.Node {
			opts := []noise.NodeOption{noise.WithNodeMaxDialAttempts(2)}
			if i < 0 {
				opts = append(opts, noise.WithNodeNumWorkers(uint(p.Workers)), noise.WithNodeMaxInboundConnections(uint(p.Max)), noise.WithNodeMaxOutboundConnections(uint(p.Max)))
			}
			n := e.Node(opts...)
			var hook func()
			if i < 0 {
				hook = func() { reach(inDecode, nil) }
			}
			n.RegisterMessage(c37Msg{}, c37Decode(hook))
			if p.Kad {
				var ev kademlia.Events
				var gv gossip.Events
				if i < 0 {
					ev = kademlia.Events{
						OnPeerAdmitted: func(noise.ID) { reach(inAdmitted, nil) },
						OnPeerActivity: func(noise.ID) { reach(inActivity, nil) },
						OnPeerEvicted:  func(noise.ID) { reach(inEvicted, nil) },
					}
					gv = gossip.Events{OnGossipReceived: func(noise.ID, []byte) error { reach(inGossip, nil); return nil }}
				}
				o := kademlia.New(kademlia.WithProtocolEvents(ev))
				g := gossip.New(o, gossip.WithEvents(gv))
				n.Bind(o.Protocol(), g.Protocol())
				if i < 0 {
					overlay, goss = o, g
				} else {
					povers[i], pgoss[i] = o, g
				}
			}
			if i < 0 {
				n.Bind(noise.Protocol{
					OnPeerConnected:    func(cl *noise.Client) { reach(inConnected, cl) },
					OnPeerDisconnected: func(cl *noise.Client) { reach(inDisconnected, cl) },
					OnPingFailed:       func(string, error) { reach(inPingFailed, nil) },
					OnMessageSent:      func(cl *noise.Client) { reach(inSent, cl) },
					OnMessageRecv:      func(cl *noise.Client) { reach(inRecv, cl) },
				})
			}
			n.Handle(func(ctx noise.HandlerContext) error {
				b := ctx.Data()
				typed := false
				if m, err := ctx.DecodeMessage(); err == nil {
					t, ok := m.(c37Msg)
					if !ok {
						return nil
					}
					typed, b = true, t.B
				} else if len(b) > 2 {
					b = b[2:]
				}
				if !ctx.IsRequest() {
					if n, ok := payloadID(b); ok && i >= 0 {
						mu.Lock()
						arrived[n]++
						mu.Unlock()
						if p.Reply {
							ctx.Send(append([]byte{0xff, 0xff}, payload(1<<41, 20)...))
						}
					}
					if i < 0 {
						reach(inMsg, nil)
					}
					return nil
				}
				if i < 0 {
					reach(inReq, nil)
				}
				var err error
				if typed {
					m := c37Msg{B: b}
					if i < 0 {
						m.hook = func() { reach(inMarshal, nil) }
					}
					err = ctx.SendMessage(m)
				} else {
					err = ctx.Send(ctx.Data())
				}
				if i < 0 {
					reach(inReqAfter, nil)
				}
				return err
			})
			return n
		}
		for i := range peers {
			peers[i] = make1(i)
			if !e.Listen(peers[i]) {
				return
			}
		}
		a = make1(-1)
		if !e.Listen(a) {
			return
		}
		mu.Lock()
		ready = true
		mu.Unlock()

		ends := false
		var wg sync.WaitGroup
		for _, o := range p.Ops {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(time.Duration(o.At) * ms)
				b := peers[o.Peer]
				ctx, cancel := ctxFor(300000)
				defer cancel()
				var err error
				what := ""
				switch o.Kind {
				case 0, 2:
					d := payload(1<<40, 60)
					what = "a message of a peer"
					if o.Kind == 0 {
						err = b.Send(ctx, a.Addr(), append([]byte{0xff, 0xff}, d...))
					} else {
						err = b.SendMessage(ctx, a.Addr(), c37Msg{B: d})
					}
				case 1, 3:
					d := append([]byte{0xff, 0xff}, payload(1<<40, 60)...)
					what = "a request of a peer"
					if o.Kind == 1 {
						var r []byte
						if r, err = b.Request(ctx, a.Addr(), d); err == nil && diff(r, d) != "" {
							e.Fail("%s was answered with other bytes: %s", what, diff(r, d))
						}
					} else {
						var r noise.Serializable
						if r, err = b.RequestMessage(ctx, a.Addr(), c37Msg{B: d}); err == nil && diff(r.(c37Msg).B, d) != "" {
							e.Fail("%s was answered with other bytes", what)
						}
					}
				case 4:
					act("outside", o.Act, o.Peer, o.Ctx, nil)
				case 5:
					what = "an overlay ping of a peer"
					if err = povers[o.Peer].Ping(ctx, a.Addr()); err == nil {
						pgoss[o.Peer].Push(ctx, payload(uint64(o.At)<<20+uint64(o.Peer), 30))
					}
				case 6:
					for _, cl := range append(b.Inbound(), b.Outbound()...) {
						cl.Close()
					}
				}
				if err != nil && p.Calm {
					e.Fail("%s failed, though nothing stands in its way: %v", what, err)
				}
			}()
		}
		over := false
		if e.Within(20*time.Minute, func() {
			wg.Wait()
			over = e.Wait(10*time.Minute, time.Second, func() bool {
				mu.Lock()
				defer mu.Unlock()
				return running == 0
			})
		}) {
			ends = true
		}
		mu.Lock()
		ready = false
		list := ""
		for w, n := range stuck {
			if n > 0 {
				list = w
			}
		}
		n := fired
		mu.Unlock()
		if !ends || !over {
			e.Hang("calls made by the callbacks of a node do not return: %s", list)
			return
		}
		for _, r := range p.Rules {
			e.Label("rule in " + inNames[r.Place])
		}
		if n >= 2 {
			e.NonTrivial()
		}
		if p.Calm {
			e.Label("calm")
			if !e.Wait(time.Minute, 100*ms, func() bool {
				mu.Lock()
				defer mu.Unlock()
				return len(lost(sent, arrived)) == 0
			}) {
				mu.Lock()
				defer mu.Unlock()
				for _, l := range lost(sent, arrived) {
					e.Fail("a message never arrived: %s", l)
				}
				return
			}
		}
		time.Sleep(5 * time.Second) // connections that peers have closed are known to be
		// Everything still works.
		for i, b := range peers {
			ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
			d := append([]byte{0xff, 0xff}, payload(uint64(i), 300)...)
			var e1, e2 error
			if !e.Within(5*time.Minute, func() {
				_, e1 = a.Request(ctx, b.Addr(), d)
				_, e2 = b.Request(ctx, a.Addr(), d)
			}) {
				e.Hang("a request after all of this does not return")
			}
			cancel()
			if p.Max >= p.Peers {
				if e1 != nil {
					e.Fail("the node cannot send a request to a peer any more: %v", e1)
				}
				if e2 != nil {
					e.Fail("the node does not answer a peer any more: %v", e2)
				}
			}
		}
	})
}

func lost(sent map[uint64]string, arrived map[uint64]int) []string {
	var out []string
	for n, w := range sent {
		if arrived[n] != 1 {
			out = append(out, fmt.Sprintf("%s (arrived %d times)", w, arrived[n]))
		}
	}
	return out
}
