package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"net"
	"sync"
	"time"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/gossip"
	"github.com/perlin-network/noise/kademlia"

	"verifharness/gen"
	"verifharness/wire"
)

// C09: no peer can crash or wedge a node.

const (
	hRaw = iota
	hFrame
	hAnnounce
	hHello
	hBadHello
	hHandshake
	hBadProof
	hPlain // from here on: with a session
	hGarbled
	hOpcode
	hGossip
	hPing
	hFind
	hResponse
	hEcho
	hFlood
	hSleep // from here on: always possible
	hEOF
	hReset
	hGossipMany
	hKinds
)

type hStep struct {
	Kind  int
	N     int
	Seed  int
	Nonce int // 0: message, 1: small request number, 2: huge, 3: the last number of the node's own requests
}

type hostile struct {
	AtMs  int
	Addr  int // what is at the address of its identity: 0 nothing, 1 a silent listener, 2 dials hang, 3 it answers, 4 answers with rubbish, 5 the node itself, 6 the honest peer, 7 port 0, 8 drops each connection
	Reply int // how requests of the node are answered: 0 not, 1 rubbish, 2 many identities, 3 cut identities, 4 another type, 5 properly
	Times int // so often each answer is sent
	Late  int // answers come so many ms late
	Steps []hStep
	Host  int
	Ident int
}

type c09Plan struct {
	Link    Link
	Limit   int
	Workers int
	Idle    bool
	Proto   bool
	Disc    int // the node searches this often
	Push    int // the node pushes gossip this often
	Atk     []hostile
}

func init() {
	register(&Prop{ID: "C09", Quick: 2500, Thorough: 60000, Restart: 150, Rule: "One to twenty hostile peers, with and without own addresses (none, silent, hanging, answering, answering rubbish, those of others), each of which runs up to ten steps: arbitrary bytes, frames and announcements of any length, handshakes cut or spoilt anywhere, encrypted bodies of any length, every opcode of the routing and gossip protocols with right, short and long contents as messages, requests and replies, floods that are not read, hostile answers to the node's searches; on a node with or without the protocols, whose application searches and pushes meanwhile. Afterwards an honest peer, a new one and, over the gossip protocol, all workers must be served. Non-trivial: at least one hostile peer completed a handshake and then misbehaved."},
		func(s *gen.S) c09Plan {
			p := c09Plan{Link: genLinkFast(s), Limit: gen.Pick(s, 0, 4<<20, 2000, 300), Workers: gen.Pick(s, 1, 2, 4), Idle: s.Bool(20), Proto: s.Bool(75)}
			if p.Proto {
				p.Disc, p.Push = gen.Pick(s, 0, 0, 1, 3), gen.Pick(s, 0, 0, 1, 4)
			}
			for k := gen.Pick(s, 1, 2, s.Range(1, 6), s.Range(1, 20)); k > 0; k-- {
				h := hostile{AtMs: gen.Pick(s, 0, 0, s.Intn(3000)), Addr: s.Intn(9), Reply: s.Intn(6), Host: s.Intn(4), Ident: s.Seed(), Times: gen.Pick(s, 1, 1, 2, 3), Late: gen.Pick(s, 0, 0, 900, 4000)}
				auth := s.Bool(70)
				if auth {
					h.Steps = append(h.Steps, hStep{Kind: hHandshake})
				}
				for j := s.Range(1, 10); j > 0; j-- {
					st := hStep{Kind: s.Intn(hHandshake), N: gen.Pick(s, s.Intn(8), s.Intn(40), s.Intn(300), s.Intn(5000)), Seed: s.Seed(), Nonce: s.Weighted(4, 3, 1, 2)}
					switch s.Weighted(gen.Pick(s, 0, 1), 5, 1) {
					case 1:
						if auth {
							st.Kind = hPlain + s.Intn(hSleep-hPlain)
						}
					case 2:
						st.Kind = hSleep + s.Intn(hKinds-hSleep)
					default:
						if s.Bool(30) {
							st.Kind = hBadProof
						}
					}
					h.Steps = append(h.Steps, st)
				}
				p.Atk = append(p.Atk, h)
			}
			return p
		}, runC09)
}

func hostileIDs(seed uint64, k int) []byte {
	r := gen.NewRand(seed)
	var b []byte
	for i := 0; i < k; i++ {
		id := append(gen.Expand(r.Uint64(), 32), net.IPv4(127, 0, 0, 1).To16()...)
		id = binary.BigEndian.AppendUint16(id, uint16(9000+r.Intn(5)))
		if r.Intn(10) == 0 {
			copy(id, make([]byte, 32))
		}
		b = append(b, id...)
	}
	return b
}

func runC09(c *C, p c09Plan) {
	Bubble(c, func(e *Env) {
		e.link(p.Link)
		const hangPort = 7666
		e.Net.OnDial = func(d *dialRec) outcome2 {
			if _, port, _ := net.SplitHostPort(d.Addr); port == "7666" {
				return outcome2{Hang: true}
			}
			return outcome2{}
		}
		opts := []noise.NodeOption{noise.WithNodeNumWorkers(uint(p.Workers)), noise.WithNodeMaxRecvMessageSize(uint32(p.Limit))}
		if p.Idle {
			opts = append(opts, noise.WithNodeIdleTimeout(10*time.Second))
		}
		echo := func(ctx noise.HandlerContext) error {
			if bytes.HasPrefix(ctx.Data(), []byte("\xffecho")) && ctx.IsRequest() {
				return ctx.Send(append([]byte("re"), ctx.Data()...))
			}
			return nil
		}
		var mu sync.Mutex
		heard := map[string]int{}
		mk := func(me int, o ...noise.NodeOption) (*noise.Node, *kademlia.Protocol, *gossip.Protocol) {
			n := e.Node(o...)
			var k *kademlia.Protocol
			var g *gossip.Protocol
			if p.Proto {
				k = kademlia.New()
				g = gossip.New(k, gossip.WithEvents(gossip.Events{OnGossipReceived: func(_ noise.ID, d []byte) error {
					if bytes.HasPrefix(d, []byte("bad")) {
						return errors.New("bad gossip")
					}
					if me == 0 {
						mu.Lock()
						heard[string(d)]++
						mu.Unlock()
					}
					return nil
				}}))
				n.Bind(k.Protocol(), g.Protocol())
			}
			n.Handle(echo)
			return n, k, g
		}
		x, kx, gx := mk(0, opts...)
		h, _, gh := mk(1)
		if !e.Listen(x) || !e.Listen(h) {
			return
		}
		probe := func(what string, from, to *noise.Node) {
			ctx, cancel := context.WithTimeout(context.Background(), 3*time.Minute)
			defer cancel()
			q := append([]byte("\xffecho"), what...)
			d, err := from.Request(ctx, to.Addr(), q)
			if err != nil && p.Idle { // the idle timeout may just have come
				d, err = from.Request(ctx, to.Addr(), q)
			}
			if err != nil || diff(d, append([]byte("re"), q...)) != "" {
				e.Fail("%s: %v", what, err)
			}
		}
		probe("an honest peer is not served at first", h, x)
		if e.Failed() {
			return
		}
		bad := false
		var fs []func()
		for i, a := range p.Atk {
			fs = append(fs, func() {
				time.Sleep(time.Duration(a.AtMs) * time.Millisecond)
				port := 7100 + i
				host := net.IPv4(127, 0, 0, 1)
				switch a.Addr {
				case 2:
					port = hangPort
				case 5:
					port = int(x.ID().Port)
				case 6:
					port = int(h.ID().Port)
				case 7:
					port = 0
				}
				switch a.Host {
				case 1:
					host = net.IPv6loopback
				case 2:
					host = net.IPv4zero
				}
				me := wire.NewIdentity(gen.Expand(uint64(a.Ident)+uint64(i), 32), host, uint16(port))
				lastReq := uint64(0)
				// respond reads a session and answers the node's requests.
				respond := func(s *wire.Session, got func(d []byte)) {
					for left := 200; ; left-- {
						nc, d, err := s.Recv()
						if err != nil {
							return
						}
						mu.Lock()
						lastReq = nc
						mu.Unlock()
						got(d)
						if nc == 0 || len(d) < 2 || left < 0 {
							continue
						}
						op := binary.BigEndian.Uint16(d)
						if op > 5 {
							continue
						}
						answer := func(nonce uint64, b []byte) {
							for k := max(a.Times, 1); k > 0; k-- {
								s.Send(nonce, b)
							}
						}
						if a.Late > 0 {
							time.Sleep(time.Duration(a.Late) * time.Millisecond)
						}
						switch a.Reply {
						case 1:
							answer(nc, gen.Expand(uint64(a.Ident), a.Ident%70))
						case 2:
							k := a.Ident % 256
							answer(nc, append([]byte{0, 3, byte(k)}, hostileIDs(uint64(a.Ident), k)...))
						case 3:
							k := a.Ident % 256
							b := hostileIDs(uint64(a.Ident), k)
							if len(b) > 0 {
								b = b[:a.Ident%len(b)]
							}
							answer(nc, append([]byte{0, 3, byte(k)}, b...))
						case 4:
							answer(nc, []byte{0, byte(a.Ident % 6)})
						case 5:
							if op == 0 {
								answer(nc, []byte{0, 1})
							} else {
								answer(nc, []byte{0, 3, 0})
							}
						}
					}
				}
				if a.Addr == 1 || a.Addr == 3 || a.Addr == 4 || a.Addr == 8 {
					l, err := e.Net.Listen("tcp", net.JoinHostPort("", itoa(port)))
					if err == nil {
						e.Defer(func() { l.Close() })
						go func() {
							for {
								cn, err := l.Accept()
								if err != nil {
									return
								}
								switch a.Addr {
								case 3:
									go func() {
										if s, err := wire.Handshake(cn, me); err == nil {
											respond(s, func([]byte) {})
										}
									}()
								case 4:
									cn.Write(gen.Expand(uint64(a.Ident), 300))
								case 8:
									cn.Close()
								}
							}
						}()
					}
				}
				cn, err := e.Net.DialFrom(context.Background(), x.Addr(), p.Link.policy(), p.Link.policy())
				if err != nil {
					e.Fail("the node accepts no connection: %v", err)
					return
				}
				// Nothing the hostile peer does may block it for long.
				put := func(b []byte) {
					cn.SetWriteDeadline(time.Now().Add(5 * time.Second))
					cn.Write(b)
				}
				var ses *wire.Session
				eof, partial, tampered := false, false, false
				var em sync.Mutex
				echoes := map[string]bool{}
				for si, st := range a.Steps {
					rnd := gen.Expand(uint64(st.Seed), st.N)
					nonce := uint64(0)
					switch st.Nonce {
					case 1:
						nonce = uint64(1 + st.Seed%5)
					case 2:
						nonce = ^uint64(st.Seed % 3)
					case 3:
						mu.Lock()
						nonce = lastReq
						mu.Unlock()
					}
					if st.Kind >= hPlain && st.Kind < hSleep || st.Kind == hGossipMany {
						if ses == nil {
							continue
						}
						mu.Lock()
						bad = true
						mu.Unlock()
					} else if st.Kind < hSleep && st.Kind != hHandshake {
						tampered = true
					}
					seal := func(plain []byte) { put(wire.Frame(wire.Seal(ses.A, plain))) }
					switch st.Kind {
					case hRaw:
						put(rnd)
						partial = true
					case hFrame:
						put(wire.Frame(rnd))
					case hAnnounce:
						var b [4]byte
						binary.BigEndian.PutUint32(b[:], gen.Pick(gen.New(int64(st.Seed), "", 0, 1), uint32(1<<32-1), 1<<31, 1<<24, uint32(st.N), 2001, 4<<20+1))
						put(append(b[:], rnd...))
						partial = true
					case hHello:
						put(wire.Frame(wire.Hello(wire.GenEph())))
					case hBadHello:
						b := wire.Hello(wire.GenEph())
						b[st.Seed%len(b)] ^= 1 << (st.N % 8)
						if st.N%5 == 0 {
							b = append(b, rnd...)
						}
						put(wire.Frame(b))
					case hHandshake, hBadProof:
						if ses != nil || tampered && st.Kind == hHandshake {
							continue
						}
						cn.SetDeadline(time.Now().Add(10 * time.Second))
						s := &wire.Session{Conn: cn, Eph: wire.GenEph()}
						put(wire.Frame(wire.Hello(s.Eph)))
						f, err := wire.ReadFrame(cn)
						if err == nil && s.Derive(f) == nil {
							if st.Kind == hBadProof {
								b := s.Proof(me)
								switch st.Seed % 3 {
								case 0:
									b = rnd
								case 1:
									b[st.Seed/3%len(b)] ^= 1 << (st.N % 8)
								case 2:
									b = b[:st.N%len(b)]
								}
								seal := wire.Seal(s.A, b)
								put(wire.Frame(seal))
							} else {
								put(wire.Frame(wire.Seal(s.A, s.Proof(me))))
								if s.ReadProof() == nil {
									ses = s
									cn.SetDeadline(time.Time{})
									go respond(s, func(d []byte) {
										em.Lock()
										echoes[string(d)] = true
										em.Unlock()
									})
								}
							}
						}
					case hPlain:
						seal(rnd[:min(len(rnd), st.Seed%24)])
					case hGarbled:
						put(wire.Frame(rnd))
					case hOpcode:
						op := gen.Pick(gen.New(int64(st.Seed), "", 1, 1), 0, 1, 2, 3, 4, 5, 6, 255, 256, 65535)
						b := binary.BigEndian.AppendUint16(nil, uint16(op))
						seal(wire.Body(nonce, append(b, rnd...)))
					case hGossip:
						pre := []byte{0, 4}
						if st.Seed%7 == 0 {
							pre = append(pre, "bad"...)
						}
						seal(wire.Body(nonce, append(pre, rnd...)))
					case hGossipMany:
						for k := 0; k < 2+st.Seed%20; k++ {
							seal(wire.Body(0, append(append([]byte{0, 4}, byte(k), byte(si), byte(i)), rnd...)))
						}
					case hPing:
						seal(wire.Body(nonce, append([]byte{0, 0}, rnd[:min(len(rnd), st.Seed%4)]...)))
					case hFind:
						k := gen.Pick(gen.New(int64(st.Seed), "", 2, 1), 32, 32, 31, 33, 0, 1)
						seal(wire.Body(nonce, append([]byte{0, 2}, gen.Expand(uint64(st.Seed), k)...)))
					case hResponse:
						k := st.Seed % 256
						b := hostileIDs(uint64(st.Seed), k)
						if len(b) > 0 && st.N%2 == 0 {
							b = b[:st.N%len(b)]
						}
						seal(wire.Body(nonce, append([]byte{0, 3, byte(k)}, b...)))
					case hEcho:
						seal(wire.Body(max(nonce, 1), []byte("\xffecho hostile")))
					case hFlood:
						b := wire.Body(7, append([]byte("\xffecho"), make([]byte, st.N%1500)...))
						for k := 0; k < st.Seed%300; k++ {
							seal(b)
						}
					case hSleep:
						time.Sleep(time.Duration(st.N) * time.Millisecond)
					case hEOF:
						cn.Out().EOF()
						eof = true
					case hReset:
						cn.Reset()
						eof = true
					}
				}
				if ses == nil || eof || partial {
					return
				}
				// A good request now is answered, or the connection is closed.
				q := append([]byte("\xffecho after"), byte(i))
				cn.SetWriteDeadline(time.Now().Add(time.Minute))
				if ses.Send(1<<50, q) != nil {
					return
				}
				want := string(append([]byte("re"), q...))
				cn.SetWriteDeadline(time.Time{})
				if !e.Wait(3*time.Minute, time.Second, func() bool {
					em.Lock()
					defer em.Unlock()
					return echoes[want] || cn.Peer().Closed()
				}) {
					e.Fail("a connection on which something bad arrived is neither closed nor served")
				}
			})
		}
		app := make(chan struct{})
		go func() {
			defer close(app)
			for i := 0; i < max(p.Disc, p.Push); i++ {
				time.Sleep(700 * time.Millisecond)
				if i < p.Push {
					ctx, cancel := context.WithTimeout(context.Background(), 2*time.Second)
					gx.Push(ctx, []byte{byte(i), 'x'})
					cancel()
				}
				if i < p.Disc {
					kx.Discover(kademlia.WithIteratorLookupTimeout(time.Second))
				}
			}
		}()
		All(fs...)
		time.Sleep(5 * time.Second)
		if bad {
			e.NonTrivial()
		}
		n2, _, _ := mk(2)
		if !e.Listen(n2) {
			return
		}
		All(func() { probe("an honest peer is not served any more", h, x) },
			func() { probe("a new peer is not served", n2, x) },
			func() { probe("the node cannot reach an honest peer", x, h) })
		if p.Proto && !e.Failed() {
			for i := 0; i < 3; i++ {
				ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
				gh.Push(ctx, []byte{'h', byte(i)})
				cancel()
			}
			if !e.Wait(3*time.Minute, time.Second, func() bool {
				mu.Lock()
				defer mu.Unlock()
				return heard["h\x00"] == 1 && heard["h\x01"] == 1 && heard["h\x02"] == 1
			}) {
				e.Fail("gossip of an honest peer is not taken any more")
			}
		}
		_ = app
	})
}
