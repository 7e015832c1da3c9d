package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/perlin-network/noise"

	"verifharness/gen"
	"verifharness/vnet"
	"verifharness/wire"
)

// C20: a node's address and identity are what its peers see and can dial.

type c20Node struct {
	Host   string // what it binds to ("": not configured)
	Mapped bool   // IPv4 hosts are given in 16 bytes
	Port   int
	Addr   string // configured public address
	ID     bool   // configured through WithNodeID, with another key
	Key    bool   // own private key
	Busy   bool   // the port is taken, until the listen has failed
	Order  int
}

type c20Plan struct {
	Link  Link
	Nodes []c20Node
	Pairs []int // dials between nodes: from*8+to
	Raw   bool  // a wire peer dials too and checks the bytes of the identity
	Msgs  int
}

var c20hosts = []string{"", "", "127.0.0.1", "::1", "0.0.0.0", "::", "10.1.2.3", "10.1.2.4", "fd00::7", "fd00::100:0", "172.16.0.255"}
var c20local = []string{"10.1.2.3", "10.1.2.4", "fd00::7", "fd00::100:0", "172.16.0.255"}

// Public addresses; those of the second group cannot be advertised, or only in part.
var c20good = []string{"192.0.2.7:4321", "198.51.100.1:1", "203.0.113.255:65535", "[2001:db8::1]:99", "[2001:db8:0:1::]:8080", "[fe80::1:0:0:2]:30000", "255.255.255.254:443", "1.2.3.4:0"}
var c20odd = []string{"192.0.2.7", "192.0.2.7:65536", "192.0.2.7:-1", "[2001:db8::1]", "2001:db8::1:80", "192.0.2.7:", "127.0.0.1:5", ":99", "0.0.0.0:77", "[::]:78", "[::1]:79"}

func init() {
	register(&Prop{ID: "C20", Quick: 5000, Thorough: 150000, Rule: "Two to five nodes with generated bind hosts (none, loopback, unspecified, several IPv4 and IPv6 addresses of the machine in both lengths, a foreign one), bind ports (any, fixed, taken), public addresses (none, IPv4, IPv6, without host, malformed; given as address or within an identity), keys (generated or loaded), over links with latency and fragmentation; each node may be dialled by each other, by a wire peer that reads the identity's bytes. Compared are identities as seen by both ends (clients and handler contexts, before and after further traffic), the node's own ID and Addr, the key it signs with, and, without a public address, whether dialling its address reaches it. A failed listen must leave no listener behind. Non-trivial: a connection between nodes of which one is bound to or advertises a specific address, or a listen that failed.",
		Assume: []string{"Public addresses without a specific host (loopback, unspecified) may be refused by Listen.", "The network is that of one machine, as package net behaves on Linux."}},
		func(s *gen.S) c20Plan {
			p := c20Plan{Link: genLink(s), Raw: s.Bool(40), Msgs: s.Intn(4)}
			for k := s.Range(2, 5); k > 0; k-- {
				n := c20Node{Host: gen.Pick(s, c20hosts...), Mapped: s.Bool(50), Key: s.Bool(30), ID: s.Bool(20), Order: s.Intn(24)}
				if s.Bool(5) {
					n.Host = gen.Pick(s, "8.8.8.8", "2001:db8::9")
				}
				if s.Bool(40) {
					n.Port = gen.Pick(s, 6000+k, 1+s.Intn(65535), 65535, 1)
				}
				switch s.Weighted(6, 4, 1, 1) {
				case 1:
					n.Addr = gen.Pick(s, c20good...)
				case 2:
					n.Addr = gen.Pick(s, c20odd...)
				case 3:
					if s.Bool(50) {
						n.Addr = net.IP(s.Bytes(4)).String() + ":" + itoa(s.Intn(65536))
					} else {
						n.Addr = "[" + net.IP(s.Bytes(16)).String() + "]:" + itoa(s.Intn(65536))
					}
				}
				if n.Port != 0 && s.Bool(15) {
					n.Busy = true
				}
				p.Nodes = append(p.Nodes, n)
			}
			for k := s.Range(1, 8); k > 0; k-- {
				p.Pairs = append(p.Pairs, s.Intn(len(p.Nodes))*8+s.Intn(len(p.Nodes)))
			}
			return p
		}, runC20)
}

// c20public tells what a configured public address must be advertised as; ok is false if it may be refused instead,
// must if it has to be.
func c20public(a string) (host net.IP, port uint16, ok, must bool) {
	h, ps, err := net.SplitHostPort(a)
	if err != nil {
		return nil, 0, false, true
	}
	pn, err := strconv.Atoi(ps)
	if ps == "" {
		return nil, 0, false, false
	}
	if err != nil || pn < 0 || pn > 65535 {
		return nil, 0, false, true
	}
	host = net.ParseIP(h)
	if host == nil {
		return nil, uint16(pn), false, h != ""
	}
	if host.IsLoopback() || host.IsUnspecified() {
		return host, uint16(pn), false, false
	}
	return host, uint16(pn), true, false
}

func runC20(c *C, p c20Plan) {
	Bubble(c, func(e *Env) {
		e.link(p.Link)
		for _, l := range c20local {
			ip := net.ParseIP(l)
			if v4 := ip.To4(); v4 != nil {
				ip = v4
			}
			e.Net.Local = append(e.Net.Local, ip)
		}
		type live struct {
			n     *noise.Node
			id    noise.ID
			reach string // where it can be dialled
			spec  bool
		}
		var mu sync.Mutex
		seen := map[noise.PublicKey][]noise.ID{} // by handlers and callbacks, of any node
		note := func(id noise.ID) {
			mu.Lock()
			seen[id.ID] = append(seen[id.ID], id)
			mu.Unlock()
		}
		var nodes []*live
		open := 0
		for i, q := range p.Nodes {
			var opts []noise.NodeOption
			pub, priv, _ := noise.GenerateKeys(nil)
			if q.Key {
				opts = append(opts, noise.WithNodePrivateKey(priv))
			}
			var host net.IP
			if q.Host != "" {
				host = net.ParseIP(q.Host)
				if v4 := host.To4(); v4 != nil && !q.Mapped {
					host = v4
				}
				opts = append(opts, noise.WithNodeBindHost(append(net.IP{}, host...)))
			}
			if q.Port != 0 {
				opts = append(opts, noise.WithNodeBindPort(uint16(q.Port)))
			}
			addr := q.Addr
			var given noise.ID
			if addr != "" {
				if h, pn, ok, _ := c20public(addr); q.ID && ok {
					other, _, _ := noise.GenerateKeys(nil)
					id := noise.NewID(other, h, pn)
					addr = id.Address
					given = id
					opts = append(opts, noise.WithNodeID(id))
				} else {
					opts = append(opts, noise.WithNodeAddress(addr))
				}
			}
			if len(opts) > 1 {
				k := q.Order % len(opts)
				opts = append(append([]noise.NodeOption{}, opts[k:]...), opts[:k]...)
			}
			n := e.Node(opts...)
			if got := n.ID(); given.Address != "" && (!sameID(got, given) || got.Address != given.Address) {
				e.Fail("a node that was configured with an identity has another one before it listens")
			}
			n.Handle(func(ctx noise.HandlerContext) error {
				note(ctx.ID())
				if ctx.IsRequest() {
					return ctx.Send(ctx.Data())
				}
				return nil
			})
			n.Bind(noise.Protocol{OnPeerConnected: func(c *noise.Client) { note(c.ID()) }})
			var busy net.Listener
			if q.Busy && !e.Net.Bound(q.Port) {
				busy, _ = e.Net.Listen("tcp", ":"+itoa(q.Port))
				open++
			}
			foreign := host != nil && !host.IsLoopback() && !host.IsUnspecified() && !contains(c20local, host.String())
			_, _, ok, must := c20public(addr)
			boundBefore := q.Port != 0 && e.Net.Bound(q.Port)
			var err error
			if !e.Within(10*time.Second, func() { err = n.Listen() }) {
				e.Hang("Listen of node %d does not return", i)
				return
			}
			if err != nil {
				e.NonTrivial()
				e.Label("failed listen")
				if e.Net.Open() != open {
					e.Fail("Listen of node %d failed (%v), but %d listeners are open instead of %d", i, err, e.Net.Open(), open)
					return
				}
				if !boundBefore && !foreign && (addr == "" || ok) {
					e.Fail("Listen of node %d (%+v) failed without a reason: %v", i, q, err)
					return
				}
				if busy != nil {
					busy.Close()
					open--
					e.Settle()
				}
				continue
			}
			if busy != nil {
				e.Fail("Listen of node %d succeeds although its port is taken", i)
				return
			}
			open++
			if e.Net.Open() != open {
				e.Fail("after the Listen of node %d %d listeners are open instead of %d", i, e.Net.Open(), open)
				return
			}
			if foreign {
				e.Fail("node %d listens on %v, which the machine does not have", i, host)
				return
			}
			if addr != "" && must {
				e.Fail("node %d listens with the malformed public address %q", i, addr)
				return
			}
			id := n.ID()
			if q.Key && id.ID != pub {
				e.Fail("node %d has the key %v, not that of its private key", i, id.ID)
				return
			}
			if sig := n.Sign([]byte("x")); !id.ID.Verify([]byte("x"), sig) {
				e.Fail("the identity of node %d does not carry the key it signs with", i)
				return
			}
			l := &live{n: n, id: id}
			port := q.Port
			if addr == "" {
				port = int(id.Port)
				if q.Port != 0 && port != q.Port {
					e.Fail("node %d was bound to port %d and advertises %d", i, q.Port, port)
					return
				}
				if id.Address != n.Addr() {
					e.Fail("Addr of node %d is %q, but its identity says %q", i, n.Addr(), id.Address)
					return
				}
				l.reach = n.Addr()
				if host != nil && !host.IsLoopback() && !host.IsUnspecified() {
					l.spec = true
					if !id.Host.Equal(host) {
						e.Fail("node %d was bound to %v and advertises %v", i, host, id.Host)
						return
					}
				}
			} else {
				h, pn, ok, _ := c20public(addr)
				l.spec = true
				if n.Addr() != addr {
					e.Fail("Addr of node %d is %q, configured as %q", i, n.Addr(), addr)
					return
				}
				if ok {
					if !id.Host.Equal(h) || id.Port != pn || id.Address != net.JoinHostPort(h.String(), itoa(int(pn))) {
						e.Fail("node %d advertises %s, configured as %q", i, idStr(id), addr)
						return
					}
				}
				if port == 0 {
					port = -1
				} else {
					l.reach = ":" + itoa(port)
					if host != nil && !host.IsLoopback() && !host.IsUnspecified() {
						l.reach = net.JoinHostPort(host.String(), itoa(port))
					}
				}
			}
			if l.reach != "" && port > 0 && !e.Net.Bound(port) {
				e.Fail("node %d listens, but nothing is bound to port %d", i, port)
				return
			}
			nodes = append(nodes, l)
		}
		for k, pr := range p.Pairs {
			if len(nodes) == 0 {
				return
			}
			a, b := nodes[pr/8%len(nodes)], nodes[pr%8%len(nodes)]
			if a == b || b.reach == "" {
				continue
			}
			if a.spec || b.spec {
				e.NonTrivial()
			}
			ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
			var cl *noise.Client
			var err error
			if !e.Within(2*time.Minute, func() { cl, err = a.n.Ping(ctx, b.reach) }) {
				e.Hang("Ping does not return")
				cancel()
				return
			}
			if err != nil {
				e.Fail("%s cannot be reached at %s: %v", idStr(b.id), b.reach, err)
				cancel()
				return
			}
			e.Label("connection")
			var in *noise.Client
			find := func() {
				for _, x := range b.n.Inbound() {
					if x.ID().ID == a.id.ID {
						in = x
					}
				}
			}
			e.Wait(10*time.Second, 100*time.Millisecond, func() bool { find(); return in != nil })
			if in == nil {
				e.Fail("the dialled node does not list the dialler %s", idStr(a.id))
				cancel()
				return
			}
			for m := 0; m <= p.Msgs; m++ {
				if !sameID(cl.ID(), b.id) {
					e.Fail("the dialler sees %s instead of %s (after %d messages)", idStr(cl.ID()), idStr(b.id), m)
				}
				if !sameID(in.ID(), a.id) {
					e.Fail("the dialled node sees %s instead of %s (after %d messages)", idStr(in.ID()), idStr(a.id), m)
				}
				if !sameID(a.n.ID(), a.id) || !sameID(b.n.ID(), b.id) {
					e.Fail("the identity of a node changed after it listened")
				}
				if e.Failed() {
					cancel()
					return
				}
				q := payload(uint64(k*10+m), 8+m*200)
				d, err := a.n.Request(ctx, b.reach, q)
				if err != nil || diff(d, q) != "" {
					e.Fail("request to %s: %v", b.reach, err)
					cancel()
					return
				}
			}
			cancel()
		}
		if p.Raw {
			for _, b := range nodes {
				if b.reach == "" {
					continue
				}
				cn, err := e.Net.DialFrom(context.Background(), b.reach, vnet.Policy{}, vnet.Policy{})
				if err != nil {
					e.Fail("a peer cannot connect to %s: %v", b.reach, err)
					return
				}
				cn.SetDeadline(time.Now().Add(time.Minute))
				me := wire.NewIdentity(gen.Expand(5, 32), net.IPv4(10, 1, 2, 3), 77)
				s, err := wire.Handshake(cn, me)
				if err != nil {
					e.Fail("a peer cannot shake hands with %s: %v", b.reach, err)
					return
				}
				if len(s.Peer) != 50 || !bytes.Equal(s.Peer[:32], b.id.ID[:]) || !net.IP(s.Peer[32:48]).Equal(b.id.Host) || binary.BigEndian.Uint16(s.Peer[48:]) != b.id.Port {
					e.Fail("the bytes of the identity are %x instead of those of %s", s.Peer, idStr(b.id))
					return
				}
				e.Label("wire peer")
				cn.Close()
			}
		}
		e.Settle()
		mu.Lock()
		defer mu.Unlock()
		for _, l := range nodes {
			for _, id := range seen[l.id.ID] {
				if !sameID(id, l.id) {
					e.Fail("a handler or callback was given %s instead of %s", idStr(id), idStr(l.id))
					return
				}
			}
		}
	})
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if strings.EqualFold(x, y) {
			return true
		}
	}
	return false
}
