package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/gossip"
	"github.com/perlin-network/noise/kademlia"
	"go.uber.org/zap"

	"verifharness/gen"
	"verifharness/wire"
)

// C31: no data races. The worker process is built with the race detector, which writes its reports to a file that is
// looked at after each case.

type c31Op struct {
	Kind int
	Node int // the node that acts
	To   int // the node it acts towards
	A, B int
	Wait int // ms before
}

type c31Node struct {
	Kad, Gossip bool
	Workers     int
	MaxIn       int
	MaxOut      int
	IdleMs      int
	Limit       int
	Reply       int // what handlers do
	Addr        bool
}

type c31Plan struct {
	Sub     string          // another property's case
	Raw     json.RawMessage `json:",omitempty"`
	Link    Link
	Nodes   []c31Node
	Early   bool // programs run while the nodes start to listen
	Threads [][]c31Op
	CloseMs int // -1: only at the end
	Closer  int
}

// The kinds of operations of the programs.
const (
	rSend = iota
	rRequest
	rSendMessage
	rRequestMessage
	rPing
	rPools
	rClient
	rNode
	rCodec
	rRegister
	rHandle
	rBind
	rTable
	rDiscover
	rFind
	rPush
	rKadPing
	rShared
	rKinds
)

func init() {
	var subs []string
	for i := 1; i <= 32; i++ {
		if i != 22 && i != 31 {
			subs = append(subs, fmt.Sprintf("C%02d", i))
		}
	}
	register(&Prop{ID: "C31", Quick: 3600, Thorough: 150000, Restart: 150, Procs: 4,
		Rule:   "Generated concurrent programs (two to eight goroutines of up to fourteen calls each, on one to four nodes with routing tables and gossip, generated limits and time-outs): sends, requests, pings, registered messages, registering of types, handlers and protocols, reading and closing of clients of both pools, identities and addresses (also while the node starts to listen), routing table reads and updates, searches, gossip and closing of nodes; handlers use their context from several goroutines. Half of the cases are generated cases of the other properties. All run under the race detector; a report counts if noise makes one of the two accesses. Identities, addresses and errors read must be ones that were set as a whole. Non-trivial: two programs acted on the same node, or a non-trivial case of another property.",
		Assume: []string{"The race detector reports no race that is not there; it sees the accesses made in the generated executions, and those it does not consider ordered by accident."}},
		func(s *gen.S) c31Plan {
			if s.Bool(50) {
				p := c31Plan{Sub: gen.Pick(s, subs...)}
				o := props[p.Sub]
				if o == nil {
					return c31Plan{}
				}
				p.Raw, _ = json.Marshal(o.gen(s))
				return p
			}
			p := c31Plan{Link: genLinkBatch(s), Early: s.Bool(25), CloseMs: gen.Pick(s, -1, -1, 0, s.Intn(50)), Closer: s.Intn(4)}
			for k := gen.Pick(s, 2, 1, s.Range(1, 4)); k > 0; k-- {
				n := c31Node{Kad: s.Bool(60), Workers: gen.Pick(s, 1, 2, 4), MaxIn: gen.Pick(s, 128, 128, 2, 1), MaxOut: gen.Pick(s, 128, 128, 2, 1), IdleMs: gen.Pick(s, 60000, 60000, 200, 0), Limit: gen.Pick(s, 0, 0, 300), Reply: s.Intn(6), Addr: s.Bool(20)}
				n.Gossip = n.Kad && s.Bool(50)
				p.Nodes = append(p.Nodes, n)
			}
			focus := -1 // often all programs do the same few things
			if s.Bool(40) {
				focus = s.Intn(rKinds)
			}
			for k := s.Range(2, 8); k > 0; k-- {
				var th []c31Op
				for j := s.Range(1, 14); j > 0; j-- {
					o := c31Op{Kind: s.Intn(rKinds), Node: s.Intn(len(p.Nodes)), To: s.Intn(len(p.Nodes)), A: s.Intn(1000), B: s.Intn(1000), Wait: gen.Pick(s, 0, 0, 0, 0, s.Intn(30))}
					if focus >= 0 && s.Bool(50) {
						o.Kind = focus
					}
					th = append(th, o)
				}
				p.Threads = append(p.Threads, th)
			}
			return p
		}, runC31)
}

type raceMsg struct{ b []byte }

func (m raceMsg) Marshal() []byte { return m.b }

type raceT0 struct{ b []byte }
type raceT1 struct{ b []byte }
type raceT2 struct{ b []byte }
type raceT3 struct{ b []byte }

func (m raceT0) Marshal() []byte { return m.b }
func (m raceT1) Marshal() []byte { return m.b }
func (m raceT2) Marshal() []byte { return m.b }
func (m raceT3) Marshal() []byte { return m.b }

type c31node struct {
	n    *noise.Node
	k    *kademlia.Protocol
	g    *gossip.Protocol
	addr string
	t    [4]atomic.Bool
}

func runC31(c *C, p c31Plan) {
	if p.Sub != "" {
		o := props[p.Sub]
		if o == nil {
			return
		}
		v, err := o.dec(p.Raw)
		if err != nil {
			panic(err)
		}
		c.Label("case of %s", p.Sub)
		d := &C{labels: map[string]int{}, real: c.real, seedB: c.seedB}
		o.run(d, v) // what it finds is reported by that property's check
		d.mu.Lock()
		if d.nt {
			c.NonTrivial()
		}
		if d.viol != "" {
			c.Label("other property violated")
		}
		d.mu.Unlock()
		races(c)
		return
	}
	if len(p.Nodes) == 0 {
		return
	}
	c.Label("program")
	Bubble(c, func(e *Env) { soup(e, p) })
	races(c)
}

func soup(e *Env, p c31Plan) {
	e.link(p.Link)
	var nodes []*c31node
	type first struct {
		id   noise.ID
		addr string
	}
	var initial []first
	for i, q := range p.Nodes {
		x := &c31node{}
		nodes = append(nodes, x)
		var priv noise.PrivateKey
		copy(priv[:], wire.NewIdentity(gen.Expand(uint64(i)+31, 32), net.IPv4(127, 0, 0, 1), 1).Priv)
		opts := []noise.NodeOption{noise.WithNodePrivateKey(priv), noise.WithNodeNumWorkers(uint(q.Workers)), noise.WithNodeIdleTimeout(time.Duration(q.IdleMs) * time.Millisecond),
			noise.WithNodeMaxInboundConnections(uint(q.MaxIn)), noise.WithNodeMaxOutboundConnections(uint(q.MaxOut)), noise.WithNodeBindPort(uint16(7000 + i))}
		x.addr = fmt.Sprintf(":%d", 7000+i)
		if q.Addr {
			x.addr = fmt.Sprintf("10.1.2.3:%d", 7000+i)
			opts = append(opts, noise.WithNodeAddress(x.addr))
		}
		if q.Limit > 0 {
			opts = append(opts, noise.WithNodeMaxRecvMessageSize(uint32(q.Limit)))
		}
		x.n = e.Node(opts...)
		x.n.RegisterMessage(raceMsg{}, func(b []byte) (raceMsg, error) { return raceMsg{cp(b)}, nil })
		if q.Kad {
			x.k = kademlia.New(kademlia.WithProtocolEvents(kademlia.Events{
				OnPeerAdmitted: func(id noise.ID) { touch(id) },
				OnPeerActivity: func(id noise.ID) { touch(id) },
				OnPeerEvicted:  func(id noise.ID) { touch(id) },
			}))
			x.n.Bind(x.k.Protocol())
		}
		if q.Gossip {
			x.g = gossip.New(x.k, gossip.WithEvents(gossip.Events{OnGossipReceived: func(id noise.ID, b []byte) error {
				touch(id)
				sum(b)
				return nil
			}}))
			x.n.Bind(x.g.Protocol())
		}
		reply := q.Reply
		x.n.Handle(func(ctx noise.HandlerContext) error { return raceHandler(ctx, reply) })
		initial = append(initial, first{x.n.ID(), x.n.Addr()})
	}
	listen := func(x *c31node) {
		if err := x.n.Listen(); err != nil && !strings.Contains(err.Error(), "closed") {
			e.Fail("Listen: %v", err)
		}
	}
	type reading struct {
		node int
		id   noise.ID
		addr string
	}
	var reads [][]reading
	if p.Early {
		// While the nodes start to listen, others look at them.
		e.Label("read while starting to listen")
		var fs []func()
		reads = make([][]reading, 2*len(nodes))
		for i, x := range nodes {
			fs = append(fs, func() { listen(x) })
			for j := 0; j < 2; j++ {
				fs = append(fs, func() {
					for k := 0; k < 20; k++ {
						reads[2*i+j] = append(reads[2*i+j], reading{i, x.n.ID(), x.n.Addr()})
						x.n.Logger()
						runtime.Gosched()
					}
				})
			}
		}
		if !e.Within(time.Minute, func() { All(fs...) }) {
			e.Hang("Listen does not return")
			return
		}
	} else {
		for _, x := range nodes {
			if !e.Within(time.Minute, func() { listen(x) }) {
				e.Hang("Listen does not return")
				return
			}
		}
	}
	if e.Failed() {
		return
	}
	final := map[string]bool{}
	for i, x := range nodes {
		id := x.n.ID()
		if id.Port != uint16(7000+i) {
			e.Fail("the node's identity after Listen: %s", idStr(id))
			return
		}
		final[idKey(id)] = true
	}
	for _, l := range reads {
		for _, r := range l {
			x := nodes[r.node]
			if k := idKey(r.id); k != idKey(x.n.ID()) && k != idKey(initial[r.node].id) {
				e.Fail("while the node started to listen, ID returned %s, which is neither what it was before nor what it is after", idStr(r.id))
			}
			if r.addr != x.n.Addr() && r.addr != initial[r.node].addr {
				e.Fail("while the node started to listen, Addr returned %q, which is neither what it was before nor what it is after", r.addr)
			}
		}
	}
	seen := map[int]int{}
	for _, th := range p.Threads {
		on := map[int]bool{}
		for _, o := range th {
			on[o.Node%len(nodes)] = true
		}
		for k := range on {
			seen[k]++
			if seen[k] > 1 {
				e.NonTrivial()
			}
		}
	}
	shared := kademlia.NewTable(nodes[0].n.ID())
	fails := make([]string, len(p.Threads)+1)
	var fs []func()
	for t, th := range p.Threads {
		fs = append(fs, func() {
			r := &raceThread{nodes: nodes, final: final, shared: shared}
			for _, o := range th {
				if o.Wait > 0 {
					time.Sleep(time.Duration(o.Wait) * time.Millisecond)
				}
				r.do(o)
				if r.fail != "" {
					fails[t] = r.fail
					return
				}
			}
		})
	}
	if p.CloseMs >= 0 {
		e.Label("closed meanwhile")
		fs = append(fs, func() {
			time.Sleep(time.Duration(p.CloseMs) * time.Millisecond)
			nodes[p.Closer%len(nodes)].n.Close()
		})
	}
	e.Within(10*time.Minute, func() { All(fs...) })
	for _, f := range fails {
		if f != "" {
			e.Fail("%s", f)
		}
	}
}

func idKey(id noise.ID) string {
	return fmt.Sprintf("%x|%s|%d|%s", id.ID[:], id.Host, id.Port, id.Address)
}

var sink atomic.Uint64

// touch reads all of an identity.
func touch(id noise.ID) {
	n := uint64(id.Port) + uint64(len(id.Address))
	for _, b := range id.ID {
		n += uint64(b)
	}
	for _, b := range id.Host {
		n += uint64(b)
	}
	for i := 0; i < len(id.Address); i++ {
		n += uint64(id.Address[i])
	}
	sink.Store(n)
}

func sum(b []byte) {
	n := uint64(0)
	for _, x := range b {
		n += uint64(x)
	}
	sink.Store(n)
}

func raceHandler(ctx noise.HandlerContext, kind int) error {
	touch(ctx.ID())
	sum(ctx.Data())
	ctx.Logger()
	if kind == 5 {
		return nil
	}
	use := func() {
		touch(ctx.ID())
		sum(ctx.Data())
		ctx.Logger().Info("x")
		if m, err := ctx.DecodeMessage(); err == nil {
			if r, ok := m.(raceMsg); ok {
				sum(r.b)
			}
		}
		if ctx.IsRequest() || kind == 4 && string(ctx.Data()) != "reply" {
			if kind == 2 {
				ctx.SendMessage(raceMsg{[]byte("reply")})
			} else {
				ctx.Send([]byte("reply"))
			}
		}
	}
	switch kind {
	case 0, 1, 2:
		var wg sync.WaitGroup
		for i := 0; i < kind+1; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				use()
			}()
		}
		wg.Wait()
	case 3:
		go use() // after the handler has returned
	case 4:
		use()
	}
	return nil
}

// raceThread is one program; it shares nothing with the others but the nodes, and so does not order them.
type raceThread struct {
	nodes   []*c31node
	final   map[string]bool
	clients []*noise.Client
	shared  *kademlia.Table
	fail    string
}

func (r *raceThread) client(c *noise.Client) {
	id := c.ID()
	touch(id)
	if id.ID != (noise.PublicKey{}) && !r.final[idKey(id)] {
		r.fail = fmt.Sprintf("a client's ID is %s, which is no node's identity", idStr(id))
	}
	if id.ID == (noise.PublicKey{}) && (id.Address != "" || id.Port != 0) {
		r.fail = fmt.Sprintf("a client's ID is %s, a part of an identity", idStr(id))
	}
	c.Logger()
	if err := c.Error(); err != nil {
		_ = err.Error()
	}
}

func (r *raceThread) ids(what string, ids []noise.ID) {
	for _, id := range ids {
		touch(id)
		if !r.final[idKey(id)] {
			r.fail = fmt.Sprintf("%s has %s, which is no node's identity", what, idStr(id))
		}
	}
}

func (r *raceThread) do(o c31Op) {
	x, y := r.nodes[o.Node%len(r.nodes)], r.nodes[o.To%len(r.nodes)]
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(gen0(o.A, 3000, 3000, 3000, 20, 3))*time.Millisecond)
	defer cancel()
	data := gen.Expand(uint64(o.B), gen0(o.B, 10, 100, 0, 1000, 5000))
	switch o.Kind {
	case rSend:
		x.n.Send(ctx, y.addr, data)
	case rRequest:
		if b, err := x.n.Request(ctx, y.addr, data); err == nil {
			sum(b)
		}
	case rSendMessage:
		x.n.SendMessage(ctx, y.addr, raceMsg{data})
	case rRequestMessage:
		if m, err := x.n.RequestMessage(ctx, y.addr, raceMsg{data}); err == nil {
			if v, ok := m.(raceMsg); ok {
				sum(v.b)
			}
		}
	case rPing:
		c, err := x.n.Ping(ctx, y.addr)
		if err == nil && c != nil {
			r.client(c)
			if id := c.ID(); idKey(id) != idKey(y.n.ID()) {
				r.fail = fmt.Sprintf("after Ping, the client's ID is %s instead of %s", idStr(id), idStr(y.n.ID()))
			}
			r.clients = append(r.clients, c)
		}
	case rPools:
		for _, c := range append(x.n.Inbound(), x.n.Outbound()...) {
			r.client(c)
			if len(r.clients) < 6 {
				r.clients = append(r.clients, c)
			}
		}
	case rClient:
		if len(r.clients) == 0 {
			r.clients = append(x.n.Inbound(), x.n.Outbound()...)
		}
		if len(r.clients) == 0 {
			return
		}
		c := r.clients[o.A%len(r.clients)]
		switch o.B % 7 {
		case 0:
			c.Close()
		case 1:
			c.WaitUntilReady()
		case 2:
			c.SetLogger(zap.NewNop())
		case 3:
			c.Logger().Info("x")
		case 4:
			t := time.AfterFunc(time.Second, c.Close)
			c.WaitUntilClosed()
			t.Stop()
			r.client(c)
		case 5:
			go c.Close()
		}
		r.client(c)
	case rNode:
		touch(x.n.ID())
		sum([]byte(x.n.Addr()))
		x.n.Logger().Info("x")
		s := x.n.Sign(data)
		if !x.n.ID().ID.Verify(data, s) {
			r.fail = "a signature of the node is not valid"
		}
	case rCodec:
		b, err := x.n.EncodeMessage(raceMsg{data})
		if err != nil {
			r.fail = "EncodeMessage: " + err.Error()
			return
		}
		m, err := x.n.DecodeMessage(b)
		if err != nil {
			r.fail = "DecodeMessage: " + err.Error()
			return
		}
		sum(m.(raceMsg).b)
	case rRegister:
		i := o.A % 4
		if x.t[i].Swap(true) {
			return
		}
		switch i {
		case 0:
			x.n.RegisterMessage(raceT0{}, func(b []byte) (raceT0, error) { return raceT0{b}, nil })
		case 1:
			x.n.RegisterMessage(raceT1{}, func(b []byte) (raceT1, error) { return raceT1{b}, nil })
		case 2:
			x.n.RegisterMessage(raceT2{}, func(b []byte) (raceT2, error) { return raceT2{b}, nil })
		case 3:
			x.n.RegisterMessage(raceT3{}, func(b []byte) (raceT3, error) { return raceT3{b}, nil })
		}
	case rHandle:
		func() {
			defer func() { recover() }()
			x.n.Handle(func(noise.HandlerContext) error { return nil })
		}()
	case rBind:
		func() {
			defer func() { recover() }()
			x.n.Bind(noise.Protocol{OnMessageRecv: func(c *noise.Client) { c.ID() }})
		}()
	case rTable, rShared:
		t := r.shared
		if x.k != nil && o.Kind == rTable {
			t = x.k.Table()
		}
		if t == nil {
			return
		}
		id := y.n.ID()
		switch o.B % 9 {
		case 0:
			r.ids("Entries", t.Entries())
		case 1:
			r.ids("Peers", t.Peers())
		case 2:
			r.ids("FindClosest", t.FindClosest(id.ID, 16))
		case 3:
			if t.Recorded(id.ID) {
				t.NumEntries()
			}
		case 4:
			t.NumEntries()
			r.ids("Bucket", t.Bucket(id.ID))
		case 5:
			t.Update(id)
		case 6:
			if id.ID != t.Self().ID {
				if d, ok := t.Delete(id.ID); ok {
					touch(d)
				}
			}
		case 7:
			if id.ID != t.Self().ID {
				if d, ok := t.DeleteByAddress(id.Address); ok {
					touch(d)
				}
			}
		case 8:
			touch(t.Self())
		}
	case rDiscover:
		if x.k != nil {
			r.ids("Discover", x.k.Discover(kademlia.WithIteratorLookupTimeout(time.Second)))
		}
	case rFind:
		if x.k != nil {
			r.ids("Find", x.k.Find(y.n.ID().ID, kademlia.WithIteratorLookupTimeout(time.Second)))
		}
	case rPush:
		if x.g != nil {
			x.g.Push(ctx, data)
		}
	case rKadPing:
		if x.k != nil {
			x.k.Ping(ctx, y.addr)
		}
	}
}

func gen0(i int, v ...int) int { return v[i%len(v)] }

// races reports what the race detector has written since the last case.
var raceSeen int64

func races(c *C) {
	if !raceOn {
		return
	}
	b, err := raceLog()
	if err != nil || int64(len(b)) <= raceSeen {
		return
	}
	text := string(b[raceSeen:])
	raceSeen = int64(len(b))
	for _, rep := range strings.Split(text, "==================") {
		if !strings.Contains(rep, "WARNING: DATA RACE") {
			continue
		}
		if ours(rep) {
			c.Fail("data race: %s", head(rep, 6000))
			c.mu.Lock()
			if strings.HasPrefix(c.viol, "data race") {
				c.kind = "race" // certain even if it is not seen again
			}
			c.mu.Unlock()
			return
		}
		c.Label("race of the harness")
		if f := os.Getenv("VERIF_RACES"); f != "" {
			if w, err := os.OpenFile(f, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644); err == nil {
				w.WriteString(rep)
				w.Close()
			}
		}
	}
}

func raceLog() ([]byte, error) {
	for _, o := range strings.Fields(os.Getenv("GORACE")) {
		if f, ok := strings.CutPrefix(o, "log_path="); ok {
			return os.ReadFile(fmt.Sprintf("%s.%d", f, os.Getpid()))
		}
	}
	return nil, errors.New("no log")
}

// ours tells whether noise makes one of the two accesses of a report. A node that dials, or whose protocols are used,
// before it listens is not considered.
func ours(rep string) bool {
	if strings.Contains(rep, "noise.(*Node).Listen()") {
		for _, part := range strings.Split(rep, "\n\n") {
			if strings.Contains(part, "noise.(*Node).Listen()") || !strings.Contains(part, " at 0x") {
				continue
			}
			for _, f := range []string{"noise.(*Node).dialIfNotExists", "noise.(*Client).outbound", "noise/kademlia.", "noise/gossip."} {
				if strings.Contains(part, f) {
					return false
				}
			}
		}
	}
	for _, part := range strings.Split(rep, "\n\n") {
		part = strings.TrimPrefix(strings.TrimSpace(part), "WARNING: DATA RACE\n")
		l, rest, _ := strings.Cut(part, "\n")
		if !strings.Contains(l, " at 0x") || !(strings.Contains(l, "rite") || strings.Contains(l, "ead")) {
			continue
		}
		for _, f := range strings.Split(rest, "\n") {
			if strings.HasPrefix(f, "      ") {
				continue // a file
			}
			f = strings.TrimSpace(f)
			if strings.HasPrefix(f, "github.com/perlin-network/noise") {
				return true
			}
			if strings.HasPrefix(f, "main.") || strings.HasPrefix(f, "verifharness") {
				break
			}
		}
	}
	return false
}
