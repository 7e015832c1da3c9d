package main

import (
	"bytes"
	"context"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/perlin-network/noise"

	"verifharness/gen"
)

// C01: messages arrive intact, exactly once, from the right peer, in order with one worker.

type c01Msg struct {
	Size  int
	GapMs int
	Echo  int  // answered by so many messages of the handler
	Req   bool // sent as a request
}

type c01Sender struct {
	From, To int
	Msgs     []c01Msg
	Many     int // so many tiny messages follow in a burst
}

// c01Leaver is a peer that ends its connection right after its last message.
type c01Leaver struct {
	To    int
	AtMs  int
	Sizes []int
}

type c01Plan struct {
	Link    Link
	Leavers []c01Leaver
	Workers []int
	SlowMs  int // handlers take so long every now and then
	Senders []c01Sender
}

func init() {
	register(&Prop{ID: "C01", Quick: 4000, Thorough: 40000, Rule: "Two to four nodes; one to six concurrent senders in any direction with one to sixty messages of 0 B to 300 KB (up to 4 MB in the thorough tier) in bursts or with gaps, handlers that answer with further messages on the same connection, requests in between, and links with latency, fragmentation and small windows. Up to three wire-level peers end their connections right after their last message. Every message a handler gets is kept until the end and compared then. Non-trivial: at least two messages on one connection."},
		func(s *gen.S) c01Plan {
			p := c01Plan{Link: genLinkBatch(s), SlowMs: gen.Pick(s, 0, 0, 0, 5, 200)}
			n := s.Range(2, 3)
			if s.Size > 1 {
				n = s.Range(2, 4)
			}
			for i := 0; i < n; i++ {
				p.Workers = append(p.Workers, gen.Pick(s, 1, 1, 1, 2, 8))
			}
			big := 300_000
			if s.Size > 1 {
				big = 4<<20 - 36
			}
			for k := s.Range(1, 6); k > 0; k-- {
				x := c01Sender{From: s.Intn(n)}
				x.To = (x.From + 1 + s.Intn(n-1)) % n
				burst := s.Bool(60)
				tiny := s.Bool(50)
				for m := s.Range(1, gen.Pick(s, 3, 12, 60*s.Size)); m > 0; m-- {
					g := c01Msg{Size: gen.Pick(s, 0, 8, s.Range(1, 100), s.Range(8, 5000), 1<<s.Intn(17)+s.Range(-40, 9))}
					if tiny {
						g.Size = s.Range(0, 64)
					} else if s.Bool(4) {
						g.Size = s.Range(1, big)
					}
					if g.Size < 0 {
						g.Size = 0
					}
					if !burst {
						g.GapMs = gen.Pick(s, 0, 0, 1, 30, 2000)
					}
					if s.Bool(20) {
						g.Echo = s.Range(1, 3)
					}
					g.Req = s.Bool(8)
					x.Msgs = append(x.Msgs, g)
				}
				if s.Bool(1) {
					x.Many = gen.Pick(s, s.Range(100, 1000), s.Range(1000, 5000), 20000)
					if p.Link.Frag > 0 {
						p.Link.Frag = 1000
					}
				}
				p.Senders = append(p.Senders, x)
			}
			if s.Bool(35) {
				for k := s.Range(1, 3); k > 0; k-- {
					x := c01Leaver{To: s.Intn(n), AtMs: gen.Pick(s, 0, s.Intn(100), s.Intn(5000))}
					for j := s.Range(1, gen.Pick(s, 1, 5, 40)); j > 0; j-- {
						x.Sizes = append(x.Sizes, gen.Pick(s, 8, s.Range(8, 100), s.Range(8, 9000)))
					}
					p.Leavers = append(p.Leavers, x)
				}
			}
			return p
		}, runC01)
}

type got struct {
	id   noise.ID
	data []byte // as given, kept
	copy []byte // copied at once
	req  bool
}

func runC01(c *C, p c01Plan) {
	p.Senders = append([]c01Sender(nil), p.Senders...)
	for i := range p.Senders {
		x := &p.Senders[i]
		x.Msgs = append([]c01Msg(nil), x.Msgs...)
		for k := 0; k < x.Many; k++ {
			x.Msgs = append(x.Msgs, c01Msg{Size: 9 + k%5})
		}
		if x.Many > 1000 {
			c.Label("thousands of messages in a burst")
		}
	}
	Bubble(c, func(e *Env) {
		e.link(p.Link)
		n := len(p.Workers)
		nodes := make([]*noise.Node, n)
		var mu sync.Mutex
		recv := make([][]got, n)
		total := 0
		left := make([][]int, 4)
		echoErr := ""
		echo := map[uint64]int{} // id -> echoes
		exp := map[uint64][]byte{}
		mk := func(si, mi, k int) uint64 { return uint64(si+1)<<40 | uint64(mi+1)<<8 | uint64(k) }
		empties := make([]int, n)
		for si, x := range p.Senders {
			for mi, m := range x.Msgs {
				id := mk(si, mi, 0)
				if m.Size < 8 && !m.Req {
					// too short to carry a number: content by length only
					exp[id] = bytes.Repeat([]byte{0xee}, m.Size)
					empties[x.To]++
				} else {
					exp[id] = payload(id, m.Size)
					if !m.Req {
						echo[id] = m.Echo
					}
				}
			}
		}
		for i := range nodes {
			i := i
			nodes[i] = e.Node(noise.WithNodeNumWorkers(uint(p.Workers[i])))
			cnt := 0
			nodes[i].Handle(func(ctx noise.HandlerContext) error {
				d := ctx.Data()
				if id, ok := payloadID(d); ok && id>>60 == 1 {
					k, j := int(id>>32&0xfff), int(id&0xffff)
					mu.Lock()
					left[k] = append(left[k], j)
					cnt++
					slow := p.SlowMs > 0 && cnt%3 == 0
					mu.Unlock()
					if k >= len(p.Leavers) || j >= len(p.Leavers[k].Sizes) || p.Leavers[k].To != i || ctx.IsRequest() || diff(d, payload(id, p.Leavers[k].Sizes[j])) != "" || !sameID(ctx.ID(), noiseID(peerIdent(k, 6000+k))) {
						e.Fail("a message of a peer that leaves arrived altered")
					}
					if slow {
						time.Sleep(time.Duration(p.SlowMs) * time.Millisecond)
					}
					return nil
				}
				g := got{id: ctx.ID(), data: d, copy: append([]byte(nil), d...), req: ctx.IsRequest()}
				mu.Lock()
				recv[i] = append(recv[i], g)
				total++
				cnt++
				slow := p.SlowMs > 0 && cnt%7 == 3
				k := 0
				id, ok := payloadID(d)
				if ok {
					k = echo[id]
				}
				mu.Unlock()
				if slow {
					time.Sleep(time.Duration(p.SlowMs) * time.Millisecond)
				}
				if ctx.IsRequest() {
					if err := ctx.Send([]byte("reply")); err != nil {
						mu.Lock()
						echoErr = err.Error()
						mu.Unlock()
					}
					return nil
				}
				for j := 1; j <= k; j++ {
					if err := ctx.Send(payload(id+uint64(j), len(d)/2)); err != nil {
						mu.Lock()
						echoErr = err.Error()
						mu.Unlock()
					}
				}
				return nil
			})
			if !e.Listen(nodes[i]) {
				return
			}
		}
		want := 0
		for _, x := range p.Senders {
			for _, m := range x.Msgs {
				want++
				if m.Size >= 8 && !m.Req {
					want += m.Echo
				}
			}
		}
		var fs []func()
		for si, x := range p.Senders {
			fs = append(fs, func() {
				for mi, m := range x.Msgs {
					if m.GapMs > 0 {
						time.Sleep(time.Duration(m.GapMs) * time.Millisecond)
					}
					if m.Req {
						go func() {
							d, err := nodes[x.From].Request(context.Background(), nodes[x.To].Addr(), exp[mk(si, mi, 0)])
							if err != nil || string(d) != "reply" {
								e.Fail("request %d/%d got %q, %v", si, mi, d, err)
							}
						}()
						continue
					}
					if err := nodes[x.From].Send(context.Background(), nodes[x.To].Addr(), exp[mk(si, mi, 0)]); err != nil {
						e.Fail("Send of message %d of sender %d failed: %v", mi, si, err)
						return
					}
				}
			})
		}
		for k, x := range p.Leavers {
			fs = append(fs, func() {
				time.Sleep(time.Duration(x.AtMs) * time.Millisecond)
				s, cn, err := e.Dial(nodes[x.To].Addr(), peerIdent(k, 6000+k), p.Link.policy())
				if err != nil {
					e.Fail("a peer could not connect: %v", err)
					return
				}
				for j, n := range x.Sizes {
					if err := s.Send(0, payload(1<<60|uint64(k)<<32|uint64(j), n)); err != nil {
						e.Fail("the node dropped its peer: %v", err)
						return
					}
				}
				cn.Close()
			})
		}
		if !e.Within(6*time.Hour, func() { All(fs...) }) {
			e.Hang("Send does not return")
			return
		}
		if e.Failed() {
			return
		}
		if !e.Wait(6*time.Hour, time.Minute, func() bool { mu.Lock(); defer mu.Unlock(); return total >= want }) {
			mu.Lock()
			defer mu.Unlock()
			e.Fail("%d of %d messages arrived", total, want)
			return
		}
		time.Sleep(time.Minute)
		e.Settle()
		mu.Lock()
		defer mu.Unlock()
		if echoErr != "" {
			e.Fail("replying in a handler failed: %s", echoErr)
		}
		for k, x := range p.Leavers {
			seen := map[int]int{}
			for i, j := range left[k] {
				if seen[j]++; seen[j] > 1 {
					e.Fail("message %d of a peer that left arrived twice", j)
				}
				if p.Workers[x.To] == 1 && i > 0 && left[k][i-1] > j {
					e.Fail("messages of a peer that left were handled out of order")
				}
			}
			if len(seen) != len(x.Sizes) {
				e.Fail("%d of %d messages were handled that a peer had sent before it ended its connection", len(seen), len(x.Sizes))
			}
			e.Label("peers that leave after their last message")
		}
		if total > want {
			e.Fail("%d messages arrived although %d were sent", total, want)
		}
		perConn := map[[2]int]int{}
		for _, x := range p.Senders {
			perConn[[2]int{x.From, x.To}] += len(x.Msgs)
			if x.From > x.To {
				e.Label("both-ways")
			}
		}
		for _, k := range perConn {
			if k >= 2 {
				e.NonTrivial()
			}
		}
		e.Label("nodes-%d", n)
		for i := range nodes {
			seen := map[uint64]int{}
			last := map[[2]uint64]uint64{}
			short := 0
			for _, g := range recv[i] {
				if !bytes.Equal(g.data, g.copy) {
					e.Fail("the data a handler of node %d was given changed afterwards (%s)", i, diff(g.data, g.copy))
				}
				if len(g.copy) < 8 {
					short++
					if !bytes.Equal(g.copy, bytes.Repeat([]byte{0xee}, len(g.copy))) || g.req {
						e.Fail("node %d got a message of %d bytes that nobody sent", i, len(g.copy))
					}
					continue
				}
				id, _ := payloadID(g.copy)
				si, mi, k := int(id>>40)-1, int(id>>8&0xffffffff)-1, int(id&0xff)
				if si < 0 || si >= len(p.Senders) || mi < 0 || mi >= len(p.Senders[si].Msgs) {
					e.Fail("node %d got a message nobody sent: %x", i, g.copy[:8])
					continue
				}
				x := p.Senders[si]
				from, to, m := x.From, x.To, x.Msgs[mi]
				wb := exp[mk(si, mi, 0)]
				if k > 0 {
					from, to = to, from
					wb = payload(id, len(wb)/2)
					if k > m.Echo {
						e.Fail("node %d got a reply nobody sent", i)
					}
				}
				if to != i {
					e.Fail("node %d got a message meant for node %d", i, to)
				}
				if d := diff(g.copy, wb); d != "" {
					e.Fail("message %d of sender %d arrived altered: %s", mi, si, d)
				}
				if !sameID(g.id, nodes[from].ID()) {
					e.Fail("message %d of sender %d is marked as coming from %s instead of %s", mi, si, idStr(g.id), idStr(nodes[from].ID()))
				}
				if g.req != (m.Req && k == 0) {
					e.Fail("message %d of sender %d: IsRequest is %v", mi, si, g.req)
				}
				if seen[id]++; seen[id] > 1 {
					e.Fail("message %d of sender %d arrived %d times", mi, si, seen[id])
				}
				if p.Workers[i] == 1 && !m.Req && (k == 0 || p.Workers[from] == 1) {
					key := [2]uint64{uint64(si), 0}
					if k > 0 {
						key[1] = 1
					}
					if id < last[key] {
						e.Fail("message %d of sender %d was handled after a later one", mi, si)
					}
					last[key] = id
				}
			}
			if short != empties[i] {
				e.Fail("node %d got %d short messages instead of %d", i, short, empties[i])
			}
		}
	})
}

// C02: a request gets its own reply.

type c02Req struct {
	From, To  int
	AtMs      int
	Size      int
	TimeoutMs int
	DelayMs   int  // before the reply
	Go        bool // replied to from a goroutine
	Reply     int  // size of the reply
	Nested    int  // handler requests the requester first
	Silent    bool // never answered (with a timeout only)
}

type c02Plan struct {
	Link    Link
	Workers int
	Nodes   int
	Reqs    []c02Req
	Plain   int // plain messages in between
	Many    int // further small requests from node 0 to node 1
}

func init() {
	register(&Prop{ID: "C02", Quick: 4000, Thorough: 40000, Rule: "Two or three nodes with up to 80 requests (300 in the thorough tier) in all directions, concurrent or in sequence, with payloads and replies of 0 B to 140 KB, replies given at once, later, from goroutines, after the request has timed out or never, handlers that themselves request from the requester, and plain messages in between; rarely up to 140000 further requests go by while some are waiting. Non-trivial: at least two requests in flight on one connection, or a late reply."},
		func(s *gen.S) c02Plan {
			p := c02Plan{Link: genLinkBatch(s), Workers: gen.Pick(s, 1, 2, 8), Nodes: s.Range(2, 3), Plain: gen.Pick(s, 0, 0, 5)}
			window := gen.Pick(s, 1, 50, 3000)
			for k := s.Range(1, gen.Pick(s, 4, 20, 80*s.Size)); k > 0; k-- {
				r := c02Req{From: s.Intn(p.Nodes), AtMs: s.Intn(window), Size: gen.Pick(s, 8, s.Range(8, 200), s.Range(8, 60000)), Reply: gen.Pick(s, 0, 1, s.Range(0, 200), s.Range(0, 60000))}
				if p.Link.Frag == 0 && p.Link.Window == 0 && s.Bool(7) {
					r.Size, r.Reply = s.Range(8, 140000), s.Range(60000, 140000)
				}
				r.To = (r.From + 1 + s.Intn(p.Nodes-1)) % p.Nodes
				if s.Bool(50) {
					r.DelayMs = s.Intn(4000)
					r.Go = s.Bool(85)
					if !r.Go && r.DelayMs > 50 {
						r.DelayMs = 50
					}
				}
				if s.Bool(35) {
					r.TimeoutMs = gen.Pick(s, 1, s.Range(1, 50), s.Range(100, 5000), r.DelayMs+1, r.DelayMs+2*p.Link.LatMs)
					r.Silent = r.TimeoutMs > 0 && s.Bool(15)
				}
				if s.Bool(10) {
					r.Nested = s.Range(1, 2)
					r.Go = true
				}
				p.Reqs = append(p.Reqs, r)
			}
			if s.Intn(500) == 499 { // numbers of requests may wrap around
				p.Many = gen.Pick(s, s.Range(1000, 10000), s.Range(65537, 70000), s.Range(65537, 140000))
				p.Link = Link{}
				p.Reqs = p.Reqs[:min(len(p.Reqs), 10)]
				p.Reqs = append(p.Reqs, c02Req{From: 0, To: 1, AtMs: 0, Size: 20, DelayMs: 3_600_000, Go: true, Reply: 30}, c02Req{From: 0, To: 1, AtMs: 2, Size: 21, DelayMs: 3_700_000, Go: true, Reply: 31})
			}
			return p
		}, runC02)
}

func runC02(c *C, p c02Plan) {
	Bubble(c, func(e *Env) {
		e.link(p.Link)
		nodes := make([]*noise.Node, p.Nodes)
		var mu sync.Mutex
		type seenT struct{ n int }
		seen := make([]map[uint64]int, p.Nodes)
		plain := make([]int, p.Nodes)
		reply := func(id uint64, size int) []byte { return gen.Expand(id*31+7, size) }
		const nest, many = uint64(1) << 50, uint64(1) << 52
		handled := 0
		for i := range nodes {
			i := i
			seen[i] = map[uint64]int{}
			nodes[i] = e.Node(noise.WithNodeNumWorkers(uint(p.Workers)))
			nodes[i].Handle(func(ctx noise.HandlerContext) error {
				id, ok := payloadID(ctx.Data())
				if !ok {
					e.Fail("a handler was given %d unknown bytes (IsRequest %v)", len(ctx.Data()), ctx.IsRequest())
					return nil
				}
				if id == 1 {
					if ctx.IsRequest() {
						e.Fail("a plain message is marked as a request")
					}
					mu.Lock()
					plain[i]++
					mu.Unlock()
					return nil
				}
				if id&many != 0 {
					mu.Lock()
					handled++
					mu.Unlock()
					if !ctx.IsRequest() || i != 1 {
						e.Fail("a small request arrived at the wrong node or as a message")
					}
					if err := ctx.Send(reply(id, 9)); err != nil {
						e.Fail("the reply to a small request failed: %v", err)
					}
					return nil
				}
				nested := id & nest
				k := int(id&^nest>>8) - 1
				if k < 0 || k >= len(p.Reqs) {
					e.Fail("a handler was given data that was not sent as a request: %x (IsRequest %v)", ctx.Data()[:8], ctx.IsRequest())
					return nil
				}
				r := p.Reqs[k]
				mu.Lock()
				seen[i][id]++
				mu.Unlock()
				if !ctx.IsRequest() {
					e.Fail("request %d is not marked as a request", k)
				}
				from, to, size := r.From, r.To, r.Size
				if nested != 0 {
					from, to, size = to, from, 40
				}
				if to != i {
					e.Fail("request %d arrived at the wrong node", k)
				}
				if d := diff(ctx.Data(), payload(id, size)); d != "" {
					e.Fail("request %d arrived altered: %s", k, d)
				}
				if !sameID(ctx.ID(), nodes[from].ID()) {
					e.Fail("request %d is marked as coming from %s instead of %s", k, idStr(ctx.ID()), idStr(nodes[from].ID()))
				}
				if nested != 0 {
					if err := ctx.Send(reply(id, 33)); err != nil {
						e.Fail("the reply to a nested request failed: %v", err)
					}
					return nil
				}
				if r.Silent {
					return nil
				}
				answer := func() {
					for j := 1; j <= r.Nested; j++ {
						nid := nest | uint64(k+1)<<8 | uint64(j)
						d, err := nodes[i].Request(context.Background(), nodes[r.From].Addr(), payload(nid, 40))
						if err != nil {
							e.Fail("nested request failed: %v", err)
						} else if x := diff(d, reply(nid, 33)); x != "" {
							e.Fail("nested request got a wrong reply: %s", x)
						}
					}
					if r.DelayMs > 0 {
						time.Sleep(time.Duration(r.DelayMs) * time.Millisecond)
					}
					if err := ctx.Send(reply(id, r.Reply)); err != nil {
						e.Fail("the reply to request %d failed: %v", k, err)
					}
				}
				if r.Go {
					go answer()
				} else {
					answer()
				}
				return nil
			})
			if !e.Listen(nodes[i]) {
				return
			}
		}
		var fs []func()
		type outT struct {
			data []byte
			err  error
			took time.Duration
		}
		outs := make([]outT, len(p.Reqs))
		var block time.Duration // handlers that reply synchronously delay others
		for _, r := range p.Reqs {
			if !r.Go {
				block += time.Duration(r.DelayMs) * time.Millisecond
			}
		}
		for k, r := range p.Reqs {
			fs = append(fs, func() {
				time.Sleep(time.Duration(r.AtMs) * time.Millisecond)
				ctx, cancel := ctxFor(r.TimeoutMs)
				defer cancel()
				t := time.Now()
				d, err := nodes[r.From].Request(ctx, nodes[r.To].Addr(), payload(uint64(k+1)<<8, r.Size))
				outs[k] = outT{d, err, time.Since(t)}
			})
		}
		for k := 0; k < p.Plain; k++ {
			fs = append(fs, func() {
				time.Sleep(time.Duration(k*7) * time.Millisecond)
				if err := nodes[0].Send(context.Background(), nodes[1].Addr(), payload(1, 8+k)); err != nil {
					e.Fail("Send failed: %v", err)
				}
			})
		}
		for w := 0; w < 64 && p.Many > 0; w++ {
			fs = append(fs, func() {
				time.Sleep(10 * time.Millisecond)
				for k := w; k < p.Many && !e.Failed(); k += 64 {
					id := many + uint64(k)
					if d, err := nodes[0].Request(context.Background(), nodes[1].Addr(), payload(id, 8)); err != nil {
						e.Fail("a small request failed: %v", err)
					} else if x := diff(d, reply(id, 9)); x != "" {
						e.Fail("a small request got a wrong reply: %s", x)
					}
				}
			})
		}
		if !e.Within(6*time.Hour, func() { All(fs...) }) {
			e.Hang("a request does not return")
			return
		}
		time.Sleep(time.Minute)
		e.Settle()
		late := false
		for k, r := range p.Reqs {
			o := outs[k]
			slack := time.Second + time.Duration(40*(p.Link.LatMs+p.Link.Batch+p.Link.Back))*time.Millisecond + block + time.Duration(r.Nested)*time.Second
			if p.Link.Frag > 0 || p.Link.Window > 0 {
				slack += time.Duration((p.Link.LatMs+p.Link.Batch+p.Link.Back)*len(p.Reqs)*200) * time.Millisecond // many windows in turn
			}
			to := time.Duration(r.TimeoutMs) * time.Millisecond
			if o.err == nil {
				if d := diff(o.data, reply(uint64(k+1)<<8, r.Reply)); d != "" {
					e.Fail("request %d got a wrong reply: %s", k, d)
				}
				if r.Silent {
					e.Fail("request %d got a reply although none was given", k)
				}
				if o.took < time.Duration(r.DelayMs)*time.Millisecond {
					e.Fail("request %d got its reply before it was given", k)
				}
				continue
			}
			late = true
			if r.TimeoutMs == 0 || (!r.Silent && to > time.Duration(r.DelayMs)*time.Millisecond+slack) {
				e.Fail("request %d (timeout %dms, replied to after %dms) failed after %v: %v", k, r.TimeoutMs, r.DelayMs, o.took, o.err)
			}
		}
		mu.Lock()
		defer mu.Unlock()
		for k, r := range p.Reqs {
			x := seen[r.To][uint64(k+1)<<8]
			if x > 1 || (x == 0 && outs[k].err == nil) {
				e.Fail("request %d was handled %d times", k, x)
			}
		}
		if handled != p.Many {
			e.Fail("%d small requests were handled %d times", p.Many, handled)
		}
		if p.Many > 0 {
			e.Label("many")
		}
		if plain[1] != p.Plain {
			e.Fail("%d of %d plain messages arrived", plain[1], p.Plain)
		}
		for a := range p.Reqs {
			for b := range p.Reqs[:a] {
				x, y := p.Reqs[a], p.Reqs[b]
				if x.From == y.From && x.To == y.To && x.AtMs-y.AtMs < max(1, y.DelayMs) && y.AtMs-x.AtMs < max(1, x.DelayMs) {
					e.NonTrivial()
				}
			}
		}
		if late {
			e.NonTrivial()
			e.Label("timed-out")
		}
	})
}

// C03: every request ends.

const (
	dropReset = iota
	dropEOF
	dropLocalClient
	dropRemoteClient
	dropLocalNode
	dropRemoteNode
	dropGarbage
	dropBytesUp
	dropBytesDown
	dropRemoteError
	dropLocalError
	dropKinds
)

type c03Req struct {
	AtMs      int
	TimeoutMs int
	CancelMs  int
	DelayMs   int // of the reply; -1: never
	Size      int
}

type c03Plan struct {
	Link    Link
	Workers int
	Kind    int
	AtMs    []int // times of the drops
	Bytes   int   // for the drops by bytes
	Reset   bool
	Redial  bool
	Block   bool // the requester's own handlers are stuck (with a drop from its own side)
	Idle    int
	GoneMs  int // how long the requester's disconnected callback takes
	Reqs    []c03Req
	Hammer  int // so many callers that do nothing but request, while connections go
	Drops   []int
}

func init() {
	register(&Prop{ID: "C03", Quick: 8000, Thorough: 60000, Rule: "One requester with one to thirty requests, with or without deadlines and cancellations, answered early, late or never, with callbacks that may take their time, while the connection is dropped in one of eleven ways (reset, end of stream, client or node closed on either side, garbage, handler error on either side, after any number of bytes in either direction) at one to three times, with and without the peer being reachable again; and up to 24 callers that do nothing but request while connection after connection is dropped. The virtual clock decides when each request must have ended. Non-trivial: a request was waiting when its connection went away."},
		func(s *gen.S) c03Plan {
			p := c03Plan{Link: genLink(s), Workers: gen.Pick(s, 1, 2, 4), Kind: s.Intn(dropKinds), Reset: s.Bool(50), Redial: s.Bool(50)}
			for k := s.Range(1, 3); k > 0; k-- {
				p.AtMs = append(p.AtMs, 10_000*len(p.AtMs)+s.Range(1, gen.Pick(s, 30, 1000, 9000)))
			}
			p.Bytes = gen.Pick(s, s.Range(0, 330), s.Range(300, 1500), s.Range(0, 20000))
			if p.Kind == dropBytesUp || p.Kind == dropBytesDown || p.Kind == dropLocalNode {
				p.Redial = false
			}
			if p.Kind == dropLocalClient && s.Bool(30) {
				p.Block = true
			}
			for k := s.Range(1, gen.Pick(s, 3, 30)); k > 0; k-- {
				r := c03Req{AtMs: gen.Pick(s, 0, s.Intn(12000), gen.Pick(s, p.AtMs...)+s.Range(-2, 2)), DelayMs: gen.Pick(s, -1, -1, 0, s.Intn(10000)), Size: gen.Pick(s, 8, s.Range(8, 3000))}
				if r.AtMs < 0 {
					r.AtMs = 0
				}
				if s.Bool(30) {
					r.TimeoutMs = s.Range(1, 15000)
				}
				if s.Bool(15) {
					r.CancelMs = s.Range(1, 15000)
				}
				p.Reqs = append(p.Reqs, r)
			}
			if !p.Block && s.Bool(15) {
				p.GoneMs = s.Range(1000, 30000)
			}
			if s.Bool(5) {
				p = c03Plan{Workers: 4, Hammer: s.Range(1, 24)}
				for k := s.Range(1, 60); k > 0; k-- {
					p.Drops = append(p.Drops, gen.Pick(s, 0, 1, 2, 3, 4)+8*s.Intn(200))
				}
			}
			return p
		}, runC03)
}

// c03Hammer has connections dropped at any point of the making and answering of requests.
func c03Hammer(c *C, p c03Plan) {
	Bubble(c, func(e *Env) {
		a, b := e.Node(noise.WithNodeNumWorkers(4)), e.Node(noise.WithNodeNumWorkers(4))
		b.Handle(func(ctx noise.HandlerContext) error { return ctx.Send(ctx.Data()) })
		if !e.Listen(b) || !e.Listen(a) {
			return
		}
		var over atomic.Bool
		var n atomic.Int64
		var fs []func()
		for w := 0; w < p.Hammer; w++ {
			fs = append(fs, func() {
				for k := 0; k < 3000 && !over.Load(); k++ {
					id := uint64(w)<<32 + uint64(k)
					d, err := a.Request(context.Background(), b.Addr(), payload(id, 8))
					if err == nil {
						n.Add(1)
						if x := diff(d, payload(id, 8)); x != "" {
							e.Fail("a request got a wrong reply: %s", x)
						}
					}
				}
			})
		}
		fs = append(fs, func() {
			defer over.Store(true)
			for _, x := range p.Drops {
				for k := x / 8; k > 0; k-- {
					runtime.Gosched()
				}
				before := n.Load()
				for k := 0; k < 20000 && n.Load() == before; k++ {
					runtime.Gosched()
				}
				switch x % 8 {
				case 0, 1:
					for _, cn := range e.Net.Conns() {
						if !cn.Closed() && !cn.Peer().Closed() {
							if x%8 == 0 {
								cn.Reset()
							} else {
								cn.In().EOF()
							}
						}
					}
				case 2:
					for _, cl := range a.Outbound() {
						cl.Close()
					}
				case 3:
					for _, cl := range b.Inbound() {
						cl.Close()
					}
				case 4:
					for _, cn := range e.Net.Conns() {
						if !cn.Closed() && !cn.Peer().Closed() {
							cn.Peer().In().EOF()
						}
					}
				}
			}
		})
		if !e.Within(time.Hour, func() { All(fs...) }) {
			e.Hang("a request never ends after its connection was dropped")
			return
		}
		e.Label("hammer")
		e.NonTrivial()
	})
}

func runC03(c *C, p c03Plan) {
	if p.Hammer > 0 {
		c03Hammer(c, p)
		return
	}
	Bubble(c, func(e *Env) {
		e.link(p.Link)
		var mu sync.Mutex
		var death time.Duration
		died := false
		die := func() {
			mu.Lock()
			if !died {
				died, death = true, e.Net.Now()
			}
			mu.Unlock()
		}
		isDead := func() bool { mu.Lock(); defer mu.Unlock(); return died }
		up := p.Kind == dropBytesUp
		if up || p.Kind == dropBytesDown {
			e.Net.OnConn = func(d *dialRec) (a, b policy) {
				a, b = p.Link.policy(), p.Link.policy()
				left := p.Bytes
				f := func(q *pipe, x []byte) []byte {
					if left > len(x) {
						left -= len(x)
						return x
					}
					x = x[:left]
					left = 0
					die()
					if p.Reset {
						w := q.Writer()
						go func() { w.Reset() }()
						return x
					}
					q.InjectLocked(x)
					q.EOFLocked()
					q.HoleLocked()
					return nil
				}
				if up {
					a.Filter = f
				} else {
					b.Filter = f
				}
				return
			}
		}
		e.Net.OnDial = func(d *dialRec) (o outcome2) {
			if isDead() && !p.Redial {
				o.Refuse = true
			}
			return
		}
		var clientsB []*noise.Client
		stop := make(chan struct{})
		b := e.Node(noise.WithNodeNumWorkers(uint(p.Workers)))
		b.Bind(noise.Protocol{OnPeerConnected: func(c *noise.Client) { mu.Lock(); clientsB = append(clientsB, c); mu.Unlock() }})
		b.Handle(func(ctx noise.HandlerContext) error {
			id, ok := payloadID(ctx.Data())
			if ok && id == 99 {
				return fmt.Errorf("handler error")
			}
			if !ctx.IsRequest() {
				switch id {
				case 97:
					ctx.Send(payload(98, 8))
				case 96: // fill the requester's queue of work
					for i := 0; i < 3*p.Workers+3; i++ {
						ctx.Send(payload(5, 8))
					}
				}
				return nil
			}
			k := int(id>>8) - 1
			r := p.Reqs[k]
			if r.DelayMs >= 0 {
				go func() {
					select {
					case <-time.After(time.Duration(r.DelayMs) * time.Millisecond):
						ctx.Send(ctx.Data())
					case <-stop:
					}
				}()
			}
			return nil
		})
		a := e.Node(noise.WithNodeNumWorkers(uint(p.Workers)))
		a.Handle(func(ctx noise.HandlerContext) error {
			id, ok := payloadID(ctx.Data())
			if ok && id == 98 {
				return fmt.Errorf("handler error")
			}
			if p.Block {
				<-stop
			}
			return nil
		})
		if p.GoneMs > 0 {
			a.Bind(noise.Protocol{OnPeerDisconnected: func(*noise.Client) { time.Sleep(time.Duration(p.GoneMs) * time.Millisecond) }})
		}
		defer close(stop)
		if !e.Listen(b) || !e.Listen(a) {
			return
		}
		if p.Block { // the requester's reader gets stuck
			if err := a.Send(context.Background(), b.Addr(), payload(96, 8)); err != nil {
				e.Fail("Send failed: %v", err)
			}
		}
		type outT struct {
			done     bool
			start    time.Duration
			end      time.Duration
			err      error
			data     []byte
			expected []byte
		}
		outs := make([]outT, len(p.Reqs))
		var wg sync.WaitGroup
		for k, r := range p.Reqs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(time.Duration(r.AtMs) * time.Millisecond)
				ctx, cancel := ctxFor(r.TimeoutMs)
				defer cancel()
				if r.CancelMs > 0 {
					t := time.AfterFunc(time.Duration(r.CancelMs)*time.Millisecond, cancel)
					defer t.Stop()
				}
				x := payload(uint64(k+1)<<8, r.Size)
				mu.Lock()
				outs[k].start = e.Net.Now()
				mu.Unlock()
				d, err := a.Request(ctx, b.Addr(), x)
				mu.Lock()
				s := outs[k].start
				outs[k] = outT{true, s, e.Net.Now(), err, d, x}
				mu.Unlock()
			}()
		}
		// The drops.
		drop := func() {
			var live []*vconn
			for _, cn := range e.Net.Conns() {
				if !cn.Closed() && !cn.Peer().Closed() && cn.DialRec().N >= 0 {
					live = append(live, cn)
				}
			}
			switch p.Kind {
			case dropReset:
				for _, cn := range live {
					cn.Reset()
				}
			case dropEOF:
				for _, cn := range live {
					cn.In().EOF()
				}
			case dropLocalClient:
				for _, x := range a.Outbound() {
					x.Close()
				}
			case dropRemoteClient:
				mu.Lock()
				cs := append([]*noise.Client(nil), clientsB...)
				mu.Unlock()
				for _, x := range cs {
					x.Close()
				}
				for _, x := range b.Inbound() {
					x.Close()
				}
			case dropLocalNode:
				go a.Close()
			case dropRemoteNode:
				go b.Close()
			case dropGarbage:
				for _, cn := range live {
					g := gen.Expand(uint64(p.Bytes), 64)
					g[0] |= 0x10 // otherwise it may be the start of a frame within the limits
					cn.Peer().Out().Inject(g)
				}
			case dropRemoteError:
				go a.Send(context.Background(), b.Addr(), payload(99, 8))
			case dropLocalError:
				// the peer sends back something the requester's handler refuses
				go a.Send(context.Background(), b.Addr(), payload(97, 8))
			}
		}
		lat := time.Duration(p.Link.LatMs) * time.Millisecond
		slow := lat
		if p.Link.Window > 0 || p.Link.Frag > 0 {
			slow = lat * 150 // many small windows in turn
		}
		slack := 500*time.Millisecond + 30*slow
		if p.Kind == dropGarbage { // the garbage has to be read up to the end of the frame it announces
			slack += 3 * time.Second
		}
		at := func(d time.Duration) {
			if w := d - e.Net.Now(); w > 0 {
				time.Sleep(w)
			}
		}
		var drops []time.Duration
		switch p.Kind {
		case dropBytesUp, dropBytesDown:
		default:
			for i, ms := range p.AtMs {
				at(time.Duration(ms) * time.Millisecond)
				if i == len(p.AtMs)-1 || !p.Redial {
					die()
				}
				drops = append(drops, e.Net.Now())
				drop()
				if !p.Redial {
					switch p.Kind {
					case dropReset, dropEOF, dropLocalClient, dropRemoteClient:
						// once more, for a connection that was being made at that moment
						time.Sleep(2*lat + time.Millisecond)
						drop()
					}
					break
				}
			}
		}
		// In the end, everything is dropped for good.
		last := time.Duration(0)
		for _, r := range p.Reqs {
			last = max(last, time.Duration(r.AtMs)*time.Millisecond)
		}
		at(last + 2*time.Second)
		at(35 * time.Second)
		e.Net.OnDial = func(d *dialRec) outcome2 { return outcome2{Refuse: true} }
		for _, cn := range e.Net.Conns() {
			if cn.DialRec().N >= 0 && !p.Block {
				cn.Reset()
			}
		}
		if p.Block {
			for _, x := range a.Outbound() {
				x.Close()
			}
		}
		final := e.Net.Now()
		drops = append(drops, final)
		if !e.Within(slack+time.Minute, wg.Wait) {
			mu.Lock()
			for k, o := range outs {
				if !o.done {
					e.Hang("request %d (started at %v) has not ended although its connection is gone since %v, now %v", k, o.start, final, e.Net.Now())
				}
			}
			mu.Unlock()
			return
		}
		mu.Lock()
		defer mu.Unlock()
		for k, r := range p.Reqs {
			o := outs[k]
			if o.err == nil {
				if d := diff(o.data, o.expected); d != "" {
					e.Fail("request %d got a wrong reply: %s", k, d)
				}
			}
			if r.TimeoutMs > 0 {
				if lim := o.start + time.Duration(r.TimeoutMs)*time.Millisecond; o.end > lim+time.Millisecond {
					e.Fail("request %d returned at %v, its deadline was at %v", k, o.end, lim)
				}
			}
			if r.CancelMs > 0 {
				if lim := o.start + time.Duration(r.CancelMs)*time.Millisecond; o.end > lim+time.Millisecond {
					e.Fail("request %d returned at %v, it was cancelled at %v", k, o.end, lim)
				}
			}
			// The connection it travelled on was gone at the first drop that came well after its start.
			if p.Redial {
				for _, d := range drops {
					if d > o.start+slack {
						if o.end > d+slack {
							e.Fail("request %d (started at %v) ended at %v although its connection was gone at %v: %v", k, o.start, o.end, d, o.err)
						}
						break
					}
				}
			} else if died && o.end > max(o.start, death)+slack {
				e.Fail("request %d (started at %v) ended at %v although the peer was gone for good at %v: %v", k, o.start, o.end, death, o.err)
			}
			if died && o.start < death && o.end >= death && o.err != nil {
				e.NonTrivial()
				e.Label("waiting-at-drop")
			}
		}
		e.Label("drop-%d", p.Kind)
	})
}
