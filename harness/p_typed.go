package main

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"reflect"
	"runtime"
	"sync"
	"time"

	"github.com/perlin-network/noise"

	"verifharness/gen"
)

// C34: typed messages over the network.

type yVal struct {
	ID uint64
	B  []byte
}
type yPtr struct{ S string } // registered as *yPtr
type yStr string
type yRef []byte // its decoder keeps the bytes it was given
type yPicky struct{ B []byte }
type yEmpty struct{}
type yNest struct {
	Tag   uint64
	Inner noise.Serializable
	node  *noise.Node
}
type yLate1 struct{ yEmpty }
type yLate2 struct{ yEmpty }

func (m yVal) Marshal() []byte   { return append(binary.BigEndian.AppendUint64(nil, m.ID), m.B...) }
func (m *yPtr) Marshal() []byte  { return []byte(m.S) }
func (m yStr) Marshal() []byte   { return []byte(m) }
func (m yRef) Marshal() []byte   { return m }
func (m yPicky) Marshal() []byte { return m.B }
func (m yEmpty) Marshal() []byte { return nil }
func (m yNest) Marshal() []byte {
	for i := 0; i < 30; i++ {
		runtime.Gosched()
	}
	b, err := m.node.EncodeMessage(m.Inner)
	if err != nil {
		b = nil
	}
	return append(binary.BigEndian.AppendUint64(nil, m.Tag), b...)
}

const yKinds = 7

// yReg registers type k with n.
func yReg(n *noise.Node, k int) uint16 {
	switch k {
	case 0:
		return n.RegisterMessage(yVal{}, func(b []byte) (yVal, error) {
			if len(b) < 8 {
				return yVal{}, errDec
			}
			return yVal{binary.BigEndian.Uint64(b), cp(b[8:])}, nil
		})
	case 1:
		return n.RegisterMessage((*yPtr)(nil), func(b []byte) (*yPtr, error) { return &yPtr{string(b)}, nil })
	case 2:
		return n.RegisterMessage(yStr(""), func(b []byte) (yStr, error) { return yStr(b), nil })
	case 3:
		return n.RegisterMessage(yRef(nil), func(b []byte) (yRef, error) { return yRef(b), nil })
	case 4:
		return n.RegisterMessage(yPicky{}, func(b []byte) (yPicky, error) {
			if yRefuses(b) {
				return yPicky{cp(b)}, errDec // a value beside an error
			}
			return yPicky{cp(b)}, nil
		})
	case 5:
		return n.RegisterMessage(yEmpty{}, func(b []byte) (yEmpty, error) { return yEmpty{}, nil })
	case 6:
		return n.RegisterMessage(yNest{}, func(b []byte) (yNest, error) {
			for i := 0; i < 30; i++ {
				runtime.Gosched()
			}
			if len(b) < 8 {
				return yNest{}, errDec
			}
			in, err := n.DecodeMessage(b[8:])
			if err != nil {
				return yNest{}, err
			}
			return yNest{binary.BigEndian.Uint64(b), in, nil}, nil
		})
	case 7:
		return n.RegisterMessage(yLate1{}, func(b []byte) (yLate1, error) { return yLate1{}, nil })
	}
	return n.RegisterMessage(yLate2{}, func(b []byte) (yLate2, error) { return yLate2{}, nil })
}

func yRefuses(b []byte) bool { return len(b)%3 == 1 }

// yMake is the value of type k with content b.
func yMake(n *noise.Node, k int, b []byte, inner int) noise.Serializable {
	switch k {
	case 0:
		return yVal{binary.BigEndian.Uint64(b), cp(b[8:])}
	case 1:
		return &yPtr{string(b)}
	case 2:
		return yStr(b)
	case 3:
		return yRef(cp(b))
	case 4:
		return yPicky{cp(b)}
	case 5:
		return yEmpty{}
	}
	return yNest{binary.BigEndian.Uint64(b), yMake(n, inner%6, b, 0), n}
}

// yWire is its encoding under a registry, or nil.
func yWire(reg []int, k int, b []byte, inner int) []byte {
	op := -1
	for i, x := range reg {
		if x == k {
			op = i
		}
	}
	if op < 0 {
		return nil
	}
	w := binary.BigEndian.AppendUint16(nil, uint16(op))
	switch k {
	case 5:
		return w
	case 6:
		return append(append(w, b[:8]...), yWire(reg, inner%6, b, 0)...)
	}
	return append(w, b...)
}

// yRead decodes under a registry.
func yRead(reg []int, w []byte) (noise.Serializable, error) {
	if len(w) < 2 {
		return nil, errDec
	}
	op := int(binary.BigEndian.Uint16(w))
	w = w[2:]
	if op >= len(reg) {
		return nil, errDec
	}
	switch reg[op] {
	case 0:
		if len(w) < 8 {
			return nil, errDec
		}
		return yVal{binary.BigEndian.Uint64(w), cp(w[8:])}, nil
	case 1:
		return &yPtr{string(w)}, nil
	case 2:
		return yStr(w), nil
	case 3:
		return yRef(cp(w)), nil
	case 4:
		if yRefuses(w) {
			return nil, errDec
		}
		return yPicky{cp(w)}, nil
	case 5:
		return yEmpty{}, nil
	}
	if len(w) < 8 {
		return nil, errDec
	}
	in, err := yRead(reg, w[8:])
	if err != nil {
		return nil, err
	}
	return yNest{binary.BigEndian.Uint64(w), in, nil}, nil
}

type c34Op struct {
	From, To int // To -1: an address nobody may dial
	Req      bool
	Type     int
	Inner    int
	Size     int
	Ptr      bool // a pointer to the value
	At       int
	Handler  int // decodings by the handler
	Reply    int // 0 typed, 1 raw bytes, 2 none
	RType    int
	RSize    int
	RDelay   int
	Deadline int
}

type c34Plan struct {
	Link Link
	Regs [][]int // types registered with each node, in order
	Late []bool  // registers further types meanwhile
	Ops  []c34Op
}

func init() {
	register(&Prop{ID: "C34", Quick: 8000, Thorough: 300000, Rule: "Two or three nodes that register seven kinds of types (values, pointers, retaining and refusing decoders, empty encodings, types nesting others by the node's own codec) in equal or different orders and numbers; up to forty concurrent typed messages and requests of all sizes, to peers and to an address that must not be dialled, answered with typed values, raw bytes or nothing; further types are registered meanwhile. What handlers and callers decode is compared with a model of both registries. Non-trivial: at least three typed exchanges of at least two types.",
		Assume: []string{"A late registration may or may not have taken effect for values that arrive meanwhile."}},
		func(s *gen.S) c34Plan {
			p := c34Plan{Link: genLinkBatch(s)}
			base := s.Perm(yKinds)
			for k := s.Range(2, 3); k > 0; k-- {
				reg := append([]int{}, base...)
				switch s.Intn(4) {
				case 0:
					reg = reg[:s.Range(1, yKinds)]
				case 1:
					reg = s.Perm(yKinds)[:s.Range(1, yKinds)]
				}
				p.Regs = append(p.Regs, reg)
				p.Late = append(p.Late, s.Bool(30))
			}
			for k := s.Range(1, gen.Pick(s, 6, 40)); k > 0; k-- {
				o := c34Op{From: s.Intn(len(p.Regs)), Req: s.Bool(60), Type: s.Intn(yKinds), Inner: s.Intn(6), Size: gen.Pick(s, 16, s.Range(8, 100), s.Range(8, 100), s.Range(4000, 5000), s.Range(8, 70000)), Ptr: s.Bool(20), At: gen.Pick(s, 0, 0, s.Intn(1000)), Handler: s.Weighted(1, 6, 2), Reply: s.Weighted(7, 2, 1), RType: s.Intn(yKinds), RDelay: gen.Pick(s, 0, 0, s.Intn(500)), Deadline: gen.Pick(s, 600000, 600000, s.Range(1, 1000))}
				o.RSize = gen.Pick(s, 16, s.Range(8, 300), s.Range(8, 20000))
				if o.Reply == 1 {
					o.RSize = gen.Pick(s, 0, 1, 2, 3, 10, s.Range(0, 50))
				}
				o.To = (o.From + s.Range(1, len(p.Regs)-1)) % len(p.Regs)
				if s.Bool(10) {
					o.To = -1
				}
				p.Ops = append(p.Ops, o)
			}
			return p
		}, runC34)
}

func runC34(c *C, p c34Plan) {
	Bubble(c, func(e *Env) {
		e.link(p.Link)
		var nodes []*noise.Node
		for i := range p.Regs {
			n := e.Node(noise.WithNodeNumWorkers(uint(2 + i)))
			for k, x := range p.Regs[i] {
				if op := yReg(n, x); int(op) != k {
					e.Fail("type %d was registered under %d", k, op)
				}
			}
			nodes = append(nodes, n)
		}
		content := func(i int, size int) []byte { return payload(uint64(i), size) }
		late := func(i int) int {
			if p.Late[i] {
				return 2
			}
			return 0
		}
		// check compares a decoded value with the model's.
		check := func(at int, w []byte, got noise.Serializable, err error, what string) {
			want, werr := yRead(p.Regs[at], w)
			maybe := p.Late[at] && (len(w) >= 2 && int(binary.BigEndian.Uint16(w)) >= len(p.Regs[at]) && int(binary.BigEndian.Uint16(w)) < len(p.Regs[at])+late(at))
			if len(w) >= 12 && !maybe && p.Late[at] { // nested
				op, in := int(binary.BigEndian.Uint16(w)), int(binary.BigEndian.Uint16(w[10:]))
				maybe = op < len(p.Regs[at]) && p.Regs[at][op] == 6 && in >= len(p.Regs[at]) && in < len(p.Regs[at])+2
			}
			switch {
			case maybe:
			case werr != nil && err == nil:
				e.Fail("%s decodes to %T instead of failing", what, got)
			case werr != nil && got != nil:
				e.Fail("%s gives a value (%T) besides an error", what, got)
			case werr == nil && err != nil:
				e.Fail("%s fails to decode: %v", what, err)
			case werr == nil && !reflect.DeepEqual(got, want):
				e.Fail("%s decodes to another value (%T instead of %T)", what, got, want)
			}
		}
		ops := map[string]int{} // by receiving node and bytes
		wires := make([][]byte, len(p.Ops))
		for i, o := range p.Ops {
			wires[i] = yWire(p.Regs[o.From], o.Type, content(i, o.Size), o.Inner)
			if o.Type == 6 && wires[i] != nil && yWire(p.Regs[o.From], o.Inner, content(i, o.Size), 0) == nil {
				wires[i] = append(wires[i][:2:2], content(i, 8)...) // not encodable inside
			}
		}
		replyWire := func(i int) ([]byte, bool) { // what is answered, if it can be
			o := p.Ops[i]
			if o.Reply == 1 {
				return gen.Expand(uint64(i), o.RSize), true
			}
			if o.RType == 5 && yWire(p.Regs[o.To], 5, nil, 0) != nil {
				return yWire(p.Regs[o.To], 5, nil, 0), true
			}
			w := yWire(p.Regs[o.To], o.RType, content(i+1<<20, o.RSize), o.Inner)
			if o.RType == 6 && w != nil && yWire(p.Regs[o.To], o.Inner, content(i+1<<20, o.RSize), 0) == nil {
				w = append(w[:2:2], content(i+1<<20, 8)...)
			}
			return w, w != nil
		}
		for i, o := range p.Ops {
			if o.To >= 0 && wires[i] != nil && o.Type != 5 {
				ops[fmt.Sprint(o.To, ":", string(wires[i]))] = i
			}
		}
		type keptVal struct {
			at int
			w  []byte
			v  noise.Serializable
		}
		var mu sync.Mutex
		handled := make([]int, len(p.Ops))
		var kept []keptVal
		empties := make([]int, len(nodes))
		for at, n := range nodes {
			n.Handle(func(ctx noise.HandlerContext) error {
				i, ok := ops[fmt.Sprint(at, ":", string(ctx.Data()))]
				if !ok {
					if len(ctx.Data()) == 2 { // one of the empty ones
						mu.Lock()
						empties[at]++
						mu.Unlock()
						v, err := ctx.DecodeMessage()
						check(at, cp(ctx.Data()), v, err, "an empty message")
						if ctx.IsRequest() {
							ctx.Send(nil)
						}
						return nil
					}
					e.Fail("a handler got %d bytes nobody sent", len(ctx.Data()))
					return nil
				}
				o := p.Ops[i]
				mu.Lock()
				handled[i]++
				mu.Unlock()
				if ctx.IsRequest() != o.Req {
					e.Fail("a typed message (request: %v) arrives as request: %v", o.Req, ctx.IsRequest())
				}
				dec := func() {
					v, err := ctx.DecodeMessage()
					check(at, wires[i], v, err, "a message")
					if err == nil {
						mu.Lock()
						kept = append(kept, keptVal{at, wires[i], v})
						mu.Unlock()
					}
				}
				var fs []func()
				for k := 0; k < o.Handler; k++ {
					fs = append(fs, dec)
				}
				All(fs...)
				answer := func() {
					if !o.Req || o.Reply == 2 {
						return
					}
					w, ok := replyWire(i)
					if o.Reply == 1 {
						if err := ctx.Send(w); err != nil {
							e.Fail("a reply failed: %v", err)
						}
						return
					}
					err := ctx.SendMessage(yMake(nodes[at], o.RType, content(i+1<<20, max(o.RSize, 8)), o.Inner))
					if ok && err != nil {
						e.Fail("a typed reply failed: %v", err)
					}
					if !ok && err == nil {
						e.Fail("a reply of an unregistered type reports success")
					}
				}
				if o.RDelay > 0 {
					go func() {
						time.Sleep(time.Duration(o.RDelay) * time.Millisecond)
						answer()
					}()
				} else {
					answer()
				}
				return nil
			})
		}
		for _, n := range nodes {
			if !e.Listen(n) {
				return
			}
		}
		types := map[int]bool{}
		typed := 0
		var fs []func()
		wantEmpty := make([]int, len(nodes))
		dark := "127.0.0.1:9300"
		used := map[string]bool{}
		for i, o := range p.Ops {
			if wires[i] != nil {
				types[o.Type] = true
				typed++
				if o.To >= 0 {
					used[nodes[o.To].Addr()] = true
					if o.Type == 5 {
						wantEmpty[o.To]++
					}
				}
			}
			fs = append(fs, func() {
				time.Sleep(time.Duration(o.At) * time.Millisecond)
				if wires[i] != nil && o.To < 0 {
					return // only unregistered types go to where nobody may dial
				}
				addr := dark
				if o.To >= 0 {
					addr = nodes[o.To].Addr()
				}
				n := nodes[o.From]
				v := yMake(n, o.Type, content(i, o.Size), o.Inner)
				if o.Ptr && o.Type != 1 {
					pv := reflect.New(reflect.TypeOf(v))
					pv.Elem().Set(reflect.ValueOf(v))
					v = pv.Interface().(noise.Serializable)
				}
				ctx, cancel := context.WithTimeout(context.Background(), time.Duration(o.Deadline)*time.Millisecond)
				defer cancel()
				if !o.Req {
					err := n.SendMessage(ctx, addr, v)
					if wires[i] == nil && err == nil {
						e.Fail("SendMessage of an unregistered type reports success")
					}
					if wires[i] != nil && err != nil && ctx.Err() == nil {
						e.Fail("SendMessage failed: %v", err)
					}
					return
				}
				start := time.Now()
				res, err := n.RequestMessage(ctx, addr, v)
				if err != nil && res != nil {
					e.Fail("RequestMessage returns a value (%T) besides the error %v", res, err)
				}
				if wires[i] == nil {
					if err == nil {
						e.Fail("RequestMessage of an unregistered type reports success")
					}
					if time.Since(start) > 0 {
						e.Fail("RequestMessage of an unregistered type takes %v", time.Since(start))
					}
					return
				}
				if o.Type == 5 { // answered with nothing
					if err == nil {
						e.Fail("RequestMessage returns %T although the reply was empty", res)
					}
					return
				}
				w, ok := replyWire(i)
				if o.Reply == 2 || !ok {
					if err == nil {
						e.Fail("RequestMessage returns %T although there was no reply", res)
					} else if !errors.Is(err, context.DeadlineExceeded) {
						e.Fail("RequestMessage without a reply fails with %v", err)
					}
					return
				}
				if err != nil && ctx.Err() != nil {
					return // too late
				}
				check(o.From, w, res, err, "a reply")
				if err == nil {
					mu.Lock()
					kept = append(kept, keptVal{o.From, w, res})
					mu.Unlock()
				}
			})
		}
		for i, l := range p.Late {
			if l {
				fs = append(fs, func() {
					time.Sleep(time.Duration(i*7) * time.Millisecond)
					for k := 0; k < 2; k++ {
						for j := 0; j < 10; j++ {
							runtime.Gosched()
						}
						if op := yReg(nodes[i], 7+k); int(op) != len(p.Regs[i])+k {
							e.Fail("a late type was registered under %d", op)
						}
					}
				})
			}
		}
		if !e.Within(11*time.Minute, func() { All(fs...) }) {
			e.Hang("typed messaging does not end")
			return
		}
		time.Sleep(time.Minute)
		e.Settle()
		mu.Lock()
		defer mu.Unlock()
		for _, k := range kept {
			check(k.at, k.w, k.v, nil, "a value kept until later")
		}
		for i, o := range p.Ops {
			want := 0
			if o.To >= 0 && wires[i] != nil && o.Type != 5 {
				want = 1
			}
			if handled[i] > want || handled[i] < want && o.Deadline == 600000 {
				e.Fail("a typed message was handled %d times", handled[i])
			}
		}
		for i := range nodes {
			if empties[i] > wantEmpty[i] {
				e.Fail("%d empty messages were handled instead of %d", empties[i], wantEmpty[i])
			}
		}
		for _, d := range e.Net.Dials() {
			if !used[d.Addr] && !used["127.0.0.1"+d.Addr] && !c34Used(used, d.Addr) {
				e.Fail("%s was dialled, although only unregistered types were sent there", d.Addr)
			}
		}
		if typed >= 3 && len(types) >= 2 {
			e.NonTrivial()
		}
		e.Label("nodes:%d late:%v", len(nodes), p.Late[0] || p.Late[1])
	})
}

func c34Used(used map[string]bool, addr string) bool {
	for u := range used {
		if portOf(u) == portOf(addr) {
			return true
		}
	}
	return false
}

func portOf(a string) string {
	for i := len(a) - 1; i >= 0; i-- {
		if a[i] == ':' {
			return a[i:]
		}
	}
	return a
}
