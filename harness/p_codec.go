package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"reflect"

	"github.com/perlin-network/noise"

	"verifharness/gen"
)

// C22: registered message types. The types below differ in kind: values, pointers, and both.

type tA struct{ B []byte }
type tB string
type tC struct{ X, Y uint32 }
type tD struct{ S string } // registered as *tD
type tE []byte
type tF uint16
type tG struct{}            // empty
type tH struct{ V [3]byte } // registered as *tH

func (m tA) Marshal() []byte { return m.B }
func (m tB) Marshal() []byte { return []byte(m) }
func (m tC) Marshal() []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint32(b, m.X)
	binary.BigEndian.PutUint32(b[4:], m.Y)
	return b
}
func (m *tD) Marshal() []byte { return []byte(m.S) }
func (m tE) Marshal() []byte  { return m }
func (m tF) Marshal() []byte  { return []byte{byte(m >> 8), byte(m)} }
func (m tG) Marshal() []byte  { return nil }
func (m *tH) Marshal() []byte { return m.V[:] }

var errDec = errors.New("decoder refused")

func cp(b []byte) []byte { return append([]byte{}, b...) }

type codecType struct {
	name  string
	proto noise.Serializable
	de    any
	mk    func(b []byte) noise.Serializable
	ptr   func(v noise.Serializable) noise.Serializable // pointer to a value type
	bad   []any
}

var codecTypes = []codecType{
	{"tA", tA{}, func(b []byte) (tA, error) { return tA{cp(b)}, nil }, func(b []byte) noise.Serializable { return tA{cp(b)} },
		func(v noise.Serializable) noise.Serializable { x := v.(tA); return &x },
		[]any{func(b []byte) tA { return tA{} }, func(b []byte) (*tA, error) { return nil, nil }, func(b string) (tA, error) { return tA{}, nil }, func() (tA, error) { return tA{}, nil }, 42}},
	{"tB", tB(""), func(b []byte) (tB, error) { return tB(b), nil }, func(b []byte) noise.Serializable { return tB(b) },
		func(v noise.Serializable) noise.Serializable { x := v.(tB); return &x },
		[]any{func(b []byte) (string, error) { return "", nil }, func(b []byte) (tA, error) { return tA{}, nil }}},
	{"tC", tC{}, func(b []byte) (tC, error) {
		if len(b) != 8 {
			return tC{}, errDec
		}
		return tC{binary.BigEndian.Uint32(b), binary.BigEndian.Uint32(b[4:])}, nil
	}, func(b []byte) noise.Serializable {
		b = append(cp(b), make([]byte, 8)...)
		return tC{binary.BigEndian.Uint32(b), binary.BigEndian.Uint32(b[4:])}
	}, func(v noise.Serializable) noise.Serializable { x := v.(tC); return &x },
		[]any{func(b []byte) (tC, bool) { return tC{}, false }}},
	{"*tD", (*tD)(nil), func(b []byte) (*tD, error) { return &tD{string(b)}, nil }, func(b []byte) noise.Serializable { return &tD{string(b)} }, nil,
		[]any{func(b []byte) (tD, error) { return tD{}, nil }}},
	{"tE", tE(nil), func(b []byte) (tE, error) { return tE(cp(b)), nil }, func(b []byte) noise.Serializable { return tE(cp(b)) },
		func(v noise.Serializable) noise.Serializable { x := v.(tE); return &x },
		[]any{func(b []byte) ([]byte, error) { return nil, nil }}},
	{"tF", tF(0), func(b []byte) (tF, error) {
		if len(b) != 2 {
			return 0, errDec
		}
		return tF(b[0])<<8 | tF(b[1]), nil
	}, func(b []byte) noise.Serializable { b = append(cp(b), 0, 0); return tF(b[0])<<8 | tF(b[1]) },
		func(v noise.Serializable) noise.Serializable { x := v.(tF); return &x },
		[]any{func(b ...byte) (tF, error) { return 0, nil }}},
	{"tG", tG{}, func(b []byte) (tG, error) { return tG{}, nil }, func(b []byte) noise.Serializable { return tG{} },
		func(v noise.Serializable) noise.Serializable { x := v.(tG); return &x },
		[]any{func(b []byte) (tG, *error) { return tG{}, nil }}},
	{"*tH", (*tH)(nil), func(b []byte) (*tH, error) {
		if len(b) != 3 {
			return nil, errDec
		}
		x := &tH{}
		copy(x.V[:], b)
		return x, nil
	}, func(b []byte) noise.Serializable { x := &tH{}; copy(x.V[:], append(cp(b), 0, 0, 0)); return x }, nil,
		[]any{func(b []byte) (noise.Serializable, error) { return nil, nil }}},
}

type codecOp struct {
	K    int // 0 register, 1 register badly, 2 round trip, 3 decode raw, 4 encode unregistered
	T    int
	Data []byte
	Bad  int
	Op   int
	Near bool // the number to decode is near the highest
}

type codecPlan struct {
	Ops   []codecOp
	Extra int // so many nameless types are registered first
}

func extraType(i int) (noise.Serializable, any) {
	// A family of distinct types: arrays embedded by length.
	if i >= len(extraTypes) {
		return manyTypes[i-len(extraTypes)]()
	}
	t := extraTypes[i]
	return t.v, t.d
}

type x0 [1]byte
type x1 [2]byte
type x2 struct{ a, b int }
type x3 map[string]int

func (x0) Marshal() []byte { return []byte{0xa0} }
func (x1) Marshal() []byte { return []byte{0xa1} }
func (x2) Marshal() []byte { return []byte{0xa2} }
func (x3) Marshal() []byte { return []byte{0xa3} }

var extraTypes = []struct {
	v noise.Serializable
	d any
}{
	{x0{}, func([]byte) (x0, error) { return x0{}, nil }},
	{x1{}, func([]byte) (x1, error) { return x1{}, nil }},
	{x2{}, func([]byte) (x2, error) { return x2{}, nil }},
	{x3{}, func([]byte) (x3, error) { return nil, nil }},
}

func init() {
	register(&Prop{ID: "C22", Quick: 1500, Thorough: 40000, Rule: "Generated sequences of registrations (values, pointers, empty types), faulty registrations (duplicates, nine kinds of unsuitable decoders), encodings and decodings (registered, unregistered, pointers to values, nil decoder results, unknown numbers, short input) on two nodes that register alike, compared with a model of the table. Non-trivial: at least two types registered and one value round-tripped."},
		func(s *gen.S) codecPlan {
			p := codecPlan{Extra: s.Intn(5)}
			if s.Bool(15) {
				p.Extra = gen.Pick(s, 250, 254, s.Range(5, 300), s.Range(256, 600))
			}
			n := s.Range(4, 40)
			for i := 0; i < n; i++ {
				o := codecOp{K: s.Weighted(5, 2, 8, 4, 1), T: s.Intn(len(codecTypes)), Bad: s.Intn(8)}
				switch s.Weighted(2, 1, 1, 1) {
				case 0:
					o.Data = s.Bytes(s.Intn(12))
				case 1:
					o.Data = nil
				case 2:
					o.Data = s.Bytes(8)
				case 3:
					o.Data = s.Bytes(gen.Pick(s, 2, 3, 300, 5000))
				}
				o.Op = s.Intn(14)
				o.Near = s.Bool(30)
				p.Ops = append(p.Ops, o)
			}
			return p
		}, runC22)
}

func catch(f func()) (r any) {
	defer func() { r = recover() }()
	f()
	return nil
}

func runC22(c *C, p codecPlan) {
	n1, err := noise.NewNode()
	n2, err2 := noise.NewNode()
	if err != nil || err2 != nil {
		c.Fail("NewNode: %v %v", err, err2)
		return
	}
	op := map[int]uint16{}  // type -> number
	rev := map[uint16]int{} // number -> type
	next := uint16(0)
	for i := 0; i < p.Extra && i < len(extraTypes)+len(manyTypes); i++ {
		v, d := extraType(i)
		if g := n1.RegisterMessage(v, d); g != next {
			c.Fail("registration %d got number %d", next, g)
		}
		n2.RegisterMessage(v, d)
		rev[next] = -1
		next++
	}
	trips, regs := 0, 0
	var kept keptEnc
	if p.Extra > 200 {
		c.Label("hundreds of types")
	}
	defer func() {
		for i := 0; i < p.Extra && !c.Failed(); i++ { // all of these are still what they were
			v, _ := extraType(i)
			b, err := n1.EncodeMessage(v)
			if want := append([]byte{byte(i >> 8), byte(i)}, v.Marshal()...); err != nil || !bytes.Equal(b, want) {
				c.Fail("type number %d encodes to %x, %v", i, b, err)
				return
			}
			if got, err := n2.DecodeMessage(b); err != nil || reflect.TypeOf(got) != reflect.TypeOf(v) {
				c.Fail("type number %d, which is %T, decodes to %T, %v", i, v, got, err)
			}
		}
	}()
	for _, o := range p.Ops {
		t := codecTypes[o.T]
		num, have := op[o.T]
		switch o.K {
		case 0:
			var got, got2 uint16
			r := catch(func() { got = n1.RegisterMessage(t.proto, t.de) })
			r2 := catch(func() { got2 = n2.RegisterMessage(t.proto, t.de) })
			if have {
				if r == nil || r2 == nil {
					c.Fail("registering %s twice does not panic", t.name)
				}
				c.Label("duplicate registration")
				break
			}
			if r != nil || r2 != nil {
				c.Fail("registering %s panics: %v %v", t.name, r, r2)
				return
			}
			if got != next || got2 != next {
				c.Fail("registration %d of %s got numbers %d and %d", next, t.name, got, got2)
				return
			}
			op[o.T], rev[next] = next, o.T
			next++
			regs++
		case 1:
			bad := t.bad[o.Bad%len(t.bad)]
			if r := catch(func() { n1.RegisterMessage(t.proto, bad) }); r == nil {
				c.Fail("registering %s with decoder %T does not panic", t.name, bad)
				return
			}
			catch(func() { n2.RegisterMessage(t.proto, bad) })
			c.Label("unsuitable decoder")
		case 2, 4:
			v := t.mk(o.Data)
			c22trip(c, &kept, n1, n2, t, v, v, num, have)
			if t.ptr != nil {
				c22trip(c, &kept, n1, n2, t, t.ptr(v), v, num, have)
			}
			if have {
				trips++
				c.Label("round trip of %s", t.name)
			} else {
				c.Label("unregistered")
			}
		case 3:
			raw := append([]byte{0, byte(o.Op)}, o.Data...)
			if k := int(next) + o.Op - 11; o.Near && k >= 0 {
				raw[0], raw[1] = byte(k>>8), byte(k)
			}
			if o.Op == 13 {
				raw = o.Data
				if len(raw) > 1 {
					raw = raw[:1]
				}
			} else if o.Op == 12 {
				raw[0] = 0xff
			}
			keep := cp(raw)
			got, err := n1.DecodeMessage(raw)
			if !bytes.Equal(raw, keep) {
				c.Fail("decoding changed its input")
			}
			if len(raw) < 2 {
				if err == nil {
					c.Fail("decoding %d bytes succeeds", len(raw))
				}
				break
			}
			ti, known := rev[binary.BigEndian.Uint16(raw)]
			if !known {
				if err == nil {
					c.Fail("decoding unknown number %d succeeds with %v", binary.BigEndian.Uint16(raw), got)
				}
				break
			}
			if ti < 0 {
				break
			}
			want, wantErr := refDecode(ti, raw[2:])
			if (err != nil) != (wantErr != nil) || (wantErr != nil && err != wantErr) {
				c.Fail("decoding %s from %x gives error %v, its decoder gives %v", codecTypes[ti].name, raw[2:], err, wantErr)
			} else if err == nil && !reflect.DeepEqual(got, want) {
				c.Fail("decoding %s gives %#v, want %#v", codecTypes[ti].name, got, want)
			}
		}
		if c.Failed() {
			return
		}
	}
	for i := range kept.enc {
		if !bytes.Equal(kept.enc[i], kept.want[i]) {
			c.Fail("an encoding turned from %x into %x while more was encoded", head2(kept.want[i]), head2(kept.enc[i]))
			return
		}
	}
	if regs >= 2 && trips >= 1 {
		c.NonTrivial()
	}
}

func refDecode(ti int, b []byte) (noise.Serializable, error) {
	switch codecTypes[ti].name {
	case "tC":
		if len(b) != 8 {
			return nil, errDec
		}
	case "tF":
		if len(b) != 2 {
			return nil, errDec
		}
	case "*tH":
		if len(b) != 3 {
			return nil, errDec
		}
	}
	return codecTypes[ti].mk(b), nil
}

type keptEnc struct{ enc, want [][]byte }

func c22trip(c *C, kept *keptEnc, n1, n2 *noise.Node, t codecType, v, plain noise.Serializable, num uint16, have bool) {
	var enc []byte
	var err error
	if r := catch(func() { enc, err = n1.EncodeMessage(v) }); r != nil {
		c.Fail("encoding a %T panics: %v", v, r)
		return
	}
	if !have {
		if err == nil {
			c.Fail("encoding unregistered %T succeeds", v)
		}
		return
	}
	if err != nil {
		c.Fail("encoding registered %T (%s) fails: %v", v, t.name, err)
		return
	}
	want := append([]byte{byte(num >> 8), byte(num)}, plain.Marshal()...)
	if !bytes.Equal(enc, want) {
		c.Fail("%T with number %d encodes to %x, want %x", v, num, head2(enc), head2(want))
		return
	}
	kept.enc, kept.want = append(kept.enc, enc), append(kept.want, want)
	got, err := n2.DecodeMessage(enc)
	if err != nil {
		c.Fail("encoded %T does not decode: %v", v, err)
		return
	}
	if reflect.TypeOf(got) != reflect.TypeOf(t.proto) || !reflect.DeepEqual(got, plain) {
		c.Fail("%T decodes to %T %v, want %v", v, got, head3(got), head3(plain))
	}
}

func head2(b []byte) string { return head(fmt.Sprintf("%x", b), 200) }
func head3(v any) string    { return head(fmt.Sprintf("%v", v), 200) }
