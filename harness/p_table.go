package main

import (
	"bytes"
	"errors"
	"net"
	"sort"
	"sync"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/kademlia"

	"verifharness/gen"
)

// tkey is a key that shares exactly Prefix leading bits with the owner (256: the owner itself, 257: the zero key).
type tkey struct {
	Prefix int
	Seed   int
	Addr   int
}

func (k tkey) key(owner []byte) (out noise.PublicKey) {
	switch k.Prefix {
	case 256:
		copy(out[:], owner)
		return
	case 257:
		return
	}
	copy(out[:], gen.Expand(uint64(k.Seed)+13, 32))
	for i := 0; i <= k.Prefix; i++ {
		m := byte(0x80) >> (i % 8)
		out[i/8] &^= m
		out[i/8] |= owner[i/8] & m
		if i == k.Prefix {
			out[i/8] ^= m
		}
	}
	return
}

func (k tkey) id(owner []byte) noise.ID {
	return noise.NewID(k.key(owner), net.IPv4(10, 0, 0, byte(k.Addr)).To4(), uint16(1000+k.Addr))
}

func prefixLen(a, b []byte) int {
	for i := range a {
		for j := 0; j < 8; j++ {
			if (a[i]^b[i])>>(7-j)&1 != 0 {
				return i*8 + j
			}
		}
	}
	return len(a) * 8
}

func genOwner(s *gen.S) []byte {
	for {
		b := genKey(s)
		for _, x := range b {
			if x != 0 {
				return b
			}
		}
		return append(make([]byte, 31), 1)
	}
}

// genPool draws keys, crowded around few prefix lengths so that buckets fill up.
func genPool(s *gen.S, most int) []tkey {
	var pool []tkey
	var ps []int
	for k := gen.Pick(s, 1, 1, 2, s.Range(1, 5)); k > 0; k-- {
		ps = append(ps, gen.Pick(s, s.Intn(256), s.Intn(10), 0, 7, 8, 250+s.Intn(6)))
	}
	for k := gen.Pick(s, most, s.Range(1, most)); k > 0; k-- {
		p := gen.Pick(s, ps...)
		switch s.Weighted(30, 4, 1) {
		case 1:
			p = s.Intn(256)
		case 2:
			p = 256
		}
		pool = append(pool, tkey{p, s.Seed(), s.Intn(12)})
	}
	return pool
}

const (
	tUpdate = iota
	tDelete
	tDeleteAddr
	tRecorded
	tBucket
	tLast
	tEntries
	tNum
	tPeers
	tClosest
	tSelf
	tKinds
)

type tOp struct {
	Kind int
	Key  int
	Addr int // 0: that of the key
	K    int
}

type c24Plan struct {
	Owner []byte
	Pool  []tkey
	Ops   []tOp
	Par   [][]tOp // afterwards, concurrently
}

func genTOp(s *gen.S, pool int) tOp {
	o := tOp{Kind: s.Weighted(40, 6, 4, 4, 3, 3, 2, 2, 2, 3, 1), Key: s.Intn(pool), K: gen.Pick(s, 16, s.Intn(40))}
	if s.Bool(25) {
		o.Addr = 1 + s.Intn(12)
	}
	return o
}

func init() {
	register(&Prop{ID: "C24", Quick: 12000, Thorough: 600000, Rule: "A table with a generated owner and up to 60 keys that crowd around one to five prefix lengths (including 0, 7, 8 and 250 to 255), the owner and the zero key, with colliding addresses; up to 200 operations of all kinds, each compared with a model of recency-ordered buckets, the whole state compared at generated moments; then concurrent operations with invariants. Non-trivial: a refusal for a full bucket, a deletion that found something, and a bump of a known entry."},
		func(s *gen.S) c24Plan {
			p := c24Plan{Owner: genOwner(s), Pool: genPool(s, gen.Pick(s, 6, 24, 40, 60))}
			if s.Bool(20) {
				p.Pool = append(p.Pool, tkey{257, 0, 3})
			}
			for k := gen.Pick(s, s.Range(1, 20), s.Range(1, 200*s.Size), 150); k > 0; k-- {
				p.Ops = append(p.Ops, genTOp(s, len(p.Pool)))
			}
			if s.Bool(30) {
				for g := s.Range(2, 6); g > 0; g-- {
					var ops []tOp
					for k := s.Range(1, 40); k > 0; k-- {
						ops = append(ops, genTOp(s, len(p.Pool)))
					}
					p.Par = append(p.Par, ops)
				}
			}
			return p
		}, runC24)

	register(&Prop{ID: "C25", Quick: 12000, Thorough: 600000, Rule: "A table filled like in C24 by up to 120 updates and deletions, asked for targets that are the owner, entries, keys near them or at any prefix length, and k from 0 to 300; each answer is compared with sorting all entries, and the table with itself before. Non-trivial: more entries than k, over at least two buckets."},
		func(s *gen.S) c25Plan {
			p := c25Plan{Owner: genOwner(s), Pool: genPool(s, gen.Pick(s, 10, 60, 120))}
			for i := range p.Pool {
				p.Dels = append(p.Dels, s.Bool(7) && i > 0)
			}
			for k := s.Range(1, 8); k > 0; k-- {
				q := c25Query{Kind: s.Intn(5), Key: s.Intn(len(p.Pool)), Seed: s.Seed(), Prefix: gen.Pick(s, s.Intn(256), s.Intn(12)), K: gen.Pick(s, s.Intn(20), 16, s.Intn(300), 1, 0)}
				p.Q = append(p.Q, q)
			}
			return p
		}, runC25)
}

type c25Query struct {
	Kind   int
	Key    int
	Seed   int
	Prefix int
	K      int
}

type c25Plan struct {
	Owner []byte
	Pool  []tkey
	Dels  []bool
	Q     []c25Query
}

type tmodel struct {
	owner   []byte
	buckets map[int][]noise.ID
}

func (m *tmodel) idx(k noise.PublicKey) int { return min(255, prefixLen(m.owner, k[:])) }

func (m *tmodel) find(k noise.PublicKey) (int, int) {
	b := m.idx(k)
	for i, x := range m.buckets[b] {
		if x.ID == k {
			return b, i
		}
	}
	return b, -1
}

func (m *tmodel) all() (out []noise.ID) {
	for _, b := range m.buckets {
		out = append(out, b...)
	}
	return
}

func (m *tmodel) remove(b, i int) {
	l := append([]noise.ID{}, m.buckets[b][:i]...)
	m.buckets[b] = append(l, m.buckets[b][i+1:]...)
}

func nearest(all []noise.ID, target noise.PublicKey, k int) []noise.ID {
	var out []noise.ID
	for _, x := range all {
		if x.ID != target {
			out = append(out, x)
		}
	}
	dist := func(x noise.ID) []byte {
		d := make([]byte, 32)
		for i := range d {
			d[i] = x.ID[i] ^ target[i]
		}
		return d
	}
	sort.Slice(out, func(i, j int) bool { return bytes.Compare(dist(out[i]), dist(out[j])) < 0 })
	if len(out) > k {
		out = out[:k]
	}
	return out
}

// sameIDs compares lists of identities in order.
func sameIDs(a, b []noise.ID) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameID(a[i], b[i]) {
			return false
		}
	}
	return true
}

// sameSet compares lists of identities regardless of their order.
func sameSet(a, b []noise.ID) bool {
	if len(a) != len(b) {
		return false
	}
	m := map[noise.PublicKey]noise.ID{}
	for _, x := range a {
		m[x.ID] = x
	}
	if len(m) != len(a) {
		return false
	}
	for _, x := range b {
		if y, ok := m[x.ID]; !ok || !sameID(x, y) {
			return false
		}
		delete(m, x.ID)
	}
	return true
}

func scribble(ids []noise.ID) {
	for i := range ids {
		ids[i] = noise.ID{Address: "scribbled"}
	}
}

func runC24(c *C, p c24Plan) {
	self := tkey{256, 0, 0}.id(p.Owner)
	t := kademlia.NewTable(self)
	m := &tmodel{owner: p.Owner, buckets: map[int][]noise.ID{255: {self}}}
	full, del, bump := false, false, false
	whole := func(i int) {
		if n := t.NumEntries(); n != len(m.all()) {
			c.Fail("operation %d: the table counts %d entries, but has %d", i, n, len(m.all()))
		}
		if e := t.Entries(); !sameSet(e, m.all()) {
			c.Fail("operation %d: the listing does not have the entries of the table (%d and %d)", i, len(e), len(m.all()))
		} else {
			scribble(e)
		}
		for _, k := range p.Pool {
			key := k.key(p.Owner)
			b, at := m.find(key)
			if t.Recorded(key) != (at >= 0) {
				c.Fail("operation %d: Recorded is %v for a key that was%s added", i, at < 0, map[bool]string{true: "", false: " not"}[at >= 0])
			}
			l := t.Bucket(key)
			if !sameIDs(l, m.buckets[b]) {
				c.Fail("operation %d: bucket %d has %d entries in some order, not the %d expected", i, b, len(l), len(m.buckets[b]))
			}
			scribble(l)
			if !sameID(t.Last(key), lastOf(m.buckets[b])) {
				c.Fail("operation %d: the tail of bucket %d is wrong", i, b)
			}
		}
	}
	whole(-1)
	for i, o := range p.Ops {
		if c.Failed() {
			return
		}
		k := p.Pool[o.Key]
		id := k.id(p.Owner)
		if o.Addr > 0 {
			k.Addr = o.Addr
			id = k.id(p.Owner)
		}
		b, at := m.find(id.ID)
		switch o.Kind {
		case tUpdate:
			ins, err := t.Update(id)
			switch {
			case id.ID == noise.ZeroPublicKey:
				if ins || err != nil {
					c.Fail("operation %d: Update of the zero key returned %v, %v", i, ins, err)
				}
			case at >= 0:
				bump = true
				if ins || err != nil {
					c.Fail("operation %d: Update of a known key returned %v, %v", i, ins, err)
				}
				// Whether its address follows is not part of the property.
				x := m.buckets[b][at]
				if l := t.Bucket(id.ID); len(l) > 0 && sameID(l[0], id) {
					x = id
				}
				m.remove(b, at)
				m.buckets[b] = append([]noise.ID{x}, m.buckets[b]...)
			case len(m.buckets[b]) < 16:
				if !ins || err != nil {
					c.Fail("operation %d: Update of a new key in a bucket of %d returned %v, %v", i, len(m.buckets[b]), ins, err)
				}
				m.buckets[b] = append([]noise.ID{id}, m.buckets[b]...)
			default:
				full = true
				if ins || !errors.Is(err, kademlia.ErrBucketFull) {
					c.Fail("operation %d: Update of a new key in a full bucket returned %v, %v", i, ins, err)
				}
			}
		case tDelete:
			x, ok := t.Delete(id.ID)
			if ok != (at >= 0) {
				c.Fail("operation %d: Delete returned %v", i, ok)
			} else if ok {
				del = true
				if !sameID(x, m.buckets[b][at]) {
					c.Fail("operation %d: Delete returned another entry", i)
				}
				m.remove(b, at)
			} else if x.ID != noise.ZeroPublicKey || x.Address != "" {
				c.Fail("operation %d: Delete found nothing, but returned an entry", i)
			}
		case tDeleteAddr:
			has := false
			for _, x := range m.all() {
				has = has || x.Address == id.Address
			}
			x, ok := t.DeleteByAddress(id.Address)
			if ok != has {
				c.Fail("operation %d: DeleteByAddress returned %v", i, ok)
			} else if ok {
				del = true
				bb, aa := m.find(x.ID)
				if aa < 0 || x.Address != id.Address || !sameID(m.buckets[bb][aa], x) {
					c.Fail("operation %d: DeleteByAddress returned an entry that does not match", i)
				} else {
					m.remove(bb, aa)
				}
			} else if x.ID != noise.ZeroPublicKey || x.Address != "" {
				c.Fail("operation %d: DeleteByAddress found nothing, but returned an entry", i)
			}
		case tRecorded:
			if t.Recorded(id.ID) != (at >= 0) {
				c.Fail("operation %d: Recorded is wrong", i)
			}
		case tBucket:
			if l := t.Bucket(id.ID); !sameIDs(l, m.buckets[b]) {
				c.Fail("operation %d: bucket %d is wrong", i, b)
			} else {
				scribble(l)
			}
		case tLast:
			if !sameID(t.Last(id.ID), lastOf(m.buckets[b])) {
				c.Fail("operation %d: the tail of bucket %d is wrong", i, b)
			}
		case tEntries:
			whole(i)
		case tNum:
			if n := t.NumEntries(); n != len(m.all()) {
				c.Fail("operation %d: the table counts %d entries, but has %d", i, n, len(m.all()))
			}
		case tPeers:
			if l := t.Peers(); !sameIDs(l, nearest(m.all(), self.ID, 16)) {
				c.Fail("operation %d: the list of peers is wrong", i)
			} else {
				scribble(l)
			}
		case tClosest:
			if l := t.FindClosest(id.ID, o.K); !sameIDs(l, nearest(m.all(), id.ID, o.K)) {
				c.Fail("operation %d: the closest peers are wrong", i)
			} else {
				scribble(l)
			}
		case tSelf:
			if !sameID(t.Self(), self) {
				c.Fail("operation %d: the owner changed", i)
			}
		}
	}
	whole(len(p.Ops))
	if full && del && bump {
		c.NonTrivial()
	}
	if c.Failed() || len(p.Par) == 0 {
		return
	}
	// Concurrent operations: invariants only.
	c.Label("concurrent")
	var mu sync.Mutex
	balance := map[noise.PublicKey]int{}
	for _, x := range m.all() {
		balance[x.ID] = 1
	}
	add := func(k noise.PublicKey, n int) {
		mu.Lock()
		balance[k] += n
		mu.Unlock()
	}
	check := func(l []noise.ID, n int) {
		seen := map[noise.PublicKey]bool{}
		for _, x := range l {
			if seen[x.ID] || x.ID == noise.ZeroPublicKey {
				c.Fail("concurrently: a list has a key twice or the zero key")
			}
			seen[x.ID] = true
		}
		if n >= 0 && len(l) > n {
			c.Fail("concurrently: a list of %d entries instead of at most %d", len(l), n)
		}
	}
	var fs []func()
	for _, ops := range p.Par {
		fs = append(fs, func() {
			for _, o := range ops {
				k := p.Pool[o.Key]
				if o.Addr > 0 {
					k.Addr = o.Addr
				}
				id := k.id(p.Owner)
				switch o.Kind {
				case tUpdate:
					ins, err := t.Update(id)
					if ins && err == nil {
						add(id.ID, 1)
					} else if err != nil && !errors.Is(err, kademlia.ErrBucketFull) {
						c.Fail("concurrently: Update failed: %v", err)
					}
				case tDelete:
					if x, ok := t.Delete(id.ID); ok {
						add(x.ID, -1)
						if x.ID != id.ID {
							c.Fail("concurrently: Delete returned another entry")
						}
					}
				case tDeleteAddr:
					if x, ok := t.DeleteByAddress(id.Address); ok {
						add(x.ID, -1)
						if x.Address != id.Address {
							c.Fail("concurrently: DeleteByAddress returned another entry")
						}
					}
				case tBucket:
					check(t.Bucket(id.ID), 16)
				case tEntries:
					check(t.Entries(), -1)
				case tPeers:
					check(t.Peers(), 16)
				case tClosest:
					l := t.FindClosest(id.ID, o.K)
					check(l, o.K)
					if !sameIDs(l, nearest(l, id.ID, o.K)) {
						c.Fail("concurrently: the closest peers are in a wrong order")
					}
				case tRecorded:
					t.Recorded(id.ID)
				case tNum:
					t.NumEntries()
				}
			}
		})
	}
	All(fs...)
	n := 0
	for k, b := range balance {
		if b != 0 && b != 1 {
			c.Fail("concurrently: a key was added %d times more than deleted", b)
		}
		n += b
		if t.Recorded(k) != (b == 1) {
			c.Fail("concurrently: additions and deletions do not explain whether a key is in the table")
		}
	}
	if l := t.Entries(); len(l) != n || t.NumEntries() != n {
		c.Fail("concurrently: %d entries are counted, %d listed and %d expected", t.NumEntries(), len(l), n)
	}
	for _, k := range p.Pool {
		check(t.Bucket(k.key(p.Owner)), 16)
	}
}

func runC25(c *C, p c25Plan) {
	self := tkey{256, 0, 0}.id(p.Owner)
	t := kademlia.NewTable(self)
	for i, k := range p.Pool {
		t.Update(k.id(p.Owner))
		if p.Dels[i] {
			t.Delete(p.Pool[i-1].key(p.Owner))
		}
	}
	state := func() [][]noise.ID {
		var out [][]noise.ID
		for _, k := range p.Pool {
			out = append(out, t.Bucket(k.key(p.Owner)))
		}
		return append(out, t.Bucket(self.ID))
	}
	before, all := state(), t.Entries()
	buckets := map[int]bool{}
	for _, x := range all {
		buckets[prefixLen(p.Owner, x.ID[:])] = true
	}
	for i, q := range p.Q {
		var target noise.PublicKey
		switch q.Kind {
		case 0:
			target = self.ID
		case 1:
			target = p.Pool[q.Key].key(p.Owner)
		case 2: // near an entry
			k := p.Pool[q.Key].key(p.Owner)
			target = tkey{q.Prefix, q.Seed, 0}.key(k[:])
		case 3:
			target = tkey{q.Prefix, q.Seed, 0}.key(p.Owner)
		default:
			copy(target[:], gen.Expand(uint64(q.Seed), 32))
		}
		want := nearest(all, target, q.K)
		got := t.FindClosest(target, q.K)
		if !sameIDs(got, want) {
			c.Fail("query %d for %d of %d entries closest to a key returned %d entries, not the %d closest in order", i, q.K, len(all), len(got), len(want))
			return
		}
		scribble(got)
		if len(all) > q.K && len(buckets) > 1 && q.K > 0 {
			c.NonTrivial()
		}
		if l := t.Peers(); !sameIDs(l, nearest(all, self.ID, 16)) {
			c.Fail("the list of peers is not that of the closest entries")
		} else {
			scribble(l)
		}
	}
	after := state()
	for i := range before {
		if !sameIDs(before[i], after[i]) {
			c.Fail("a query changed the table")
		}
	}
}

// lastOf returns the last of ids, or the zero ID if there is none.
func lastOf(ids []noise.ID) noise.ID {
	if len(ids) == 0 {
		return noise.ID{}
	}
	return ids[len(ids)-1]
}
