package main

import (
	"bytes"
	"fmt"

	"github.com/wdamron/amt"
)

func init() {
	register(&Property{
		ID:  "C22",
		Gen: genC22, Run: runC22, Quick: 150000, Thorough: 6000000, Variants: plainVariant,
		Rule:   "histories on BytesMap, BytesSet and generic containers of Bytes in which slices that were handed to Set, Add or Mod are overwritten with the content of other keys of the same length, at any time, between insertions, deletions, Mod, lookups and iterations of all keys; keys whose binding the modified slices cannot have changed are compared with a reference model, an iteration visits Len entries, every operation ends; non-trivial: a slice of a present key was modified in a container with entries below the root, and at least five insertions and one deletion followed",
		Assume: []string{"keys which equal the earlier or present content of a modified slice are not looked at until they are set again"},
	})
}

// bytesBox is a container of byte slices; sets have no values.
type bytesBox struct {
	set func(b []byte, v int)
	mod func(b []byte, f func(p *int, ok bool))
	get func(b []byte) (int, bool)
	ptr func(b []byte) *int
	del func(b []byte)
	all func(f func(b []byte, p *int) bool)
	len func() uint
	dep func() float64
}

func newBytesBox(kind string) *bytesBox {
	switch kind {
	case "BytesMap":
		m := amt.NewBytesMap[int]()
		return &bytesBox{m.Set, m.Mod, m.Get, m.Ptr, m.Del, m.All, m.Len, m.Dep}
	case "MapBytes":
		m := amt.NewMap[amt.Bytes, int]()
		return &bytesBox{
			func(b []byte, v int) { m.Set(b, v) }, func(b []byte, f func(*int, bool)) { m.Mod(b, f) },
			func(b []byte) (int, bool) { return m.Get(b) }, func(b []byte) *int { return m.Ptr(b) }, func(b []byte) { m.Del(b) },
			func(f func([]byte, *int) bool) { m.All(func(k amt.Bytes, p *int) bool { return f(k, p) }) }, m.Len, m.Dep}
	case "BytesSet":
		s := amt.NewBytesSet()
		return &bytesBox{
			func(b []byte, _ int) { s.Add(b) }, nil, func(b []byte) (int, bool) { return 0, s.Has(b) }, nil, s.Del,
			func(f func([]byte, *int) bool) { s.All(func(k []byte) bool { return f(k, nil) }) }, s.Len, s.Dep}
	case "SetBytes":
		s := amt.NewSet[amt.Bytes]()
		return &bytesBox{
			func(b []byte, _ int) { s.Add(b) }, nil, func(b []byte) (int, bool) { return 0, s.Has(b) }, nil, func(b []byte) { s.Del(b) },
			func(f func([]byte, *int) bool) { s.All(func(k amt.Bytes) bool { return f(k, nil) }) }, s.Len, s.Dep}
	}
	invalidf("kind")
	return nil
}

func genC22(r R, tier string, i int) *Case {
	c := &Case{Prop: "C22", Kind: pick(r, "BytesMap", "BytesMap", "BytesSet", "MapBytes", "SetBytes"), Hash: genHash(r)}
	nk, n := genSize(r)
	c.Keys = genKeys(r, c.Kind, nk)
	if r.Chance(0.8) { // of equal length, so that each may be overwritten with any other
		L := pick(r, 2, 3, 5, 8, 16, 33)
		for j := range c.Keys {
			s := c.Keys[j].S
			for len(s) < L {
				s = append(s, byte(j>>(uint(len(s)&1)*8)))
			}
			c.Keys[j].S = s[len(s)-L:]
		}
	}
	for j := range c.Keys {
		if n := len(c.Keys[j].S); n > 600 {
			c.Keys[j].S = c.Keys[j].S[n-600:]
		}
	}
	stageHash(r, c, 0.15)
	first := r.Range(1, nk)
	for j := 0; j < first; j++ {
		c.Ops = append(c.Ops, Op{O: "set", K: j, V: r.Range(1, 999)})
	}
	p := r.Range(5, 40)
	for j := 0; j < n; j++ {
		o := Op{K: r.IntN(nk), V: r.Range(1, 999), A: r.IntN(4)}
		switch x := r.IntN(100); {
		case x < p:
			o.O, o.N = "taint", r.IntN(1<<16)
		case x < p+25:
			o.O = "set"
		case x < p+35:
			o.O = "mod"
		case x < p+37:
			o.O = "all"
		case x < 90:
			o.O = "del"
		default:
			o.O = "get"
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func runC22(c *Case, st *Stats) {
	st.inc("kind:" + c.Kind)
	x := newBytesBox(c.Kind)
	isMap := x.mod != nil
	if len(c.Keys) == 0 {
		invalidf("keys")
	}
	for _, k := range c.Keys {
		if len(k.S) > 5000 {
			invalidf("key length")
		}
	}
	type state struct {
		bound, unknown bool
		v              int
	}
	model := map[string]state{}
	type slice struct {
		b       []byte
		changed bool
	}
	var slices []*slice // all that may be retained
	taints, after, dels := 0, 0, 0
	pass := func(k []byte) []byte {
		s := &slice{b: freshBytes(k)}
		if len(k) > 0 {
			slices = append(slices, s)
		}
		return s.b
	}
	loose := func(k string) bool {
		for _, s := range slices {
			if s.changed && string(s.b) == k {
				return true
			}
		}
		return false
	}
	check := func(k []byte) {
		m := model[string(k)]
		begin()
		v, ok := x.get(k)
		if m.unknown {
			return
		}
		if ok != m.bound || v != m.v {
			failf("%s: after the modification of other key slices, lookup of key %q gives (%d,%v), want (%d,%v)", c.Kind, k, v, ok, m.v, m.bound)
		}
		if x.ptr != nil {
			begin()
			if p := x.ptr(k); (p != nil) != m.bound || p != nil && *p != m.v {
				failf("%s: after the modification of other key slices, Ptr of key %q is wrong", c.Kind, k)
			}
		}
	}
	all := func() {
		n := uint(0)
		seen := map[string]bool{}
		begin()
		x.all(func(b []byte, p *int) bool {
			n++
			m := model[string(b)]
			if !m.unknown && !m.bound && !loose(string(b)) {
				failf("%s: an iteration visits key %q, which is not present", c.Kind, b)
			}
			if p == nil || *p == m.v {
				seen[string(b)] = true
			}
			return true
		})
		if n != x.len() {
			failf("%s: Len is %d, an iteration visits %d entries", c.Kind, x.len(), n)
		}
		for k, m := range model {
			if m.bound && !seen[k] {
				failf("%s: an iteration does not visit key %q with its value", c.Kind, k)
			}
		}
		if d := x.dep(); n == 0 && d != 0 || d < 0 || d > 256 {
			failf("%s: Dep is %v with %d entries", c.Kind, d, n)
		}
	}
	for i, op := range c.Ops {
		k := c.Keys[op.K%len(c.Keys)].S
		switch op.O {
		case "set":
			v := op.V
			if !isMap {
				v = 0
			}
			b := pass(k)
			begin()
			x.set(b, v)
			model[string(k)] = state{bound: true, v: v}
			after++
		case "mod":
			if !isMap {
				continue
			}
			b := pass(k)
			m := model[string(k)]
			calls := 0
			begin()
			x.mod(b, func(p *int, ok bool) {
				if calls++; calls > 1 || p == nil {
					failf("%s: Mod calls its callback twice, or with nil", c.Kind)
				}
				if !m.unknown && (ok != m.bound || *p != m.v) {
					failf("%s: Mod of key %q passes (%d,%v), want (%d,%v)", c.Kind, k, *p, ok, m.v, m.bound)
				}
				*p = op.V
			})
			if calls != 1 {
				failf("%s: Mod calls its callback %d times", c.Kind, calls)
			}
			model[string(k)] = state{bound: true, v: op.V}
			after++
		case "del":
			b := freshBytes(k)
			begin()
			x.del(b)
			model[string(k)] = state{unknown: loose(string(k))}
			if taints > 0 {
				dels++
			}
		case "taint":
			if len(slices) == 0 {
				continue
			}
			s := slices[op.N%len(slices)]
			if op.A == 0 { // the latest slice with that content
				for j := len(slices) - 1; j >= 0; j-- {
					if bytes.Equal(slices[j].b, k) {
						s = slices[j]
						break
					}
				}
			}
			to := c.Keys[op.V%len(c.Keys)].S
			if len(to) != len(s.b) || bytes.Equal(to, s.b) {
				continue
			}
			old := string(s.b)
			if model[old].bound && x.dep() > 0 {
				taints++
				after, dels = 0, 0
				st.inc("modified slice of a present key")
			}
			copy(s.b, to)
			s.changed = true
			model[old] = state{unknown: true}
			if !model[string(to)].bound {
				model[string(to)] = state{unknown: true}
			} else {
				st.inc("modified to equal a present key")
			}
		case "get":
			check(k)
		case "all":
			all()
		}
		if len(c.Keys) <= 24 || i%8 == 0 {
			for j := range c.Keys {
				check(c.Keys[j].S)
			}
		}
		if i%4 == 0 {
			all()
		}
	}
	for j := range c.Keys {
		check(c.Keys[j].S)
	}
	all()
	// every key can be set again, and then deleted
	for j := range c.Keys {
		b := pass(c.Keys[j].S)
		begin()
		x.set(b, 0)
		model[string(b)] = state{bound: true}
	}
	for j := range c.Keys {
		check(c.Keys[j].S)
	}
	all()
	st.inc(fmt.Sprint("taints>=4: ", taints >= 4))
	st.Nontrivial = taints > 0 && after >= 5 && dels > 0
}
