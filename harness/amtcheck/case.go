package main

import (
	"encoding/json"
	"fmt"
	"hash/maphash"
	"math/rand/v2"
	"runtime/debug"
	"strings"
)

// KeySpec describes one key of a case's pool; each key family reads the part it needs.
type KeySpec struct {
	I int64    `json:"i,omitempty"`
	S []byte   `json:"s,omitempty"`
	D []uint64 `json:"d,omitempty"` // hashes by iteration, for digit keys
}

// Op is one operation of a history.
type Op struct {
	O string `json:"o"`
	K int    `json:"k,omitempty"`
	A int    `json:"a,omitempty"`
	V int    `json:"v,omitempty"`
	N int    `json:"n,omitempty"`
	H int    `json:"h,omitempty"`
}

// HashCfg is the hash regime of the controlled hash/maphash.
type HashCfg struct {
	Mode int    `json:"mode"`
	P    uint64 `json:"p,omitempty"`
	Q    uint64 `json:"q,omitempty"`
	Salt uint64 `json:"salt,omitempty"`
	Seed uint64 `json:"seed,omitempty"`
}

// Case is a complete generated test case: running it is a pure function of the case and the code under test.
type Case struct {
	Prop  string           `json:"prop"`
	Kind  string           `json:"kind,omitempty"`
	Val   string           `json:"val,omitempty"`
	Kinds []string         `json:"kinds,omitempty"`
	Vals  []string         `json:"vals,omitempty"`
	Pools [][]KeySpec      `json:"pools,omitempty"`
	Hash  HashCfg          `json:"hash"`
	Keys  []KeySpec        `json:"keys,omitempty"`
	Ops   []Op             `json:"ops,omitempty"`
	N     map[string]int64 `json:"n,omitempty"`
}

func (c *Case) clone() *Case {
	b, _ := json.Marshal(c)
	var d Case
	json.Unmarshal(b, &d)
	return &d
}

func (c *Case) num(k string) int { return int(c.N[k]) }

// Stats collects what a case exercised.
type Stats struct {
	Class      map[string]int64
	Nontrivial bool
}

func (s *Stats) inc(k string)            { s.Class[k]++ }
func (s *Stats) add(k string, n int)     { s.Class[k] += int64(n) }
func (s *Stats) max(k string, n float64) { s.Class["max:"+k] = max(s.Class["max:"+k], int64(n)) }

// Failure is a violation of the property by the code under test.
type Failure struct{ Msg string }

func (f *Failure) Error() string { return f.Msg }

// Invalid marks a case outside the property's domain (only produced by shrinking).
type Invalid struct{ Msg string }

func (f *Invalid) Error() string { return f.Msg }

func failf(format string, a ...any) { panic(&Failure{fmt.Sprintf(format, a...)}) }
func invalidf(format string, a ...any) {
	panic(&Invalid{fmt.Sprintf(format, a...)})
}

// R is the generator's source of choices, a pure function of seed, property and case number.
type R struct{ *rand.Rand }

func newR(seed int64, prop string, i int) R {
	h := uint64(14695981039346656037)
	for _, b := range []byte(prop) {
		h = (h ^ uint64(b)) * 1099511628211
	}
	return R{rand.New(rand.NewPCG(maphash.VerifMix(uint64(seed)+0x1234567)^h, maphash.VerifMix(uint64(i)^0xabcdef)))}
}

func (r R) Chance(p float64) bool { return r.Float64() < p }
func (r R) Range(lo, hi int) int  { return lo + r.IntN(hi-lo+1) }
func pick[T any](r R, xs ...T) T  { return xs[r.IntN(len(xs))] }
func pickW(r R, w []int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	n := r.IntN(t)
	for i, x := range w {
		if n -= x; n < 0 {
			return i
		}
	}
	return 0
}

// Property couples a generator with its executable check.
type Property struct {
	ID       string
	Gen      func(r R, tier string, i int) *Case
	Run      func(c *Case, st *Stats)
	Quick    int // cases per variant
	Thorough int
	Rule     string
	Variants []Variant
	Level    string
	Assume   []string
}

// Variant is one build of the harness a property runs under.
type Variant struct {
	Build string // plain, race, asan
	Env   []string
	Scale float64 // fraction of the case count
	Proc  int     // GOMAXPROCS of a worker
}

var registry = map[string]*Property{}

func register(p *Property) { registry[p.ID] = p }

// setHash applies the hash regime of a case.
func setHash(h HashCfg, counting bool) {
	maphash.VerifEnabled = true
	maphash.VerifCounting = counting
	maphash.VerifMode = h.Mode
	maphash.VerifP = h.P
	maphash.VerifQ = h.Q
	maphash.VerifSalt = h.Salt
	maphash.VerifSeed = h.Seed
	maphash.VerifCalls = 0
	maphash.VerifBudget = 0
	if h.Mode == 1 && h.P < 8 || (h.Mode == 2 || h.Mode == 4 || h.Mode == 5) && (h.P < 1 || h.P > 15) || h.Mode > 6 || h.Mode == 3 && h.P&15 == 0 {
		invalidf("hash regime")
	}
}

// minHashed is the least number of bytes, of a non-empty key, that are hashed in a round.
func minHashed(kind string, keys []KeySpec) int {
	switch keyFamily(kind) {
	case "int":
		return 8
	case "arr8", "arr64", "arrs":
		return 64
	case "digit":
		return 0
	}
	n := 1 << 20
	for i := range keys {
		if l := len(keys[i].S); l > 0 {
			n = min(n, l)
		}
	}
	return n
}

// stagedOK reports whether a staged regime leaves enough rounds to tell keys apart: at
// least 12 free digits in the first 15 hashes. The first (P-1)/least hashes collide, all
// further ones share Q digits.
func stagedOK(h HashCfg, least int) bool {
	if least == 1<<20 || least < 1 || h.P < 1 || h.P > 4000 || h.Q > 15 {
		return false
	}
	return (15-(int(h.P)-1)/least)*(16-int(h.Q)) >= 12
}

// runCase runs one case and returns nil, *Failure or *Invalid.
func runCase(p *Property, c *Case, st *Stats) (err error) {
	defer func() {
		if e := recover(); e != nil {
			switch e := e.(type) {
			case *Failure:
				err = e
			case *Invalid:
				err = e
			default:
				err = &Failure{"panic: " + fmt.Sprint(e) + "\n" + trimStack(string(debug.Stack()))}
			}
		}
	}()
	budgetsOn = true
	digitBudget, opBudgetMore = 0, 0
	monitor = nil
	faults, userHook = nil, nil
	recordReps = false
	setHash(c.Hash, true)
	if h := c.Hash; h.Mode == 6 && (len(c.Pools) > 0 || !stagedOK(h, minHashed(c.Kind, c.Keys))) {
		invalidf("hash regime")
	}
	p.Run(c, st)
	return nil
}

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "/amt.") || strings.Contains(l, "repo/") || strings.Contains(l, ".go:") && !strings.Contains(l, "/runtime/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 14 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// generate makes a case and keeps the work of one with huge keys within bounds.
func (p *Property) generate(r R, tier string, i int) *Case {
	c := p.Gen(r, tier, i)
	n := 0
	for _, pool := range append([][]KeySpec{c.Keys}, c.Pools...) {
		for j := range pool {
			n += len(pool[j].S)
		}
	}
	if c.Kind == "laws" {
		for j := range c.Ops {
			if c.Ops[j].O == "iter" {
				c.Ops[j].N = min(c.Ops[j].N, 400000000/max(n, 1))
			}
		}
		return c
	}
	if n < 400000 {
		return c
	}
	c.Hash = HashCfg{Seed: c.Hash.Seed} // few collisions
	if len(c.Ops) > 40 {
		c.Ops = c.Ops[:40]
	}
	return c
}
