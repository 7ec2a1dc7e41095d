package main

import (
	"bytes"
	"fmt"
	"hash/maphash"
	"strings"
	"unsafe"

	"github.com/wdamron/amt"
)

// kcodec builds keys of a type from key specs.
type kcodec[K any] struct {
	mk       func(s *KeySpec, alt int) K // a freshly allocated key; alt selects among equal representations
	canon    func(k K) string            // equal exactly for keys which are equal
	intact   func(k K)                   // checks the memory around a key after an operation
	scribble func(k K)                   // destroys a key buffer the container must not have retained
	rep      func(k K) uintptr           // which of several equal keys k is, where users can tell
}

// pool is the key pool of a case; keys with the same canonical form are one class,
// represented by the first spec of the class.
type pool[K any] struct {
	kc    *kcodec[K]
	specs []KeySpec
	class []int
	byCan map[string]int
	reps  bool // record lastRep
}

func newPool[K any](kc *kcodec[K], specs []KeySpec) *pool[K] {
	p := &pool[K]{kc: kc, specs: specs, byCan: make(map[string]int, len(specs)), reps: recordReps}
	p.class = make([]int, len(specs))
	defer func(t *gcTracker) { tracker = t }(tracker)
	tracker = nil // the pool's own keys are not watched
	for i := range specs {
		if n := int64(len(specs[i].S)); n > 5000 && budgetsOn { // up to 2*16*17/2 writes of 128-byte blocks
			opBudgetMore = max(opBudgetMore, n*3)
		}
		c := kc.canon(kc.mk(&specs[i], 0))
		if j, ok := p.byCan[c]; ok {
			p.class[i] = j
		} else {
			p.byCan[c] = i
			p.class[i] = i
		}
	}
	return p
}

func (p *pool[K]) key(i, alt int) K {
	if tracker != nil {
		tracker.cur = p.class[i]
	}
	return p.kc.mk(&p.specs[p.class[i]], alt)
}

// lastRep identifies the key last seen by an iteration among its equal keys.
var lastRep uintptr

// recordReps turns the recording on for pools created from now on.
var recordReps bool

func (p *pool[K]) id(k K) int {
	if p.kc.rep != nil && p.reps {
		lastRep = p.kc.rep(k)
	}
	if i, ok := p.byCan[p.kc.canon(k)]; ok {
		return i
	}
	return -1
}

// --- key types ---

type A8 [8]byte

func (a A8) KeyBytes() (b [64]byte) { copy(b[:], a[:]); return }

type A64 [64]byte

func (a A64) KeyBytes() [64]byte { return a }

// AStruct is a comparable key which owns heap memory.
type AStruct struct {
	A int32
	B string // at most 50 bytes
}

func (a AStruct) KeyBytes() (b [64]byte) {
	b[0], b[1], b[2], b[3], b[4] = byte(a.A), byte(a.A>>8), byte(a.A>>16), byte(a.A>>24), byte(len(a.B))
	copy(b[5:], a.B)
	return
}

// HashMonitor records how a container uses its keys' Hash method.
type HashMonitor struct {
	seeds   map[maphash.Seed]int
	perKey  map[int64][]uint // iterations requested in the current operation
	calls   int
	equals  int
	maxIter uint
	onBegin func() // called with the records of the operation before
}

func newMonitor() *HashMonitor {
	return &HashMonitor{seeds: map[maphash.Seed]int{}, perKey: map[int64][]uint{}}
}

func (m *HashMonitor) begin() {
	if m.onBegin != nil {
		m.onBegin()
	}
	m.calls, m.equals = 0, 0
	clear(m.perKey)
}

var (
	monitor     *HashMonitor // nil if off
	budgetsOn   bool
	digitBudget int64
)

// userHook is called from the methods of DKey and AFault.
var userHook func(where string)

// DKey is a key with an explicit hash for every iteration.
type DKey struct {
	id int64
	d  []uint64
}

func (k DKey) Equal(o DKey) bool {
	if monitor != nil {
		monitor.equals++
	}
	if faults != nil {
		faults.step("Equal")
	}
	if userHook != nil {
		userHook("Equal")
	}
	return k.id == o.id
}

func (k DKey) Hash(seed maphash.Seed, iter uint) uint64 {
	if budgetsOn {
		if digitBudget++; digitBudget > opBudget {
			panic(maphash.VerifExhausted{})
		}
	}
	if monitor != nil {
		monitor.calls++
		monitor.seeds[seed]++
		monitor.perKey[k.id] = append(monitor.perKey[k.id], iter)
		monitor.maxIter = max(monitor.maxIter, iter)
	}
	if faults != nil {
		faults.step("Hash")
	}
	if userHook != nil {
		userHook("Hash")
	}
	if iter < uint(len(k.d)) {
		return k.d[iter]
	}
	return maphash.VerifMix(uint64(k.id)*0x9e3779b97f4a7c15 + uint64(iter))
}

// FoldKey compares case-insensitively (ASCII), so Equal is coarser than ==.
type FoldKey struct{ s string }

func fold(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

func (k FoldKey) Equal(o FoldKey) bool { return fold(k.s) == fold(o.s) }
func (k FoldKey) Hash(seed maphash.Seed, iter uint) uint64 {
	f := fold(k.s)
	var h maphash.Hash
	h.SetSeed(seed)
	for i := uint(0); i <= iter; i++ {
		h.WriteString(f)
	}
	return h.Sum64()
}

func freshBytes(b []byte) []byte { return append(make([]byte, 0, len(b)), b...) }

// runs holds, for every byte value, a string and a buffer of that byte only. Keys which are
// runs of one byte may be prefixes of these, so that different keys share their memory.
var runs = func() (r [256]struct {
	s string
	b []byte
}) {
	for i := range r {
		r[i].b = bytes.Repeat([]byte{byte(i)}, 600)
		r[i].s = string(r[i].b)
	}
	return
}()

// sharedRun returns the run of which b is a prefix, or -1.
func sharedRun(b []byte, alt int) int {
	if alt&4 == 0 || len(b) == 0 || len(b) > 600 || tracker != nil || b[0] != b[len(b)-1] {
		return -1
	}
	if bytes.Equal(b, runs[b[0]].b[:len(b)]) {
		return int(b[0])
	}
	return -1
}

func inRun(b []byte) bool {
	return len(b) > 0 && unsafe.SliceData(b) == unsafe.SliceData(runs[b[0]].b)
}

// intactBytes checks the bytes behind a key which was handed to an operation.
func intactBytes(b []byte) {
	if inRun(b) {
		if r := runs[b[0]].b; !bytes.Equal(r[1:], r[:len(r)-1]) {
			failf("an operation changed bytes behind its key of length %d, in the same array", len(b))
		}
	} else if cap(b) >= len(b)+4 && string(b[len(b):len(b)+4]) != "tail" {
		failf("an operation changed bytes behind its key of length %d, in the same array", len(b))
	}
}

func scribbleBytes(b []byte) {
	if intactBytes(b); inRun(b) {
		return
	}
	for i := range b {
		b[i] ^= 0x5a
	}
}

var kcInt = &kcodec[int64]{mk: func(s *KeySpec, _ int) int64 { return s.I }, canon: func(k int64) string { return fmt.Sprint(k) }}

var kcGInt = &kcodec[amt.Int]{mk: func(s *KeySpec, _ int) amt.Int { return amt.Int(s.I) }, canon: func(k amt.Int) string { return fmt.Sprint(int64(k)) }}

func mkString(s *KeySpec, alt int) string {
	if r := sharedRun(s.S, alt); r >= 0 {
		return runs[r].s[:len(s.S)]
	}
	k := string(s.S)
	trackString(k)
	return k
}

func unsafeStringData(s string) *byte { return unsafe.StringData(s) }

var kcString = &kcodec[string]{mk: func(s *KeySpec, alt int) string { return mkString(s, alt) }, canon: func(k string) string { return k }}

var kcGString = &kcodec[amt.String]{mk: func(s *KeySpec, alt int) amt.String { return amt.String(mkString(s, alt)) }, canon: func(k amt.String) string { return string(k) }}

func mkBytes(s *KeySpec, alt int) []byte {
	if len(s.S) == 0 {
		if alt&1 == 0 {
			return nil
		}
		return []byte{}
	}
	if r := sharedRun(s.S, alt); r >= 0 {
		return runs[r].b[:len(s.S)]
	}
	if alt&1 == 0 {
		b := freshBytes(s.S)
		trackBytes(b)
		return b
	}
	b := append(freshBytes(s.S), "tail"...) // spare capacity holding other data
	return b[:len(s.S)]
}

var kcBytes = &kcodec[[]byte]{mk: mkBytes, canon: func(k []byte) string { return string(k) }, scribble: scribbleBytes, intact: intactBytes,
	rep: func(k []byte) uintptr { return uintptr(unsafe.Pointer(unsafe.SliceData(k))) }}

var kcGBytes = &kcodec[amt.Bytes]{mk: func(s *KeySpec, alt int) amt.Bytes { return mkBytes(s, alt) }, canon: func(k amt.Bytes) string { return string(k) },
	scribble: func(k amt.Bytes) { scribbleBytes(k) }, intact: func(k amt.Bytes) { intactBytes(k) }, rep: func(k amt.Bytes) uintptr { return uintptr(unsafe.Pointer(unsafe.SliceData(k))) }}

var kcFold = &kcodec[FoldKey]{mk: func(s *KeySpec, alt int) FoldKey {
	b := []byte(fold(string(s.S)))
	for i, c := range b {
		if c >= 'a' && c <= 'z' && alt>>(uint(i)%8)&1 == 1 {
			b[i] = c - 32
		}
	}
	k := FoldKey{string(b)}
	trackString(k.s)
	return k
}, canon: func(k FoldKey) string { return fold(k.s) }, rep: func(k FoldKey) uintptr { return uintptr(unsafe.Pointer(unsafe.StringData(k.s))) }}

var kcA8 = &kcodec[A8]{mk: func(s *KeySpec, _ int) (a A8) { copy(a[:], s.S); return }, canon: func(k A8) string { return string(k[:]) }}

var kcA64 = &kcodec[A64]{mk: func(s *KeySpec, _ int) (a A64) {
	copy(a[:], s.S)
	if len(s.S) > 64 { // keep the difference of long keys
		copy(a[32:], s.S[len(s.S)-32:])
	}
	return
}, canon: func(k A64) string { return string(k[:]) }}

var kcAS = &kcodec[AStruct]{mk: func(s *KeySpec, _ int) AStruct {
	b := s.S
	if len(b) > 50 {
		b = b[len(b)-50:]
	}
	k := AStruct{int32(s.I), strings.Clone(string(b))}
	trackString(k.B)
	return k
}, canon: func(k AStruct) string { return fmt.Sprint(k.A) + "/" + k.B }}

// copyDigits makes every digit key own its digits.
var copyDigits bool

var kcD = &kcodec[DKey]{mk: func(s *KeySpec, alt int) DKey {
	if alt&1 == 0 && !copyDigits {
		return DKey{s.I, s.D}
	}
	d := append([]uint64(nil), s.D...)
	trackWords(d)
	return DKey{s.I, d}
}, canon: func(k DKey) string { return fmt.Sprint(k.id) }}

// digit returns the i-th 4-bit hash digit of a digit key.
func digit(s *KeySpec, i int) uint64 {
	it := i / 16
	var h uint64
	if it < len(s.D) {
		h = s.D[it]
	} else {
		h = maphash.VerifMix(uint64(s.I)*0x9e3779b97f4a7c15 + uint64(it))
	}
	return h >> (4 * uint(i%16)) & 15
}

// lcp returns the number of leading digits two digit keys share, up to 256.
func lcp(a, b *KeySpec) int {
	for i := 0; i < 256; i++ {
		if digit(a, i) != digit(b, i) {
			return i
		}
	}
	return 256
}

// maxShared is the longest common prefix in the domain (15 complete hashes).
const maxShared = 238

// checkDigits rejects digit pools outside the domain.
func checkDigits(specs []KeySpec) {
	if len(specs) > 400 {
		return // large pools are only generated, never shrunk upwards; see genDigits
	}
	for i := range specs {
		for j := 0; j < i; j++ {
			if specs[i].I != specs[j].I && lcp(&specs[i], &specs[j]) > maxShared {
				invalidf("keys collide on more than %d digits", maxShared)
			}
		}
	}
}
