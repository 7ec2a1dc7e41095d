package main

import (
	"hash/maphash"
	"unsafe"

	"github.com/wdamron/amt"
)

// opBudget bounds the hash computations of a single operation. A correct
// operation in the domain needs at most 2*16 plus intermediate blocks of long keys.
const opBudget = 1 << 14

// opBudgetMore is added for keys longer than 5000 bytes; see newPool.
var opBudgetMore int64

func begin() {
	if budgetsOn {
		maphash.VerifCalls = 0
		maphash.VerifBudget = opBudget + opBudgetMore
		digitBudget = 0
		if monitor != nil {
			monitor.begin()
		}
	}
}

// Ref is a pointer to a stored value.
type Ref interface {
	Nil() bool
	Load() int // -1: not a value that was ever stored
	Store(int)
	Addr() unsafe.Pointer
}

type ref[V any] struct {
	p  *V
	vc *vcodec[V]
}

func (r ref[V]) Nil() bool            { return r.p == nil }
func (r ref[V]) Load() int            { return r.vc.dec(*r.p) }
func (r ref[V]) Store(v int)          { *r.p = r.vc.enc(v) }
func (r ref[V]) Addr() unsafe.Pointer { return unsafe.Pointer(r.p) }

// C is a container under test with keys as pool indices and values as codes.
// For sets, values are always 0, and Val, Ptr and Mod are not available.
type C interface {
	Kind() string
	IsMap() bool
	Norm(v int) int
	Class(k int) int // canonical pool index of k
	Nil() bool
	Len() uint
	Dep() float64
	Get(k, alt int) (int, bool)
	Val(k, alt int) int
	Ptr(k, alt int) Ref // nil interface if missing
	Set(k, alt, v int)
	Mod(k, alt int, f func(Ref, bool))
	Del(k, alt int)
	All(f func(k int, r Ref) bool) // k is -1 for a key not in the pool
	Copy() C
}

type mapAPI[K, V any] interface {
	Nil() bool
	Len() uint
	Dep() float64
	Get(K) (V, bool)
	Val(K) V
	Ptr(K) *V
	Set(K, V)
	Mod(K, func(*V, bool))
	Del(K)
	All(func(K, *V) bool)
}

type setAPI[K any] interface {
	Nil() bool
	Len() uint
	Dep() float64
	Has(K) bool
	Add(K)
	Del(K)
	All(func(K) bool)
}

type mapAd[M mapAPI[K, V], K, V any] struct {
	kind string
	m    M
	p    *pool[K]
	vc   *vcodec[V]
}

func (a *mapAd[M, K, V]) Kind() string    { return a.kind }
func (a *mapAd[M, K, V]) IsMap() bool     { return true }
func (a *mapAd[M, K, V]) Norm(v int) int  { return a.vc.norm(v) }
func (a *mapAd[M, K, V]) Class(k int) int { return a.p.class[k] }
func (a *mapAd[M, K, V]) pool() any       { return a.p }
func (a *mapAd[M, K, V]) Nil() bool       { return a.m.Nil() }
func (a *mapAd[M, K, V]) Len() uint       { return a.m.Len() }
func (a *mapAd[M, K, V]) Dep() float64    { return a.m.Dep() }
func (a *mapAd[M, K, V]) intact(k K) {
	if a.p.kc.intact != nil {
		a.p.kc.intact(k)
	}
}
func (a *mapAd[M, K, V]) done(k K) {
	if a.p.kc.scribble != nil {
		a.p.kc.scribble(k)
	}
}
func (a *mapAd[M, K, V]) Get(k, alt int) (int, bool) {
	begin()
	key := a.p.key(k, alt)
	v, ok := a.m.Get(key)
	a.done(key)
	return a.vc.dec(v), ok
}
func (a *mapAd[M, K, V]) Val(k, alt int) int {
	begin()
	key := a.p.key(k, alt)
	v := a.m.Val(key)
	a.done(key)
	return a.vc.dec(v)
}
func (a *mapAd[M, K, V]) Ptr(k, alt int) Ref {
	begin()
	key := a.p.key(k, alt)
	p := a.m.Ptr(key)
	a.done(key)
	if p == nil {
		return nil
	}
	return ref[V]{p, a.vc}
}
func (a *mapAd[M, K, V]) Set(k, alt, v int) {
	begin()
	key := a.p.key(k, alt)
	a.m.Set(key, a.vc.enc(v))
	a.intact(key)
}
func (a *mapAd[M, K, V]) Mod(k, alt int, f func(Ref, bool)) {
	begin()
	key := a.p.key(k, alt)
	a.m.Mod(key, func(p *V, ok bool) { f(ref[V]{p, a.vc}, ok) })
	a.intact(key)
}
func (a *mapAd[M, K, V]) Del(k, alt int) {
	begin()
	key := a.p.key(k, alt)
	a.m.Del(key)
	a.done(key)
}
func (a *mapAd[M, K, V]) All(f func(int, Ref) bool) {
	begin()
	a.m.All(func(k K, p *V) bool { return f(a.p.id(k), ref[V]{p, a.vc}) })
}
func (a *mapAd[M, K, V]) Copy() C          { b := *a; return &b }
func (a *mapAd[M, K, V]) rawVal(k int) any { return a.m.Val(a.p.key(k, 0)) }

type setAd[S setAPI[K], K any] struct {
	kind string
	s    S
	p    *pool[K]
}

func (a *setAd[S, K]) Kind() string    { return a.kind }
func (a *setAd[S, K]) IsMap() bool     { return false }
func (a *setAd[S, K]) Norm(v int) int  { return 0 }
func (a *setAd[S, K]) Class(k int) int { return a.p.class[k] }
func (a *setAd[S, K]) pool() any       { return a.p }
func (a *setAd[S, K]) Nil() bool       { return a.s.Nil() }
func (a *setAd[S, K]) Len() uint       { return a.s.Len() }
func (a *setAd[S, K]) Dep() float64    { return a.s.Dep() }
func (a *setAd[S, K]) intact(k K) {
	if a.p.kc.intact != nil {
		a.p.kc.intact(k)
	}
}
func (a *setAd[S, K]) done(k K) {
	if a.p.kc.scribble != nil {
		a.p.kc.scribble(k)
	}
}
func (a *setAd[S, K]) Get(k, alt int) (int, bool) {
	begin()
	key := a.p.key(k, alt)
	ok := a.s.Has(key)
	a.done(key)
	return 0, ok
}
func (a *setAd[S, K]) Val(k, alt int) int                { panic("harness: Val on a set") }
func (a *setAd[S, K]) Ptr(k, alt int) Ref                { panic("harness: Ptr on a set") }
func (a *setAd[S, K]) Mod(k, alt int, f func(Ref, bool)) { panic("harness: Mod on a set") }
func (a *setAd[S, K]) Set(k, alt, v int) {
	begin()
	key := a.p.key(k, alt)
	a.s.Add(key)
	a.intact(key)
}
func (a *setAd[S, K]) Del(k, alt int) {
	begin()
	key := a.p.key(k, alt)
	a.s.Del(key)
	a.done(key)
}
func (a *setAd[S, K]) All(f func(int, Ref) bool) {
	begin()
	a.s.All(func(k K) bool { return f(a.p.id(k), nil) })
}
func (a *setAd[S, K]) Copy() C { b := *a; return &b }

// --- kinds ---

var mapKinds = []string{"IntMap", "StringMap", "BytesMap", "ArrMap8", "ArrMap64", "ArrMapS", "MapD", "MapFold", "MapString", "MapBytes"}
var setKinds = []string{"IntSet", "StringSet", "BytesSet", "ArrSet8", "ArrSet64", "ArrSetS", "SetD", "SetFold", "SetString", "SetBytes"}

// haveInt reports whether amt.Int can be used as a generic key (build tag intkey).
var haveInt bool

func keyFamily(kind string) string {
	switch kind {
	case "IntMap", "IntSet", "MapInt", "SetInt":
		return "int"
	case "ArrMap8", "ArrSet8", "ArrMapF", "ArrSetF":
		return "arr8"
	case "ArrMap64", "ArrSet64":
		return "arr64"
	case "ArrMapS", "ArrSetS":
		return "arrs"
	case "MapD", "SetD":
		return "digit"
	case "MapFold", "SetFold":
		return "fold"
	}
	return "bytes"
}

func isMapKind(kind string) bool {
	for _, k := range mapKinds {
		if k == kind {
			return true
		}
	}
	return kind == "MapInt" || kind == "ArrMapF"
}

func mkMap[M mapAPI[K, V], K, V any](kind string, zero bool, mk func() M, kc *kcodec[K], vc *vcodec[V], keys []KeySpec) C {
	a := &mapAd[M, K, V]{kind: kind, p: newPool(kc, keys), vc: vc}
	if !zero {
		a.m = mk()
	}
	return a
}

func mkSet[S setAPI[K], K any](kind string, zero bool, mk func() S, kc *kcodec[K], keys []KeySpec) C {
	a := &setAd[S, K]{kind: kind, p: newPool(kc, keys)}
	if !zero {
		a.s = mk()
	}
	return a
}

func newMapV[V any](kind string, zero bool, vc *vcodec[V], keys []KeySpec) C {
	switch kind {
	case "IntMap":
		return mkMap(kind, zero, amt.NewIntMap[V], kcInt, vc, keys)
	case "StringMap":
		return mkMap(kind, zero, amt.NewStringMap[V], kcString, vc, keys)
	case "BytesMap":
		return mkMap(kind, zero, amt.NewBytesMap[V], kcBytes, vc, keys)
	case "ArrMap8":
		return mkMap(kind, zero, amt.NewArrMap[A8, V], kcA8, vc, keys)
	case "ArrMapF":
		return mkMap(kind, zero, amt.NewArrMap[AFault, V], kcAF, vc, keys)
	case "ArrMap64":
		return mkMap(kind, zero, amt.NewArrMap[A64, V], kcA64, vc, keys)
	case "ArrMapS":
		return mkMap(kind, zero, amt.NewArrMap[AStruct, V], kcAS, vc, keys)
	case "MapD":
		checkDigits(keys)
		return mkMap(kind, zero, amt.NewMap[DKey, V], kcD, vc, keys)
	case "MapFold":
		return mkMap(kind, zero, amt.NewMap[FoldKey, V], kcFold, vc, keys)
	case "MapString":
		return mkMap(kind, zero, amt.NewMap[amt.String, V], kcGString, vc, keys)
	case "MapBytes":
		return mkMap(kind, zero, amt.NewMap[amt.Bytes, V], kcGBytes, vc, keys)
	case "MapInt":
		return newMapInt(zero, vc, keys)
	}
	panic("harness: unknown kind " + kind)
}

func newSet(kind string, zero bool, keys []KeySpec) C {
	switch kind {
	case "IntSet":
		return mkSet(kind, zero, amt.NewIntSet, kcInt, keys)
	case "StringSet":
		return mkSet(kind, zero, amt.NewStringSet, kcString, keys)
	case "BytesSet":
		return mkSet(kind, zero, amt.NewBytesSet, kcBytes, keys)
	case "ArrSet8":
		return mkSet(kind, zero, amt.NewArrSet[A8], kcA8, keys)
	case "ArrSetF":
		return mkSet(kind, zero, amt.NewArrSet[AFault], kcAF, keys)
	case "ArrSet64":
		return mkSet(kind, zero, amt.NewArrSet[A64], kcA64, keys)
	case "ArrSetS":
		return mkSet(kind, zero, amt.NewArrSet[AStruct], kcAS, keys)
	case "SetD":
		checkDigits(keys)
		return mkSet(kind, zero, amt.NewSet[DKey], kcD, keys)
	case "SetFold":
		return mkSet(kind, zero, amt.NewSet[FoldKey], kcFold, keys)
	case "SetString":
		return mkSet(kind, zero, amt.NewSet[amt.String], kcGString, keys)
	case "SetBytes":
		return mkSet(kind, zero, amt.NewSet[amt.Bytes], kcGBytes, keys)
	case "SetInt":
		return newSetInt(zero, keys)
	}
	panic("harness: unknown kind " + kind)
}

func newC(kind, val string, keys []KeySpec) C  { return newContainer(kind, val, keys, false) }
func zeroC(kind, val string, keys []KeySpec) C { return newContainer(kind, val, keys, true) }

func newContainer(kind, val string, keys []KeySpec, zero bool) C {
	if !isMapKind(kind) {
		return newSet(kind, zero, keys)
	}
	switch val {
	case "", "int":
		return newMapV(kind, zero, vInt, keys)
	case "byte":
		return newMapV(kind, zero, vByte, keys)
	case "unit":
		return newMapV(kind, zero, vUnit, keys)
	case "string":
		return newMapV(kind, zero, vString, keys)
	case "box":
		return newMapV(kind, zero, vBox, keys)
	case "big":
		return newMapV(kind, zero, vBig, keys)
	case "any":
		return newMapV(kind, zero, vAny, keys)
	case "slice":
		return newMapV(kind, zero, vSlice, keys)
	case "pair":
		return newMapV(kind, zero, vPair, keys)
	case "float":
		return newMapV(kind, zero, vFloat, keys)
	case "track":
		return newMapV(kind, zero, vTrack, keys)
	case "tracks":
		return newMapV(kind, zero, vTrackS, keys)
	case "submap":
		return newMapV(kind, zero, vSub, keys)
	}
	panic("harness: unknown value type " + val)
}
