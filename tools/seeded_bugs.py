GK='''
type K struct {
	id uint64
	h  []uint64 // hash per iteration; the last one is mixed with id
}

func (k K) Equal(o K) bool { return k.id == o.id }
func (k K) Hash(_ maphash.Seed, iter uint) uint64 {
	if int(iter) < len(k.h) {
		return k.h[iter]
	}
	return mix(k.id*31 + uint64(iter))
}
func mix(x uint64) uint64 {
	x ^= x >> 32
	x *= 0xd6e8feb86659fd93
	x ^= x >> 32
	x *= 0xd6e8feb86659fd93
	return x ^ x>>32
}
func fail(a ...any) {
	fmt.Println(append([]any{"FAIL:"}, a...)...)
	os.Exit(1)
}
'''
HG='package main\n\nimport (\n\t"fmt"\n\t"hash/maphash"\n\t"os"\n\n\t"github.com/wdamron/amt"\n)\n'+GK
F='\nfunc fail(a ...any) {\n\tfmt.Println(append([]any{"FAIL:"}, a...)...)\n\tos.Exit(1)\n}\n'
def H(*imps):
    return 'package main\n\nimport (\n'+''.join(f'\t"{i}"\n' for i in sorted(('fmt','os')+imps))+'\n\t"github.com/wdamron/amt"\n)\n'+F

bug('C03-del-rehash','C03','deleting a generic map key that shares two complete 64-bit hashes (32 levels) with another key',
 'Map.Del rehashes with iteration 1 at every 16-level boundary, so keys separated only by their third hash cannot be deleted (or the wrong branch is taken)',
 [('generic_map.go','Map[K, V]) Del','hd = key.Hash(m.seed, uint(d>>4))','hd = key.Hash(m.seed, 1)')],
 HG+'''
func main() {
	m := amt.NewMap[K, int]()
	a, b := K{1, []uint64{7, 9}}, K{2, []uint64{7, 9}}
	m.Set(a, 1)
	m.Set(b, 2)
	m.Del(a)
	if _, ok := m.Get(a); ok || m.Len() != 1 {
		fail("deleted key is still present", m.Len())
	}
	if v, ok := m.Get(b); !ok || v != 2 {
		fail("other key lost")
	}
}
''')
bug('C05-collapse-once','C05','deleting one of two keys which share two or more leading hash digits',
 'StringMap.Del replaces only one single-valued branch by its key-value, so the remaining key stays too deep and Dep is too large',
 [('string_map.go','StringMap[V]) Del','for count == 1 && l.pmap','if count == 1 && l.pmap'),
  ],
 H()+'''
func main() {
	for i := 0; i < 30000; i++ {
		m := amt.NewStringMap[int]()
		a, b := fmt.Sprint("a", i), fmt.Sprint("b", i)
		m.Set(a, 1)
		m.Set(b, 2)
		m.Del(a)
		if m.Dep() != 0 {
			fail("one key left at depth", m.Dep())
		}
	}
}
''')
bug('C04-nested-stop','C04','a callback that returns false on an entry of a nested branch which is not the last entry of the map',
 'BytesMap.All goes on after the callback returned false inside a nested branch',
 [('bytes_map.go','func bytesScan','} else if !bytesScan(item, do) {\n\t\t\treturn false\n\t\t}','} else {\n\t\t\tbytesScan(item, do)\n\t\t}')],
 H()+'''
func main() {
	m := amt.NewBytesMap[int]()
	for i := 0; i < 200; i++ {
		m.Set([]byte(fmt.Sprint(i)), i)
	}
	for stop := 1; stop <= 200; stop++ {
		n := 0
		m.All(func([]byte, *int) bool { n++; return n < stop })
		if n != stop {
			fail("callback stopped at", stop, "called", n)
		}
	}
}
''')
bug('C12-mod-array-size','C12','Mod adding a fifth, ninth or thirteenth entry to a nested branch of a StringMap',
 'StringMap.Mod allocates the new link array for the old count, so the added entry is written behind the end of the array',
 [('string_map.go','StringMap[V]) Mod','l.ptr = newLinkArray(count + 1)','l.ptr = newLinkArray(count)')],
 H()+'''
func main() {
	// built with checkptr: pointer arithmetic that leaves an allocation ends the process
	m := amt.NewStringMap[int]()
	for i := 0; i < 20000; i++ {
		m.Mod(fmt.Sprint(i), func(v *int, ok bool) {
			if ok {
				fail("new key existed", i)
			}
			*v = i
		})
	}
	for i := 0; i < 20000; i++ {
		if v, ok := m.Get(fmt.Sprint(i)); !ok || v != i {
			fail("wrong value", i, v, ok)
		}
	}
}
''',flags='-gcflags=all=-d=checkptr')
bug('C08-mod-copy','C08','keeping the pointer passed to a Mod callback that created the key (at a free slot) and using it later',
 'ArrMap.Mod hands the callback a pointer to a temporary which is copied into the map, so the retained pointer is not bound to the key',
 [('arr_map.go','m.dep += uint64(d) * 2\n\t\t\t\treturn // item added\n\t\t\t}\n\t\t\t// handle collision at new level\n\t\t\titem.ptr = newLinkArray(1)\n\t\t\titem = (*link)(item.ptr)\n\t\t}\n\t}\n\tkv := &arrkv','kv := &arrkv[K, V]{k: key}\n\tmod(&kv.v, false)\n','var value V\n\tmod(&value, false)\n\tkv := &arrkv[K, V]{k: key, v: value}\n')],
 H()+'''
type A [4]byte

func (a A) KeyBytes() (b [64]byte) { copy(b[:], a[:]); return }

func main() {
	m := amt.NewArrMap[A, int]()
	for i := 0; i < 300; i++ {
		k := A{byte(i), byte(i >> 8)}
		var p *int
		m.Mod(k, func(v *int, ok bool) { *v = i; p = v })
		*p = -i
		if m.Val(k) != -i {
			fail("write through the pointer of the Mod callback is lost for", i)
		}
	}
}
''')
bug('C11-shared-scratch','C11','two goroutines deleting from two distinct BytesSets at the same time',
 'BytesSet.Del uses one package-level scratch path for all sets',
 [('bytes_set.go','// BytesSet contains','// BytesSet contains','// delPath is scratch space for the traversal path during deletion.\nvar delPath [12]pathLink\n\n// BytesSet contains'),
  ('bytes_set.go','BytesSet) Del','path := s.path[:0]','path := delPath[:0]')],
 H('sync')+'''
func main() { // built with the race detector (exit status 66 on a race)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			s := amt.NewBytesSet()
			for i := 0; i < 3000; i++ {
				s.Add([]byte(fmt.Sprint(g, i)))
			}
			for i := 0; i < 3000; i += 2 {
				s.Del([]byte(fmt.Sprint(g, i)))
			}
			for i := 0; i < 3000; i++ {
				if s.Has([]byte(fmt.Sprint(g, i))) != (i%2 == 1) {
					fail("wrong membership", g, i)
				}
			}
		}()
	}
	wg.Wait()
}
''',flags='-race',env='GORACE="halt_on_error=1"')
bug('C13-no-shrink','C13','an ArrSet that grew wide nested branches and then shrank',
 'ArrSet.Del never moves a shrunken branch to a smaller link array, so the memory of the largest content is retained',
 [('arr_set.go','ArrSet[K]) Del','if count%4 == 0 && d != 0 {','if count == 0 && d != 0 {'),
  ('arr_set.go','ArrSet[K]) Add','l.ptr = newLinkArray(count + 1)','l.ptr = newLinkArray(count + 1)'),
 ],
 H('runtime')+'''
type A [8]byte

func (a A) KeyBytes() (b [64]byte) { copy(b[:], a[:]); return }
func key(i int) A                  { return A{byte(i), byte(i >> 8), byte(i >> 16), byte(i >> 24)} }
func heap() int64 {
	var ms runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&ms)
	return int64(ms.HeapAlloc)
}

func main() {
	const n = 1 << 20
	h0 := heap()
	s := amt.NewArrSet[A]()
	for i := 0; i < n; i++ {
		s.Add(key(i))
	}
	for i := n / 8; i < n; i++ {
		s.Del(key(i))
	}
	h1 := heap()
	t := amt.NewArrSet[A]()
	for i := 0; i < n/8; i++ {
		t.Add(key(i))
	}
	h2 := heap()
	shrunk, direct := h1-h0, h2-h1
	if shrunk > direct+direct/4 {
		fail("a shrunken set retains", shrunk, "bytes, one built directly", direct)
	}
	runtime.KeepAlive(s)
	runtime.KeepAlive(t)
}
''')
bug('C07-callback-late','C07','a Mod callback that panics (or reads the map) while BytesMap.Mod adds a key at a free slot',
 'BytesMap.Mod links the new entry before it calls the callback, so a panicking callback leaves a new key behind',
 [('bytes_map.go','item = (*link)(item.ptr)\n\t\t}\n\t}\n\tkv := &byteskv[V]{k: key}\n\tmod(','\tkv := &byteskv[V]{k: key}\n\tmod(&kv.v, false)\n','\tkv := &byteskv[V]{k: key}\n'),
  ('bytes_map.go','item = (*link)(item.ptr)\n\t\t}\n\t}\n\tkv := &byteskv[V]{k: key}\n\tcount','\tm.dep += uint64(d)\n}','\tm.dep += uint64(d)\n\tmod(&kv.v, false)\n}')],
 H()+'''
func main() {
	m := amt.NewBytesMap[int]()
	for i := 0; i < 50; i++ {
		k := []byte(fmt.Sprint(i))
		n := m.Len()
		func() {
			defer func() { recover() }()
			m.Mod(k, func(*int, bool) { panic("x") })
		}()
		if _, ok := m.Get(k); ok || m.Len() != n {
			fail("a panicking callback added key", i)
		}
		m.Set(k, i)
	}
}
''')
bug('C10-add-autoinit','C10','Add on a BytesSet that was never initialized',
 'BytesSet.Add initializes its own copy of an uninitialized set and silently drops the key instead of panicking',
 [('bytes_set.go','BytesSet) Add(key []byte) {\n','BytesSet) Add(key []byte) {\n','BytesSet) Add(key []byte) {\n\tif s.Nil() {\n\t\ts = NewBytesSet()\n\t}\n')],
 H()+'''
func main() {
	var s amt.BytesSet
	defer func() {
		if recover() == nil {
			fail("Add on an uninitialized set did not panic")
		}
	}()
	s.Add([]byte("a"))
}
''')
bug('C14-hashbytes-long','C14','HashBytes with iteration 1 or more and a key longer than 1 KB',
 'HashBytes hashes only the first KB again when it rehashes a long key, so it disagrees with Bytes.Hash and String.Hash',
 [('generic_map.go','func HashBytes','\t\thw.Write(key)\n','\t\tif i == 0 {\n\t\t\thw.Write(key)\n\t\t} else if len(key) > 1024 { // the whole key was hashed already\n\t\t\thw.Write(key[:1024])\n\t\t} else {\n\t\t\thw.Write(key)\n\t\t}\n')],
 H('hash/maphash')+'''
func main() {
	seed := maphash.MakeSeed()
	for n := 0; n < 3000; n += 50 {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i * 7)
		}
		for it := uint(0); it < 5; it++ {
			if amt.HashBytes(b, seed, it) != amt.Bytes(b).Hash(seed, it) {
				fail("HashBytes and Bytes.Hash differ for length", n, "iteration", it)
			}
		}
	}
}
''')
bug('C15-rehash-every-level','C15','looking up a key at depth d>0 in a generic set and counting hash computations',
 'Set.Has hashes the key again at every level instead of once per 16 levels',
 [('generic_set.go','Set[K]) Has','if d&0xF != 0 { // hash bits available\n\t\t\t\thd >>= 4\n\t\t\t} else { // rehash\n\t\t\t\thd = key.Hash(s.seed, uint(d>>4))\n\t\t\t}','hd = key.Hash(s.seed, uint(d>>4)) >> (4 * (d & 0xF))')],
 HG.replace('''func (k K) Hash(_ maphash.Seed, iter uint) uint64 {
''','''
var calls int

func (k K) Hash(_ maphash.Seed, iter uint) uint64 {
	calls++
''')+'''
func main() {
	for n := 16; n <= 1<<20; n *= 16 {
		s := amt.NewSet[K]()
		for i := 0; i < n; i++ {
			s.Add(K{id: uint64(i)})
		}
		calls = 0
		for i := 0; i < 1000; i++ {
			s.Has(K{id: uint64(i % n)})
		}
		if calls > 2000 {
			fail("1000 lookups in a set of", n, "keys cost", calls, "hash computations")
		}
	}
}
''')
bug('C16-overwrite-dep','C16','overwriting the value of a key that lies below the root level of an ArrMap',
 'ArrMap.Set subtracts the depth of the found entry before it knows that the key is only overwritten, so every overwrite lowers Dep',
 [('arr_map.go','ArrMap[K, V]) Set','\t\tif ckey == key { // update existing','\t\tm.dep -= uint64(d) // conflicting key depth\n\t\tif ckey == key { // update existing'),
  ('arr_map.go','ArrMap[K, V]) Set','\t\tl.tmap &^= bit\n\t\tm.dep -= uint64(d) // conflicting key depth\n','\t\tl.tmap &^= bit\n')],
 H()+'''
type A [4]byte

func (a A) KeyBytes() (b [64]byte) { copy(b[:], a[:]); return }

func main() {
	m := amt.NewArrMap[A, int]()
	for i := 0; i < 300; i++ {
		m.Set(A{byte(i), byte(i >> 8)}, i)
	}
	d := m.Dep()
	for i := 0; i < 300; i++ {
		m.Set(A{byte(i), byte(i >> 8)}, -i)
		if m.Dep() != d {
			fail("overwriting changed Dep from", d, "to", m.Dep())
		}
	}
}
''')
bug('C01-mod-sign','C01','IntMap.Mod adding a key which collides with an existing key whose low 32 bits have the top bit set and whose high bits are not all set',
 'IntMap.Mod sign-extends the low half of the conflicting key when it moves that key into a new branch, so the key is renamed',
 [('int_map.go','IntMap[V]) Mod','ckey := IntKey(item.pmap) | (IntKey(item.tmap) << 32)','ckey := IntKey(int32(item.pmap)) | (IntKey(item.tmap) << 32)')],
 H()+'''
func main() {
	m := amt.NewIntMap[int]()
	const n = 3000
	for i := int64(0); i < n; i++ {
		m.Mod(1<<31+i*7, func(v *int, ok bool) { *v = int(i) })
	}
	for i := int64(0); i < n; i++ {
		if v, ok := m.Get(1<<31 + i*7); !ok || v != int(i) {
			fail("key lost", 1<<31+i*7)
		}
	}
}
''')
bug('C03-path-ring','C03','deleting a generic set key at depth 12 or more so that branches up to the top are collapsed',
 'Set.Del keeps only the last 12 levels of the path and reads a wrong branch when a deeper chain collapses to the root',
 [('generic_set.go','Set[K]) Del','path := s.path[:0]','path := s.path[:]'),
  ('generic_set.go','Set[K]) Del','path = append(path, pathLink{radix, l})','path[d%uint8(len(path))] = pathLink{radix, l}'),
  ('generic_set.go','s.dep -= uint64(d)\n\t\tpath','path[d].link = nil','path[d%uint8(len(path))].link = nil'),
  ('generic_set.go','// unlink empty branches','l, radix = path[d].link, path[d].radix\n\t\t\tpath[d].link = nil','at := d % uint8(len(path))\n\t\t\tl, radix = path[at].link, path[at].radix\n\t\t\tpath[at].link = nil'),
  ('generic_set.go','// replace single-valued','l, radix = path[d].link, path[d].radix\n\t\t\tpath[d].link = nil','at := d % uint8(len(path))\n\t\t\tl, radix = path[at].link, path[at].radix\n\t\t\tpath[at].link = nil'),
 ],
 HG+'''
func main() {
	for n := 0; n < 16; n++ {
		s := amt.NewSet[K]()
		a, b := K{1, []uint64{0}}, K{2, []uint64{1 << (4 * n)}}
		s.Add(a)
		s.Add(b)
		func() {
			defer func() {
				if e := recover(); e != nil {
					fail("Del panics for keys sharing", n, "digits:", e)
				}
			}()
			s.Del(a)
		}()
		if s.Has(a) || !s.Has(b) || s.Len() != 1 || s.Dep() != 0 {
			fail("wrong content after Del of a key at depth", n)
		}
	}
}
''')
bug('C09-scan-stack','C09','iterating one StringSet inside the callback of an iteration of another one',
 'StringSet.All uses a package-level stack of branches, which a nested iteration of another set overwrites',
 [('string_set.go','func stringSetScan','func stringSetScan(l *link, do func(string) bool) bool {\n\tpmap, tmap := l.pmap, l.tmap\n\tcount := uint8(bits.OnesCount32(pmap))\n\tfor i := uint8(0); i < count; i++ {\n\t\tbit := uint32(1) << uint8(bits.TrailingZeros32(pmap))\n\t\titem := (*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(i)*linkSize))\n\t\tif tmap&bit != 0 {\n\t\t\tkv := (*strkv[struct{}])(item.ptr)\n\t\t\tif !do(kv.k) {\n\t\t\t\treturn false\n\t\t\t}\n\t\t} else if !stringSetScan(item, do) {\n\t\t\treturn false\n\t\t}\n\t\tpmap &^= bit\n\t}\n\treturn true\n}\n','type stringSetFrame struct {\n\t*link\n\tpmap uint32\n\tnext uint8\n}\n\n// stringSetStack is scratch space for iteration, kept to avoid allocations.\nvar stringSetStack []stringSetFrame\n\nfunc stringSetScan(l *link, do func(string) bool) bool {\n\tstringSetStack = append(stringSetStack[:0], stringSetFrame{link: l, pmap: l.pmap})\n\tfor len(stringSetStack) > 0 {\n\t\ttop := &stringSetStack[len(stringSetStack)-1]\n\t\tif top.pmap == 0 {\n\t\t\tstringSetStack = stringSetStack[:len(stringSetStack)-1]\n\t\t\tcontinue\n\t\t}\n\t\tbit := uint32(1) << uint8(bits.TrailingZeros32(top.pmap))\n\t\titem := (*link)(unsafe.Pointer(uintptr(top.ptr) + uintptr(top.next)*linkSize))\n\t\ttop.pmap &^= bit\n\t\ttop.next++\n\t\tif top.tmap&bit == 0 {\n\t\t\tstringSetStack = append(stringSetStack, stringSetFrame{link: item, pmap: item.pmap})\n\t\t} else if !do((*strkv[struct{}])(item.ptr).k) {\n\t\t\treturn false\n\t\t}\n\t}\n\treturn true\n}\n')],
 H()+'''
func main() {
	a, b := amt.NewStringSet(), amt.NewStringSet()
	for i := 0; i < 100; i++ {
		a.Add(fmt.Sprint("a", i))
		b.Add(fmt.Sprint("b", i))
	}
	seen := map[string]bool{}
	a.All(func(k string) bool {
		if k[0] != 'a' || seen[k] {
			fail("iteration of a yields", k)
		}
		seen[k] = true
		n := 0
		b.All(func(string) bool { n++; return n < 5 })
		return true
	})
	if len(seen) != 100 {
		fail("iteration of a saw", len(seen))
	}
}
''')
bug('C02-del-low32','C02','deleting an absent integer whose low 32 bits equal those of a present key at the same place',
 'IntSet.Del compares only the low half of the key, so deleting an absent key may remove another one',
 [('int_set.go','IntSet) Del','if k := IntKey(item.pmap) | (IntKey(item.tmap) << 32); k != key {','if item.pmap != uint32(key) {')],
 H()+'''
func main() {
	s := amt.NewIntSet()
	for i := int64(0); i < 10; i++ {
		s.Add(i<<32 | 5)
	}
	for i := int64(10); i < 500; i++ {
		s.Del(i<<32 | 5)
		if s.Len() != 10 {
			fail("deleting an absent key removed another one", i)
		}
	}
}
''')
bug('C03-rehash-once','C03','adding a string whose hash path meets an entry at level 32 or deeper',
 'StringSet.Add rehashes the conflicting key at most once, so an entry at level 32 or deeper is moved to a place where lookups do not find it',
 [('string_set.go','StringSet) Add','for cd := uint8(0); cd <= d; cd += (64 / 4) {\n\t\t\tchw.WriteString(ckey)\n\t\t}','chw.WriteString(ckey)\n\t\tif d >= (64 / 4) {\n\t\t\tchw.WriteString(ckey)\n\t\t}')],
 H('hash/maphash')+'''
func main() {
	maphash.Weaken = func(h uint64) uint64 { return h % 3 * 0x9e3779b97f4a7c15 } // three hash values
	for r := 0; r < 200; r++ {
		s := amt.NewStringSet()
		for i := 0; i < 40; i++ {
			s.Add(fmt.Sprint(r, "/", i))
		}
		for i := 0; i < 40; i++ {
			if !s.Has(fmt.Sprint(r, "/", i)) {
				fail("key lost", r, i)
			}
		}
	}
}
''',over=True)
bug('C06-collapse-from-2','C06','a generic set key left alone in a branch at depth 1 by a deletion',
 'Set.Del does not replace single-valued branches directly below the root, so the structure depends on deleted keys',
 [('generic_set.go','Set[K]) Del','for count == 1 && l.pmap == l.tmap && d != 0 {','for count == 1 && l.pmap == l.tmap && d > 1 {')],
 HG+'''
func main() {
	build := func(extra bool) (float64, []uint64) {
		s := amt.NewSet[K]()
		s.Add(K{1, []uint64{0x13}})
		s.Add(K{2, []uint64{0x04}})
		if extra {
			s.Add(K{3, []uint64{0x23}})
			s.Del(K{3, []uint64{0x23}})
		}
		var o []uint64
		s.All(func(k K) bool { o = append(o, k.id); return true })
		return s.Dep(), o
	}
	d1, o1 := build(false)
	d2, o2 := build(true)
	if d1 != d2 || fmt.Sprint(o1) != fmt.Sprint(o2) {
		fail("structure depends on history:", d1, d2, o1, o2)
	}
}
''')
bug('C12-noscan-values','C12','ArrMap values that hold the only reference to an object, added by Set on a new key in a full branch, and a garbage collection',
 'ArrMap.Set places new entries in raw byte buffers when it reallocates a branch, so the collector does not see the references they hold',
 [('arr_map.go','} else { // array full or empty','*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(idx)*linkSize)) = link{\n\t\t\tptr: unsafe.Pointer(&arrkv[K, V]{k: key, v: value}),\n\t\t}','// keep the entry next to the new array\n\t\tbuf := make([]uint64, (unsafe.Sizeof(arrkv[K, V]{})+7)/8+1)\n\t\titem := (*arrkv[K, V])(unsafe.Pointer(&buf[0]))\n\t\titem.k, item.v = key, value\n\t\t*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(idx)*linkSize)) = link{\n\t\t\tptr: unsafe.Pointer(item),\n\t\t}')],
 H('runtime')+'''
type A [4]byte

func (a A) KeyBytes() (b [64]byte) { copy(b[:], a[:]); return }

var freed int

func main() {
	m := amt.NewArrMap[A, *[64]int]()
	for i := 0; i < 3000; i++ {
		v := new([64]int)
		v[0] = i
		runtime.SetFinalizer(v, func(*[64]int) { freed++ })
		m.Set(A{byte(i), byte(i >> 8)}, v)
	}
	for i := 0; i < 5; i++ {
		runtime.GC()
	}
	if freed != 0 {
		fail(freed, "values of present keys were freed")
	}
	for i := 0; i < 3000; i++ {
		if v := m.Val(A{byte(i), byte(i >> 8)}); v == nil || v[0] != i {
			fail("value corrupted")
		}
	}
}
''')
bug('C08-free-list','C08','holding a value pointer of a deleted IntMap key while a new key is added',
 'IntMap.Del keeps the value storage of the deleted entry and IntMap.Set reuses it for the next new key, so an old pointer aliases the new value',
 [('amt.go','','_     [3]uint64    // pad','free  unsafe.Pointer // value storage of the last deleted entry\n\t_     [2]uint64    // pad'),
  ('int_map.go','IntMap[V]) Set','count := uint8(bits.OnesCount32(l.pmap))\n','val := &intkv[V]{}\n\tif m.free != nil { // reuse storage\n\t\tval, m.free = (*intkv[V])(m.free), nil\n\t}\n\tval.v = value\n\tcount := uint8(bits.OnesCount32(l.pmap))\n'),
  ('int_map.go','IntMap[V]) Set','ptr:  unsafe.Pointer(&intkv[V]{value}),','ptr:  unsafe.Pointer(val),'),
  ('int_map.go','IntMap[V]) Set','ptr:  unsafe.Pointer(&intkv[V]{value}),','ptr:  unsafe.Pointer(val),'),
  ('int_map.go','IntMap[V]) Del','l.pmap &^= bit\n','var zero V\n\t\t(*intkv[V])(item.ptr).v = zero // release references\n\t\tm.free = item.ptr\n\t\tl.pmap &^= bit\n')],
 H()+'''
func main() {
	m := amt.NewIntMap[int]()
	for i := int64(0); i < 200; i++ {
		m.Set(i, int(i))
	}
	p := m.Ptr(7)
	m.Del(7)
	for i := int64(1000); i < 1010; i++ {
		m.Set(i, int(i))
	}
	*p = -1
	for i := int64(1000); i < 1010; i++ {
		if m.Val(i) != int(i) {
			fail("an old pointer aliases the value of key", i)
		}
	}
}
''')
bug('C14-equal-by-hash','C14','looking up an absent key whose complete first hash equals that of a present key (Equal is false)',
 'Map.Ptr takes keys with the same 64-bit hash for equal without asking Equal',
 [('generic_map.go','Map[K, V]) Ptr','key.Equal(kv.k) {','key.Hash(m.seed, 0) == kv.k.Hash(m.seed, 0) {')],
 HG+'''
func main() {
	m := amt.NewMap[K, int]()
	m.Set(K{1, []uint64{42}}, 1)
	if v, ok := m.Get(K{2, []uint64{42}}); ok {
		fail("absent key found with value", v)
	}
}
''')
bug('C15-long-prefix','C15','string set keys that share their first 32 bytes',
 'StringSet hashes only the first 32 bytes of a key in the first round, so long keys with a common prefix are separated only from level 16 on',
 [('string_set.go','// StringSet contains','// StringSet contains','// strhead returns the part of key which is hashed first; the whole key is hashed for every rehash.\nfunc strhead(key string) string {\n\tif len(key) > 32 {\n\t\treturn key[:32]\n\t}\n\treturn key\n}\n\n// StringSet contains'),
  ('string_set.go','StringSet) Has','hw.WriteString(key)','hw.WriteString(strhead(key))'),
  ('string_set.go','StringSet) Add','hw.WriteString(key)','hw.WriteString(strhead(key))'),
  ('string_set.go','StringSet) Add','for cd := uint8(0); cd <= d; cd += (64 / 4) {','chw.WriteString(strhead(ckey))\n\t\tfor cd := uint8(64 / 4); cd <= d; cd += (64 / 4) {'),
  ('string_set.go','StringSet) Del','hw.WriteString(key)','hw.WriteString(strhead(key))'),
 ],
 H('strings')+'''
func main() {
	s := amt.NewStringSet()
	p := strings.Repeat("x", 100)
	for i := 0; i < 4096; i++ {
		s.Add(p + fmt.Sprint(i))
	}
	if s.Len() != 4096 || s.Dep() > 6 {
		fail("mean depth of 4096 keys is", s.Dep())
	}
}
''')
bug('C17-arr-split-early','C17','a key type whose KeyBytes panics for the resident key while a colliding key is being inserted',
 'ArrMap.Set marks the slot as a branch before it converts the resident key, so a panic in KeyBytes leaves an entry that is read as an array of links',
 [('arr_map.go','ArrMap[K, V]) Set','''		ckb := ckey.KeyBytes()
		var chw maphash.Hash
		chw.SetSeed(m.seed)
''','''		var chw maphash.Hash
		chw.SetSeed(m.seed)
		l.tmap &^= bit
		m.dep -= uint64(d) // conflicting key depth
		ckb := ckey.KeyBytes()
'''),
  ('arr_map.go','		// replace with new branch until non-colliding\n		l.tmap &^= bit','''		// replace with new branch until non-colliding
		l.tmap &^= bit
		m.dep -= uint64(d) // conflicting key depth
''','''		// replace with new branch until non-colliding
''')],
 H()+'''
var limit int

type A [8]byte

func (a A) KeyBytes() (b [64]byte) {
	if int(a[0]) < limit {
		panic("key out of range")
	}
	copy(b[:], a[:])
	return
}
func main() {
	m := amt.NewArrMap[A, string]()
	for i := 0; i < 40; i++ {
		m.Set(A{byte(i)}, fmt.Sprint(i))
	}
	n, dep := m.Len(), m.Dep()
	for i := 40; i < 200; i++ {
		panicked := false
		func() {
			defer func() { panicked = recover() != nil }()
			limit = 40 // the keys stored so far are refused
			m.Set(A{byte(i)}, "new")
		}()
		limit = 0
		if panicked && (m.Len() != n || m.Dep() != dep) {
			fail("a panicking Set changed Len/Dep", n, dep, m.Len(), m.Dep())
		}
		if !panicked {
			m.Del(A{byte(i)})
		}
		for j := 0; j < 40; j++ {
			if v, ok := m.Get(A{byte(j)}); !ok || v != fmt.Sprint(j) {
				fail("a panicking Set lost key", j)
			}
		}
	}
}
''')
bug('C17-iterating','C17','an All callback that panics, followed by deletions that should collapse branches',
 'StringMap counts running iterations and postpones the collapse of branches while one runs; a panicking callback leaves the count raised, so the map never collapses again and Dep and its structure are wrong from then on',
 [('amt.go','type root struct','	_     [3]uint64    // pad to 64-byte alignment','	iters uint64       // running iterations\n	_     [2]uint64    // pad to 64-byte alignment'),
  ('string_map.go','StringMap[V]) Del','for count == 1 && l.pmap == l.tmap && d != 0 {','for count == 1 && l.pmap == l.tmap && d != 0 && m.iters == 0 { // keep the shape during iteration'),
  ('string_map.go','StringMap[V]) All','	stringScan(&m.link, do)','	m.iters++\n	stringScan(&m.link, do)\n	m.iters--')],
 H()+'''
func main() {
	m := amt.NewStringMap[int]()
	for i := 0; i < 500; i++ {
		m.Set(fmt.Sprint(i), i)
	}
	func() {
		defer func() { recover() }()
		m.All(func(k string, v *int) bool { panic("stop") })
	}()
	for i := 1; i < 500; i++ {
		m.Del(fmt.Sprint(i))
	}
	if m.Len() != 1 || m.Dep() != 0 {
		fail("one key left at mean depth", m.Dep())
	}
}
''')
bug('C18-seed-ring','C18','more than 32 containers in one process',
 'newRoot takes its seed from a ring of 32 seeds made at start-up, so containers share seeds and collisions carry over',
 [('amt.go','func newRoot','func newRoot() *root {\n	r := &root{seed: maphash.MakeSeed()}','''// seeds are made once, since making one is slow.
var seeds = func() (s [32]maphash.Seed) {
	for i := range s {
		s[i] = maphash.MakeSeed()
	}
	return
}()

var nextSeed uint32

func newRoot() *root {
	r := &root{seed: seeds[atomic.AddUint32(&nextSeed, 1)%uint32(len(seeds))]}'''),
  ('amt.go','import','	"hash/maphash"\n','	"hash/maphash"\n	"sync/atomic"\n')],
 H()+'''
func order(m amt.IntMap[int]) (s string) {
	m.All(func(k int64, _ *int) bool { s += fmt.Sprint(k, " "); return true })
	return
}
func main() {
	seen := map[string]int{}
	for c := 0; c < 300; c++ {
		m := amt.NewIntMap[int]()
		for i := int64(0); i < 64; i++ {
			m.Set(i, 1)
		}
		if j, ok := seen[order(m)]; ok {
			fail("containers", j, "and", c, "hash with the same seed")
		}
		seen[order(m)] = c
	}
}
''')
bug('C19-pow2','C19','branches with 9 to 12 items',
 'newLinkArray only allocates arrays of 4, 8 or 16 links, so branches of 9 to 12 items take a third more memory than documented',
 [('amt.go','func newLinkArray','	case capacity <= 12:\n		return unsafe.Pointer(new([12]link))\n','')],
 HG.replace('"os"','"os"\n\t"runtime"')+'''
func heap() int64 {
	var ms runtime.MemStats
	best := int64(1) << 60
	for i := 0; i < 4; i++ {
		runtime.GC()
		runtime.ReadMemStats(&ms)
		if int64(ms.HeapAlloc) < best {
			best = int64(ms.HeapAlloc)
		}
	}
	return best
}
func main() {
	const sets = 200
	var keys []K
	for a := 0; a < 16; a++ {
		for b := 0; b < 10; b++ {
			keys = append(keys, K{uint64(a*16 + b), []uint64{uint64(b)<<4 | uint64(a)}})
		}
	}
	all := make([]amt.Set[K], 0, sets)
	h0 := heap()
	for i := 0; i < sets; i++ {
		s := amt.NewSet[K]()
		for _, k := range keys {
			s.Add(k)
		}
		all = append(all, s)
	}
	per := (heap() - h0) / sets
	runtime.KeepAlive(all)
	runtime.KeepAlive(keys)
	// root, 160 entries of 32 bytes, 16 arrays of 12 links
	if want := int64(512 + 160*32 + 16*192); per > want+want/20 {
		fail("a set of 160 keys takes", per, "bytes, the layout needs", want)
	}
}
''')
bug('C11-last-lookup','C11','several goroutines reading one IntMap at the same time',
 'IntMap.Ptr remembers the last value found in the root, so lookups write to the shared map',
 [('amt.go','type root struct','	_     [3]uint64    // pad to 64-byte alignment','	last  unsafe.Pointer // value found last by a lookup\n	lastk int64          // its key\n	_     uint64         // pad to 64-byte alignment'),
  ('int_map.go','IntMap[V]) Ptr','	kb := intbytes(key)\n','	if m.last != nil && m.lastk == int64(key) { // repeated lookup\n		return &(*intkv[V])(m.last).v\n	}\n	kb := intbytes(key)\n'),
  ('int_map.go','IntMap[V]) Ptr','			return &(*intkv[V])(item.ptr).v','			m.last, m.lastk = item.ptr, int64(key)\n			return &(*intkv[V])(item.ptr).v'),
  ('int_map.go','IntMap[V]) Del','	path := m.path[:0]\n','	path := m.path[:0]\n	m.last = nil\n')],
 H('sync')+'''
func main() { // built with the race detector
	m := amt.NewIntMap[int]()
	for i := int64(0); i < 1000; i++ {
		m.Set(i, int(i))
	}
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for r := 0; r < 20; r++ {
				for i := int64(0); i < 1000; i++ {
					if v, ok := m.Get(i); !ok || v != int(i) {
						fail("wrong value", i, v)
					}
				}
			}
		}()
	}
	wg.Wait()
}
''',flags='-race',env='GORACE="halt_on_error=1"')
bug('C08-replace-entry','C08','a pointer held across an overwrite of its key by Set in a BytesMap',
 'BytesMap.Set stores an overwritten value in a new entry, so a held pointer no longer denotes the live value',
 [('bytes_map.go','BytesMap[V]) Set','			ckv.v = value\n			return','			item.ptr = unsafe.Pointer(&byteskv[V]{v: value, k: key})\n			return')],
 H()+'''
func main() {
	m := amt.NewBytesMap[int]()
	m.Set([]byte("k"), 1)
	p := m.Ptr([]byte("k"))
	m.Set([]byte("k"), 2)
	if *p != 2 {
		fail("a held pointer reads", *p, "after an overwrite with 2")
	}
}
''')
bug('C16-readd-replaces','C16','adding a key to a generic Set which already contains an equal but distinguishable key',
 'Set.Add of a present key replaces the retained key by the new, equal one',
 [('generic_set.go','Set[K]) Add','			return','			ckv.k = key\n			return')],
 H('hash/maphash','strings')+'''
type F string // compares case-insensitively

func (a F) Equal(b F) bool { return strings.EqualFold(string(a), string(b)) }
func (a F) Hash(s maphash.Seed, i uint) uint64 {
	return amt.HashBytes([]byte(strings.ToLower(string(a))), s, i)
}
func main() {
	s := amt.NewSet[F]()
	s.Add("Key")
	s.Add("KEY")
	s.All(func(k F) bool {
		if k != "Key" {
			fail("adding a present key replaced the retained key by", k)
		}
		return true
	})
}
''')
bug('C14-string-iter-cap','C14','String keys hashed 65 or more times',
 'String.Hash stops rehashing after 64 iterations, so higher iterations all give the same hash',
 [('string_map.go','String) Hash','	for i := uint(0); i <= iter; i++ {','	for i := uint(0); i <= iter && i < 64; i++ {')],
 H('hash/maphash')+'''
func main() {
	s := maphash.MakeSeed()
	for i := uint(0); i < 200; i++ {
		if amt.String("key").Hash(s, i) != amt.HashBytes([]byte("key"), s, i) {
			fail("String.Hash and HashBytes differ for iteration", i)
		}
		if i > 0 && amt.String("key").Hash(s, i) == amt.String("key").Hash(s, i-1) {
			fail("iterations", i-1, "and", i, "hash equally")
		}
	}
}
''')

bug('C20-mod-restores-len','C20','the callback of StringMap.Mod on a present key inserts or deletes other keys',
 'Mod restores the entry count it saw before the callback, so keys inserted or deleted by the callback are not counted',
 [('string_map.go','StringMap[V]) Mod','			mod(&ckv.v, true)\n			return','			n, dep := m.len, m.dep\n			mod(&ckv.v, true)\n			m.len, m.dep = n, dep // an update adds no entry\n			return')],
 H()+'''
func main() {
	m := amt.NewStringMap[int]()
	m.Set("a", 1)
	m.Mod("a", func(v *int, ok bool) { m.Set("b", 2); m.Set("c", 3) })
	if m.Len() != 3 {
		fail("Len is", m.Len(), "with 3 keys present")
	}
}
''')
bug('C20-mod-relinks','C20','the callback of ArrMap.Mod on a present key inserts or deletes keys so that the items of that level move',
 'Mod stores the entry back into the slot it found it in before the callback, which may hold another entry by then',
 [('arr_map.go','ArrMap[K, V]) Mod','			mod(&ckv.v, true)\n			return','			mod(&ckv.v, true)\n			item.ptr = unsafe.Pointer(ckv)\n			return')],
 H()+'''
type K uint64

func (k K) KeyBytes() (b [64]byte) {
	for i := 0; i < 8; i++ {
		b[i] = byte(k >> (8 * i))
	}
	return
}

func main() {
	for t := 0; t < 300; t++ {
		m := amt.NewArrMap[K, int]()
		for i := 0; i < 8; i++ {
			m.Set(K(i), i)
		}
		for i := 0; i < 8; i++ {
			m.Mod(K(i), func(v *int, ok bool) {
				for j := 8; j < 12; j++ {
					m.Set(K(j+100*i), j)
				}
				for j := 0; j < i; j++ {
					m.Del(K(j))
				}
			})
			for j := i; j < 8; j++ {
				if v, ok := m.Get(K(j)); !ok || v != j {
					fail("key", j, "lost:", v, ok)
				}
			}
		}
		n := uint(0)
		m.All(func(k K, v *int) bool { n++; return true })
		if n != m.Len() {
			fail(n, "entries visited, Len is", m.Len())
		}
	}
}
''')
bug('C20-finger-path','C20','a user-defined Equal or Hash method looks something up in the same map while Del is running',
 'Ptr records the path it takes in the scratch that Del uses, so that a lookup from inside a deletion misleads the deletion',
 [('generic_map.go','Map[K, V]) Ptr','		if l.tmap&bit == 0 { // traverse branch','		if int(d) < len(m.path) {\n			m.path[d] = pathLink{radix, l} // finger\n		}\n		if l.tmap&bit == 0 { // traverse branch')],
 HG+'''
var inside func()

type L struct{ K }

func (k L) Equal(o L) bool {
	if f := inside; f != nil {
		inside = nil
		f()
	}
	return k.id == o.id
}

func main() {
	for t := uint64(0); t < 200; t++ {
		m := amt.NewMap[L, uint64]()
		key := func(i uint64) L { return L{K{i, []uint64{mix(i*97 + t)}}} }
		for i := uint64(0); i < 60; i++ {
			m.Set(key(i), i)
		}
		for i := uint64(0); i < 59; i++ {
			inside = func() { m.Get(key(59)) }
			m.Del(key(i))
			inside = nil
			for j := i + 1; j < 60; j++ {
				if v, ok := m.Get(key(j)); !ok || v != j {
					fail("key", j, "lost by the deletion of key", i)
				}
			}
		}
	}
}
''')

bug('C03-signed-rounds','C03','setting a string that collides with an entry at level 128 or deeper, that is after eight complete hash collisions',
 'StringMap.Set counts the rehash rounds of the conflicting key in a signed byte, so from level 128 on the conflicting key is not hashed at all and is moved to a wrong place',
 [('string_map.go','StringMap[V]) Set','		for cd := uint8(0); cd <= d; cd += (64 / 4) {','		for cd := int8(0); cd <= int8(d) && cd >= 0; cd += (64 / 4) {')],
 H('hash/maphash')+'''
func main() {
	// three keys collide on nine complete hashes and are told apart by the tenth
	maphash.WeakenBytes = func(b []byte, h uint64) uint64 {
		if len(b) <= 9*8 {
			return uint64(len(b))
		}
		return h
	}
	for t := 0; t < 50; t++ {
		m := amt.NewStringMap[int]()
		for i := 0; i < 40; i++ {
			m.Set(fmt.Sprintf("key%05d", i), i)
			for j := 0; j <= i; j++ {
				if v, ok := m.Get(fmt.Sprintf("key%05d", j)); !ok || v != j {
					fail("key", j, "is lost after inserting key", i)
				}
			}
		}
	}
}
''',over=True)
bug('C18-reseed-empty','C18','a StringMap that is emptied and filled again',
 'StringMap.Del picks a new hash seed when the last entry goes, so the seed does not stay the same for the lifetime of the map',
 [('string_map.go','StringMap[V]) Del','		m.len--\n','		if m.len--; m.len == 0 {\n			m.seed = maphash.MakeSeed() // nothing depends on the old seed\n		}\n')],
 H()+'''
func main() {
	for t := 0; t < 5; t++ {
		m := amt.NewStringMap[int]()
		order := func() (s string) {
			for i := 0; i < 100; i++ {
				m.Set(fmt.Sprint("k", i), i)
			}
			m.All(func(k string, _ *int) bool { s += k + " "; return true })
			return
		}
		a := order()
		for i := 0; i < 100; i++ {
			m.Del(fmt.Sprint("k", i))
		}
		if b := order(); a != b {
			fail("the order of the same keys changed after the map had been empty")
		}
	}
}
''')
bug('C01-long-equal','C01','two BytesMap keys of equal length which differ only behind the first 64 KB and collide',
 'BytesMap.Set and Ptr hash and compare only the first 64 KB of keys of equal length, so two long keys are taken for one',
 [('bytes_map.go','BytesMap[V]) Set','	hw.Write(key)\n	hd','	hw.Write(head(key))\n	hd'),
  ('bytes_map.go','BytesMap[V]) Set','bytes.Equal(ckey, key)','len(ckey) == len(key) && bytes.Equal(head(ckey), head(key))'),
  ('bytes_map.go','BytesMap[V]) Ptr','	hw.Write(key)\n	hd','	hw.Write(head(key))\n	hd'),
  ('bytes_map.go','BytesMap[V]) Ptr','bytes.Equal(kv.k, key)','len(kv.k) == len(key) && bytes.Equal(head(kv.k), head(key))'),
  ('bytes_map.go','','// NewBytesMap returns','func head(k []byte) []byte {\n	if len(k) > 1<<16 {\n		k = k[:1<<16]\n	}\n	return k\n}\n\n// NewBytesMap returns'),
 ],
 H()+'''
func main() {
	m := amt.NewBytesMap[int]()
	a, b := make([]byte, 70000), make([]byte, 70000)
	b[69999] = 1
	m.Set(a, 1)
	m.Set(b, 2)
	if v, ok := m.Get(a); !ok || v != 1 || m.Len() != 2 {
		fail("two keys of 70000 bytes were merged:", v, ok, m.Len())
	}
}
''')
bug('C17-goexit','C17','the callback of IntMap.Mod on an absent key ends its goroutine (runtime.Goexit) instead of panicking',
 'Mod links the new entry before it calls the callback and removes it in a recover, which does not see Goexit, so the key stays behind',
 [('int_map.go','IntMap[V]) Mod','	val := &intkv[V]{}\n	mod(&val.v, false)\n	count := uint8','	val := &intkv[V]{}\n	defer func() {\n		if e := recover(); e != nil {\n			m.Del(key) // undo\n			panic(e)\n		}\n	}()\n	defer mod(&val.v, false)\n	count := uint8')],
 H('runtime')+'''
func main() {
	m := amt.NewIntMap[int]()
	m.Set(1, 1)
	done := make(chan bool)
	go func() {
		defer close(done)
		m.Mod(2, func(v *int, ok bool) { runtime.Goexit() })
	}()
	<-done
	if _, ok := m.Get(2); ok || m.Len() != 1 {
		fail("a Mod that did not complete left its key behind, Len is", m.Len())
	}
}
''')
bug('C11-last-hit','C11','two goroutines looking up different keys of one StringMap, interleaved between the two atomic stores of a lookup',
 'Ptr remembers the last hit in two separate atomic fields, so that concurrent lookups can leave the key of one with the entry of the other, which the next lookup returns',
 [('amt.go','','	_     [3]uint64    // pad to 64-byte alignment','	lastH atomic.Uint64                // hash of the key found last\n	lastE atomic.Pointer[byte]         // its entry\n	_     [1]uint64                    // pad to 64-byte alignment'),
  ('amt.go','','	"math/bits"\n' if False else 'import (','import (\n	"sync/atomic"'),
  ('string_map.go','StringMap[V]) Ptr','	hd, l, d := hw.Sum64(), &m.link, uint8(0)','	hd, l, d := hw.Sum64(), &m.link, uint8(0)\n	h0 := hd\n	if m.lastH.Load() == h0 {\n		if e := (*strkv[V])(unsafe.Pointer(m.lastE.Load())); e != nil && len(e.k) == len(key) {\n			return &e.v\n		}\n	}'),
  ('string_map.go','StringMap[V]) Ptr','			return &kv.v','			m.lastH.Store(h0)\n			m.lastE.Store((*byte)(unsafe.Pointer(kv)))\n			return &kv.v'),
  ('string_map.go','StringMap[V]) Del','	path := m.path[:0]','	m.lastE.Store(nil)\n	path := m.path[:0]'),
  ],
 H('sync','sync/atomic')+'''
func main() {
	var bad atomic.Int64
	m := amt.NewStringMap[int]()
	for i := 0; i < 100; i++ {
		m.Set(fmt.Sprintf("k%03d", i), i)
	}
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 2000000 && bad.Load() == 0; n++ {
				i := (n/2 + g) % 2
				if v, ok := m.Get([]string{"k001", "k002"}[i]); !ok || v != i+1 {
					bad.Add(1)
				}
			}
		}()
	}
	wg.Wait()
	if bad.Load() > 0 {
		fail("a concurrent reader was given the value of another key")
	}
}
''')
bug('C13-array-pool','C13','a StringSet deletion that moves a branch to a smaller array, and no later use of a recycled array',
 'arrays given up by deletions are kept in a free list for reuse without being cleared, so the deleted keys in them stay reachable',
 [('amt.go','','const linkSize','// free holds arrays of 8 links for reuse.\nvar (\n	freeMu sync.Mutex\n	free   []unsafe.Pointer\n)\n\nconst linkSize'),
  ('amt.go','','import (','import (\n	"sync"'),
  ('amt.go','func newLinkArray','	case capacity <= 8:','	case capacity <= 8:\n		freeMu.Lock()\n		defer freeMu.Unlock()\n		if n := len(free); n > 0 {\n			p := free[n-1]\n			free = free[:n-1]\n			*(*[8]link)(p) = [8]link{}\n			return p\n		}'),
  ('string_set.go','StringSet) Del','		for after := idx; after < count; after++ {','		if l.ptr != src && count == 4 {\n			defer func() {\n				freeMu.Lock()\n				if len(free) < 16 {\n					free = append(free, src)\n				}\n				freeMu.Unlock()\n			}()\n		}\n		for after := idx; after < count; after++ {')],
 H('runtime','weak','unsafe')+'''
func main() {
	s := amt.NewStringSet()
	var w []weak.Pointer[byte]
	func() {
		for i := 0; i < 3000; i++ {
			b := []byte(fmt.Sprintf("a key with its own memory %d", i))
			w = append(w, weak.Make(&b[0]))
			s.Add(unsafe.String(&b[0], len(b)))
		}
		for i := 0; i < 3000; i++ {
			s.Del(fmt.Sprintf("a key with its own memory %d", i))
		}
	}()
	for i := 0; i < 5; i++ {
		runtime.GC()
	}
	n := 0
	for i := range w {
		if w[i].Value() != nil {
			n++
		}
	}
	if n > 0 {
		fail(n, "deleted keys are still reachable")
	}
	runtime.KeepAlive(s)
}
''')
bug('C12-uintptr-src','C12','a garbage collection while ArrMap.Set copies a full branch into a larger array',
 'the old link array is referenced only by an integer while its items are copied, so the collector may free it meanwhile',
 [('arr_map.go','ArrMap[K, V]) Set','		src := l.ptr\n','		src := uintptr(l.ptr)\n'),
  ('arr_map.go','ArrMap[K, V]) Set','uintptr(src) + uintptr(before)','src + uintptr(before)'),
  ('arr_map.go','ArrMap[K, V]) Set','uintptr(src) + uintptr(after)','src + uintptr(after)')],
 H()+'''
type K uint64

func (k K) KeyBytes() (b [64]byte) {
	for i := 0; i < 8; i++ {
		b[i] = byte(k >> (8 * i))
	}
	return
}

func main() {
	m := amt.NewArrMap[K, *int]()
	for i := 0; i < 5000; i++ { // built with -d=checkptr=2
		m.Set(K(i), &[]int{i}[0])
	}
	for i := 0; i < 5000; i++ {
		if v, ok := m.Get(K(i)); !ok || *v != i {
			fail("key", i)
		}
	}
}
''',flags="-gcflags=all=-d=checkptr=2")
bug('C19-cached-hash','C19','StringMap values for which the additional field moves the entry to a larger size class',
 'StringMap entries carry an additional cached hash, so that an entry takes more memory than the documented key and value',
 [('string_map.go','type strkv','	v V\n	k string\n','	v V\n	k string\n	h uint64 // first hash of k\n'),
  ('string_map.go','StringMap[V]) Set','kv := &strkv[V]{value, key}','kv := &strkv[V]{value, key, hd}')],
 H('runtime')+'''
func main() {
	heap := func() uint64 {
		var s runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&s)
		return s.HeapAlloc
	}
	keys := make([]string, 100000)
	for i := range keys {
		keys[i] = fmt.Sprint("key", i)
	}
	a := heap()
	m := amt.NewStringMap[int]()
	for i, k := range keys {
		m.Set(k, i)
	}
	b := heap()
	if per := float64(b-a) / 1e5; per > 60 { // 24 for key and value, 16 and a half for the link, branches
		fail("an entry takes", per, "bytes")
	}
	runtime.KeepAlive(m)
	runtime.KeepAlive(keys)
}
''')
bug('C15-overlap','C15','several entries per branch: the expected depth is a third above log16(N)',
 'IntSet takes the next digit after only three of the four bits, so digits overlap and tell keys apart less well; the set stays consistent in itself',
 [('int_set.go','IntSet) Has','				hd >>= 4','				hd >>= 3'),
  ('int_set.go','IntSet) Add','				hd >>= 4','				hd >>= 3'),
  ('int_set.go','IntSet) Add','>> (4 * (d % (64 / 4)))','>> (3 * (d % (64 / 4)))'),
  ('int_set.go','IntSet) Add','				hd >>= 4\n				chd >>= 4','				hd >>= 3\n				chd >>= 3'),
  ('int_set.go','IntSet) Del','				hd >>= 4','				hd >>= 3')],
 H('math')+'''
func main() {
	s := amt.NewIntSet()
	for i := 0; i < 100000; i++ {
		s.Add(amt.IntKey(i))
	}
	if d := s.Dep(); d > math.Log(100000)/math.Log(16)+0.6 {
		fail("mean depth", d)
	}
}
''')
bug('C08-all-copy','C08','a pointer obtained from IntMap.All used after the callback returned, or the value changed by other means inside the callback',
 'IntMap.All hands the callback a pointer to a copy of the value and stores it back afterwards, so a retained pointer is not bound to the key and nested updates are lost',
 [('int_map.go','uint8(bits.TrailingZeros32(pmap))','!do(k, ','!doCopy(do, k, ') ,
  ('int_map.go','func intScan','func intScan','func doCopy[V any](do func(IntKey, *V) bool, k IntKey, p *V) bool {\n	v := *p\n	ok := do(k, &v)\n	*p = v\n	return ok\n}\n\nfunc intScan')],
 H()+'''
func main() {
	m := amt.NewIntMap[int]()
	m.Set(1, 1)
	var p *int
	m.All(func(k amt.IntKey, v *int) bool { p = v; *v = 2; return true })
	*p = 3
	if m.Val(1) != 3 || m.Ptr(1) != p {
		fail("a pointer from All is not bound to its key:", m.Val(1))
	}
}
''')
bug('C19-root-path','C19','many small containers',
 'the root keeps scratch space for the deepest possible path, so that every container takes several times the documented 512 bytes',
 [('amt.go','type root','path  [12]pathLink','path  [256]pathLink')],
 H('runtime')+'''
func main() {
	heap := func() uint64 {
		var s runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&s)
		return s.HeapAlloc
	}
	sets := make([]amt.IntSet, 10000)
	a := heap()
	for i := range sets {
		sets[i] = amt.NewIntSet()
		sets[i].Add(1)
	}
	b := heap()
	if per := float64(b-a) / 1e4; per > 600 {
		fail("a set with one key takes", per, "bytes")
	}
	runtime.KeepAlive(sets)
}
''')
bug('C09-shared-path','C09','the Equal method of a key, called by a deletion from one map, deletes from another map of the same type',
 'Map.Del keeps its traversal path in a package-level array, so a deletion from another map inside a key method misleads it',
 [('generic_map.go','type Map[','type Map[','// delPath is scratch space for the traversal path during deletion.\nvar delPath [12]pathLink\n\ntype Map['),
  ('generic_map.go','Map[K, V]) Del','path := m.path[:0]','path := delPath[:0]'),
  ('generic_map.go','Map[K, V]) Del','m.path = [len(m.path)]pathLink{}','delPath = [len(delPath)]pathLink{}'),
 ],
 H('hash/maphash')+'''
type K int

var hook func()

func (k K) Equal(o K) bool {
	if h := hook; h != nil {
		hook = nil
		h()
	}
	return k == o
}
func (k K) Hash(_ maphash.Seed, i uint) uint64 {
	switch {
	case k < 100:
		return uint64(k) // 4 and below share no digit
	case i == 0:
		return uint64(k&3) << 24 // separated at level 6
	}
	return uint64(k)
}

func main() {
	a, b := amt.NewMap[K, int](), amt.NewMap[K, int]()
	for _, k := range []K{1, 2, 17, 33, 100, 101} {
		a.Set(k, int(k))
		b.Set(k, int(k))
	}
	hook = func() { b.Del(17) }
	a.Del(101)
	for _, k := range []K{1, 2, 17, 33, 100, 101} {
		_, inA := a.Get(k)
		_, inB := b.Get(k)
		if inA != (k != 101) || inB != (k != 17) {
			fail("key", k, inA, inB)
		}
	}
	if a.Len() != 5 || b.Len() != 5 {
		fail("Len", a.Len(), b.Len())
	}
	// only the content counts: a and b as built directly
	c := amt.NewMap[K, int]()
	d := amt.NewMap[K, int]()
	for _, k := range []K{1, 2, 17, 33, 100, 101} {
		if k != 101 {
			c.Set(k, 1)
		}
		if k != 17 {
			d.Set(k, 1)
		}
	}
	if a.Dep() != c.Dep() || b.Dep() != d.Dep() {
		fail("Dep", a.Dep(), c.Dep(), b.Dep(), d.Dep())
	}
}
''')
TIMED='''
// least runs f several times and returns the shortest duration.
func least(f func(i int)) time.Duration {
	best := time.Hour
	for i := 0; i < 40; i++ {
		t := time.Now()
		f(i)
		if d := time.Since(t); d < best {
			best = d
		}
	}
	return best
}
'''
bug('C21-len-walk','C21','a container with many entries',
 'Len and Dep walk the whole trie instead of reading counters, so their cost grows with the number of entries',
 [('amt.go','func (r *root) Len()','return uint(r.len)','n := uint(0)\n\twalkEntries(&r.link, 0, func(uint64) { n++ })\n\treturn n'),
  ('amt.go','// Dep returns','// Dep returns','''// walkEntries calls f with the depth of each entry below l.
func walkEntries(l *link, d uint64, f func(uint64)) {
	i := uintptr(0)
	for bit := uint32(1); bit <= l.pmap; bit <<= 1 {
		if l.pmap&bit == 0 {
			continue
		}
		if l.tmap&bit != 0 {
			f(d)
		} else {
			walkEntries((*link)(unsafe.Pointer(uintptr(l.ptr)+i*linkSize)), d+1, f)
		}
		i++
	}
}

// Dep returns'''),
  ('amt.go','func (r *root) Dep()','return float64(r.dep) / float64(r.len)','dep := uint64(0)\n\twalkEntries(&r.link, 0, func(d uint64) { dep += d })\n\treturn float64(dep) / float64(r.len)'),
 ],
 H('time')+TIMED+'''
func main() {
	m := amt.NewIntMap[int]()
	for i := 0; i < 200000; i++ {
		m.Set(int64(i), i)
	}
	if d := least(func(int) { m.Len() }); d > 100*time.Microsecond {
		fail("Len takes", d)
	}
	if d := least(func(int) { m.Dep() }); d > 100*time.Microsecond {
		fail("Dep takes", d)
	}
}
''')
bug('C21-all-snapshot','C21','an iteration over a large map that is stopped early',
 'StringMap.All first collects all entries in a slice and then visits them, so even an iteration stopped at once costs time and memory in proportion to the size of the map',
 [('string_map.go','StringMap[V]) All','stringScan(&m.link, do)','''entries := make([]*strkv[V], 0, m.len) // the entries at the time of the call
	stringScan(&m.link, &entries)
	for _, kv := range entries {
		if !do(kv.k, &kv.v) {
			return
		}
	}'''),
  ('string_map.go','func stringScan','func stringScan[V any](l *link, do func(string, *V) bool) bool {','func stringScan[V any](l *link, entries *[]*strkv[V]) {'),
  ('string_map.go','func stringScan','''			kv := (*strkv[V])(item.ptr)
			if !do(kv.k, &kv.v) {
				return false
			}
		} else if !stringScan(item, do) {
			return false
		}
		pmap &^= bit
	}
	return true
''','''			*entries = append(*entries, (*strkv[V])(item.ptr))
		} else {
			stringScan(item, entries)
		}
		pmap &^= bit
	}
'''),
 ],
 H('time')+TIMED+'''
func main() {
	m := amt.NewStringMap[int]()
	for i := 0; i < 200000; i++ {
		m.Set(fmt.Sprint(i), i)
	}
	if d := least(func(int) { m.All(func(string, *int) bool { return false }) }); d > 100*time.Microsecond {
		fail("an iteration stopped at the first entry takes", d)
	}
}
''')
bug('C21-recount','C21','a deletion from a large BytesMap that leaves a branch with a single entry',
 'BytesMap.Del recomputes the sum of depths with a walk over the whole map when a branch collapses, so some deletions cost time in proportion to the size of the map',
 [('bytes_map.go','BytesMap[V]) Del','		for count == 1 && l.pmap == l.tmap && d != 0 {\n			*l = *(*link)(l.ptr)\n			m.dep--\n','		collapsed := false\n		for count == 1 && l.pmap == l.tmap && d != 0 {\n			*l = *(*link)(l.ptr)\n			collapsed = true\n'),
  ('bytes_map.go','BytesMap[V]) Del','		break // item removed','		if collapsed {\n			m.dep = bytesDepth(&m.link, 0)\n		}\n		break // item removed'),
  ('bytes_map.go','func bytesScan','func bytesScan','''// bytesDepth returns the sum of the depths of all entries below l, which is at depth d.
func bytesDepth(l *link, d uint64) (sum uint64) {
	i := uintptr(0)
	for bit := uint32(1); bit <= l.pmap; bit <<= 1 {
		if l.pmap&bit == 0 {
			continue
		}
		if l.tmap&bit != 0 {
			sum += d
		} else {
			sum += bytesDepth((*link)(unsafe.Pointer(uintptr(l.ptr)+i*linkSize)), d+1)
		}
		i++
	}
	return sum
}

func bytesScan'''),
 ],
 H('time')+TIMED+'''
func main() {
	m := amt.NewBytesMap[int]()
	for i := 0; i < 100000; i++ {
		m.Set([]byte(fmt.Sprint(i)), i)
	}
	for i := 0; i < 2000; i++ {
		k := []byte(fmt.Sprint(i))
		d := time.Hour
		for j := 0; j < 12; j++ {
			t := time.Now()
			m.Del(k)
			if e := time.Since(t); e < d {
				d = e
			}
			m.Set(k, i)
		}
		if d > 100*time.Microsecond {
			fail("the deletion of", i, "takes", d)
		}
	}
}
''')
bug('C13-deep-path','C13','a generic set deletion more than 12 levels deep, followed by a shallower one in the same branch which shrinks its array',
 'Set.Del keeps the grown deletion path for reuse without clearing it, so replaced arrays and the deleted keys in them stay alive',
 [('amt.go','type root struct','_     [3]uint64    // pad to 64-byte alignment','deep  []pathLink   // deletion path that outgrew path, kept for reuse (24 bytes, which pad to 64-byte alignment)'),
  ('generic_set.go','Set[K]) Del','path := s.path[:0]','path := s.path[:0]\n	if s.deep != nil {\n		path = s.deep[:0]\n	}'),
  ('generic_set.go','Set[K]) Del','	// clear the path to prevent leaks','	if cap(path) > len(s.path) {\n		s.deep = path\n	}\n	// clear the path to prevent leaks'),
 ],
 HG.replace('\t"os"\n','\t"os"\n\t"runtime"\n\t"time"\n')+'''
func main() {
	s := amt.NewSet[K]()
	freed := make(chan bool, 1)
	func() {
		key := func(id uint64, d20, d22 uint64) K { // equal digits up to level 19
			return K{id, []uint64{0, d20<<16 | d22<<24}}
		}
		x := key(4, 1, 0)
		keys := []K{key(1, 0, 1), key(2, 0, 2), key(3, 0, 3), x, key(5, 2, 0), key(6, 3, 0), key(7, 4, 0)}
		for _, k := range keys {
			s.Add(k)
		}
		runtime.SetFinalizer(&x.h[0], func(*uint64) { freed <- true })
		s.Del(keys[0]) // level 22
		s.Del(x)       // level 20: the branch moves to a smaller array
	}()
	func() { var a [4096]byte; fmt.Sprint(a[:64]) }()
	for i := 0; i < 4; i++ {
		runtime.GC()
	}
	select {
	case <-freed:
	case <-time.After(5 * time.Second):
		fail("the deleted key is still reachable")
	}
	if s.Len() != 5 {
		fail("Len", s.Len())
	}
	runtime.KeepAlive(s)
}
''')
bug('C13-root-slab','C13','a dropped container while another one created next to it is in use',
 'newRoot takes roots from slabs of eight, so a container that is no longer used stays alive with all its content as long as a neighbour does',
 [('amt.go','func newRoot()','func newRoot() *root {\n	r := &root{seed: maphash.MakeSeed()}','''// roots is the unused rest of the current slab.
var roots struct {
	sync.Mutex
	slab []root
}

func newRoot() *root {
	roots.Lock()
	if len(roots.slab) == 0 {
		roots.slab = make([]root, 8)
	}
	r := &roots.slab[0]
	roots.slab = roots.slab[1:]
	roots.Unlock()
	r.seed = maphash.MakeSeed()'''),
  ('amt.go','import (','"hash/maphash"','"hash/maphash"\n	"sync"')],
 H('runtime','time')+'''
func main() {
	freed := make(chan bool, 100)
	keep := amt.NewIntMap[*[100]int]()
	func() {
		for i := 0; i < 20; i++ {
			m := amt.NewIntMap[*[100]int]()
			v := new([100]int)
			runtime.SetFinalizer(v, func(*[100]int) { freed <- true })
			m.Set(1, v)
		}
	}()
	for i := 0; i < 20; i++ {
		runtime.GC()
		runtime.GC()
		select {
		case <-freed:
		case <-time.After(5 * time.Second):
			fail("the content of", 20-i, "of 20 dropped maps is still alive")
		}
	}
	runtime.KeepAlive(keep)
}
''')
bug('C01-skip-equal','C01','a float value overwritten by one which == does not tell apart from it (0 and -0)',
 'IntMap.Set does not store a value which compares equal to the present one, so -0 does not replace 0',
 [('int_map.go','IntMap[V]) Set','cval.v = value','if t := reflect.TypeOf(value); t != nil && t.Comparable() && any(cval.v) == any(value) {\n				return // nothing to do\n			}\n			cval.v = value'),
  ('int_map.go','import (','"math/bits"','"math/bits"\n	"reflect"')],
 H('math')+'''
func main() {
	m := amt.NewIntMap[float64]()
	m.Set(1, 0)
	m.Set(1, math.Copysign(0, -1))
	if v, ok := m.Get(1); !ok || !math.Signbit(v) {
		fail("value is", v, "want -0")
	}
}
''')
bug('C02-ends-equal','C02','two strings of equal length above 16 which differ only in the middle, and whose first hash digits agree',
 'StringSet.Add compares only the first and the last eight bytes of longer keys with a present key of equal length, so a key that differs in the middle is taken for present',
 [('string_set.go','StringSet) Add','ckey == key {','sameString(ckey, key) {'),
  ('string_set.go','// StringSet contains','// StringSet contains','''// sameString reports whether a and b are equal.
func sameString(a, b string) bool {
	n := len(a)
	if n != len(b) {
		return false
	}
	if n <= 16 {
		return a == b
	}
	return a[:8] == b[:8] && a[n-8:] == b[n-8:]
}

// StringSet contains''')],
 H('strings')+'''
func main() {
	s := amt.NewStringSet()
	x := strings.Repeat("x", 20)
	for i := 0; i < 500; i++ {
		s.Add(fmt.Sprint(x, 100+i, x))
	}
	for i := 0; i < 500; i++ {
		if !s.Has(fmt.Sprint(x, 100+i, x)) {
			fail("key lost:", 100+i)
		}
	}
}
''')
bug('C01-same-start','C01','two strings which begin at the same byte of memory but differ in length (a string and its own prefix)',
 'StringMap.Ptr takes two keys for equal when they begin at the same address, without comparing their lengths',
 [('string_map.go','StringMap[V]) Ptr','kv.k == key','(kv.k == key || len(key) > 0 && len(kv.k) > 0 && *(*uintptr)(unsafe.Pointer(&kv.k)) == *(*uintptr)(unsafe.Pointer(&key)))')],
 H('strings')+'''
func main() {
	s := strings.Repeat("x", 2000)
	m := amt.NewStringMap[int]()
	for n := 1000; n < 2000; n++ {
		m.Set(s[:n], n)
	}
	for n := 1; n < 1000; n++ {
		if p := m.Ptr(s[:n]); p != nil {
			fail("absent key of length", n, "found, value", *p)
		}
	}
}
''')
bug('C02-same-array','C02','two byte slices which begin at the same array element but differ in length',
 'BytesSet.Add takes two keys for equal when they begin at the same address, without comparing their lengths',
 [('bytes_set.go','BytesSet) Add','bytes.Equal(','len(key) > 0 && len(ckey) > 0 && &key[0] == &ckey[0] || bytes.Equal(')],
 H('bytes')+'''
func main() {
	b := bytes.Repeat([]byte{'x'}, 2000)
	s := amt.NewBytesSet()
	for n := 1; n <= 2000; n++ {
		s.Add(b[:n])
	}
	if s.Len() != 2000 {
		fail("Len is", s.Len(), "want 2000")
	}
}
''')
bug('C14-append-iter','C14','a key slice with spare capacity, hashed past the first rehash (iter above 0): the bytes behind the key change',
 'HashBytes appends the iteration to the key in place, which overwrites the byte behind the key in its array',
 [('generic_map.go','func HashBytes','		hw.Write(key)\n','		if i == 0 || i > 255 {\n			hw.Write(key)\n		} else { // a different hash in each round\n			hw.Write(append(key, byte(i)))\n		}\n')],
 H('hash/maphash')+'''
func main() {
	b := []byte("key and more")
	seed := maphash.MakeSeed()
	for i := uint(0); i < 100; i++ {
		amt.HashBytes(b[:3], seed, i)
	}
	if string(b) != "key and more" {
		fail("array changed:", string(b))
	}
}
''')
SEEDKEY='''
var last maphash.Seed

type key int

func (k key) Equal(o key) bool { return k == o }
func (k key) Hash(seed maphash.Seed, iter uint) uint64 {
	last = seed
	return uint64(k) + uint64(iter)*0x9e3779b97f4a7c15
}
'''
bug('C18-seed-counter','C18','thousands of containers, or a look at the bits of the seed that user keys are given',
 'newRoot derives seeds from one random start by counting, so the seed of one container tells that of all others',
 [('amt.go','','func newRoot() *root {\n	r := &root{seed: maphash.MakeSeed()}\n','''// seedBase and seedNext save a call into the runtime for every container.
var (
	seedBase = func() uint64 { s := maphash.MakeSeed(); return *(*uint64)(unsafe.Pointer(&s)) }()
	seedNext atomic.Uint64
)

func newRoot() *root {
	s := seedBase + seedNext.Add(1)*2
	r := &root{seed: *(*maphash.Seed)(unsafe.Pointer(&s))}
'''),('amt.go','import (','"hash/maphash"','"hash/maphash"\n	"sync/atomic"')],
 H('hash/maphash','unsafe')+SEEDKEY+'''
func main() {
	near, prev := 0, uint64(0)
	for i := 0; i < 100; i++ {
		m := amt.NewMap[key, int]()
		m.Set(1, 1)
		s := *(*uint64)(unsafe.Pointer(&last))
		if d := s - prev; i > 0 && (d < 1000 || -d < 1000) {
			near++
		}
		prev = s
	}
	if near > 0 {
		fail(near, "of 100 seeds are a small step from the one before")
	}
}
''')
bug('C18-seed-recycled','C18','a container that has been collected before another one is created',
 'newRoot takes the seed of a container that has been collected, when there is one, instead of a fresh one',
 [('amt.go','','func newRoot() *root {\n	r := &root{seed: maphash.MakeSeed()}\n','''// seedPool holds the seeds of containers which are gone.
var seedPool sync.Pool

func newRoot() *root {
	r := &root{}
	if s, ok := seedPool.Get().(*maphash.Seed); ok {
		r.seed = *s
	} else {
		r.seed = maphash.MakeSeed()
	}
	s := r.seed
	runtime.SetFinalizer(r, func(*root) { seedPool.Put(&s) })
'''),('amt.go','import (','"hash/maphash"','"hash/maphash"\n	"runtime"\n	"sync"')],
 H('hash/maphash','runtime','time')+SEEDKEY+'''
func main() {
	seen := map[maphash.Seed]bool{}
	for round := 0; round < 20; round++ {
		for i := 0; i < 200; i++ {
			m := amt.NewMap[key, int]()
			m.Set(1, 1)
			if seen[last] {
				fail("a seed occurred twice, in round", round)
			}
			seen[last] = true
		}
		runtime.GC()
		time.Sleep(10 * time.Millisecond)
	}
}
''')
bug('C19-root-slots','C19','many containers of 13 to 19 keys: the array beside the root is a constant that large containers hide',
 'StringMap.Mod does not use the 16 items inside the root but allocates an array beside it, so a small map takes up to half as much again as documented',
 [('string_map.go','StringMap[V]) Mod','(count != 0 && count%4 != 0) || d == 0 {','count != 0 && count%4 != 0 {')],
 H('runtime')+'''
func main() {
	const n = 4000
	var ms [n]amt.StringMap[int]
	var keys []string
	for i := 0; i < 13; i++ {
		keys = append(keys, fmt.Sprint("key ", i))
	}
	heap := func() int64 {
		var s runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&s)
		return int64(s.HeapAlloc)
	}
	fill := func(f func(m amt.StringMap[int], k string)) int64 {
		h := heap()
		for i := range ms {
			ms[i] = amt.NewStringMap[int]()
			for _, k := range keys {
				f(ms[i], k)
			}
		}
		h = heap() - h
		runtime.KeepAlive(&ms)
		clear(ms[:])
		return h / n
	}
	a := fill(func(m amt.StringMap[int], k string) { m.Set(k, 1) })
	b := fill(func(m amt.StringMap[int], k string) { m.Mod(k, func(p *int, _ bool) { *p = 1 }) })
	if b > a+60 {
		fail("a map of 13 keys takes", b, "bytes if filled by Mod, and", a, "if filled by Set")
	}
}
''')
bug('C15-mod-rehash','C15','Mod of a key at depth d>0 in a generic map, counting hash computations',
 'Map.Mod hashes the key again at every level instead of once per 16 levels',
 [('generic_map.go','Map[K, V]) Mod','if d&0xF != 0 { // hash bits available\n\t\t\t\thd >>= 4\n\t\t\t} else { // rehash\n\t\t\t\thd = key.Hash(m.seed, uint(d>>4))\n\t\t\t}','hd = key.Hash(m.seed, uint(d>>4)) >> (4 * (d & 0xF))')],
 HG.replace('''func (k K) Hash(_ maphash.Seed, iter uint) uint64 {
''','''
var calls int

func (k K) Hash(_ maphash.Seed, iter uint) uint64 {
	calls++
''')+'''
func main() {
	for n := 16; n <= 1<<20; n *= 16 {
		s := amt.NewMap[K, int]()
		for i := 0; i < n; i++ {
			s.Set(K{id: uint64(i)}, i)
		}
		calls = 0
		for i := 0; i < 1000; i++ {
			s.Mod(K{id: uint64(i % n)}, func(p *int, _ bool) { *p++ })
		}
		if calls > 2000 {
			fail("1000 Mod calls in a map of", n, "keys cost", calls, "hash computations")
		}
	}
}
''')
bug('C13-val-last','C13','Val of a key (not Get or Ptr), whose key is then deleted, or was never stored',
 'StringMap.Val remembers the key it was last called with for the next call, and so keeps a deleted key alive',
 [('string_map.go','StringMap[V]) Val','	if m.root != nil {\n','	if m.root != nil {\n		m.root.last = key\n'),
  ('amt.go','type root struct','	len   uint64\n','	len   uint64\n	last  string // last key looked up\n')],
 H('runtime','strings','time','unsafe')+'''
func main() {
	m := amt.NewStringMap[int]()
	freed := make(chan bool, 1)
	func() {
		k := strings.Repeat("k", 1000)
		runtime.SetFinalizer(unsafe.StringData(k), func(*byte) { freed <- true })
		m.Set(k, 1)
		m.Val(k)
		m.Del(k)
	}()
	for i := 0; i < 20; i++ {
		runtime.GC()
		select {
		case <-freed:
			runtime.KeepAlive(m)
			return
		case <-time.After(50 * time.Millisecond):
		}
	}
	runtime.KeepAlive(m)
	fail("the deleted key is still alive")
}
''')
bug('C14-val-ahead','C14','Val of a generic map (not Get or Ptr) with a key that counts or rejects hash iterations above 0',
 'Map.Val asks for the second hash of a key ahead of the lookup, whether or not the first one is enough',
 [('generic_map.go','Map[K, V]) Val','	if m.root != nil {\n','	if m.root != nil {\n		if m.len > 4 {\n			_ = key.Hash(m.seed, 1) // may be needed\n		}\n')],
 HG.replace('''func (k K) Hash(_ maphash.Seed, iter uint) uint64 {
''','''
var ahead int

func (k K) Hash(_ maphash.Seed, iter uint) uint64 {
	if iter > 0 {
		ahead++
	}
''')+'''
func main() {
	m := amt.NewMap[K, int]()
	for i := 0; i < 100; i++ {
		m.Set(K{id: uint64(i)}, i)
	}
	ahead = 0
	for i := 0; i < 100; i++ {
		m.Val(K{id: uint64(i)})
	}
	if ahead > 0 {
		fail("Val asked", ahead, "times for another hash of a key whose first hash is enough")
	}
}
''')
bug('C11-atomic-cache','C11','two goroutines that look up different keys of one map, one between two adjacent stores of the other',
 'StringMap.Ptr caches the last key found and its entry in two atomic words, which a concurrent lookup may see from two different lookups (no data race is reported)',
 [('string_map.go','StringMap[V]) Ptr','kv.k == key { // key match\n','kv.k == key { // key match\n\t\t\tm.root.lastKey.Store(&kv.k)\n\t\t\tm.root.lastKV.Store((*byte)(item.ptr))\n'),
('string_map.go','StringMap[V]) Ptr(key string) *V {\n','	var','	if k := m.root.lastKey.Load(); k != nil && *k == key {\n\t\treturn &(*strkv[V])(unsafe.Pointer(m.root.lastKV.Load())).v\n\t}\n\tvar'),
('string_map.go','StringMap[V]) Del(key string) {\n','	var','	m.root.lastKey.Store(nil)\n\tvar'),
('amt.go','type root struct','	len   uint64\n','	len   uint64\n\n	lastKey atomic.Pointer[string]\n	lastKV  atomic.Pointer[byte]\n'),
('amt.go','import (','"hash/maphash"','"hash/maphash"\n\t"sync/atomic"')],
 H('sync','sync/atomic','time')+'''
func main() {
	m := amt.NewStringMap[string]()
	var keys []string
	for i := 0; i < 8; i++ {
		keys = append(keys, fmt.Sprint("key ", i))
		m.Set(keys[i], keys[i])
	}
	var bad atomic.Pointer[string]
	var wg sync.WaitGroup
	stop := time.Now().Add(15 * time.Second)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := g; bad.Load() == nil && (i&1023 != 0 || time.Now().Before(stop)); i++ {
				k := keys[i*(g|1)%8]
				if v := m.Val(k); v != k {
					bad.Store(&v)
				}
			}
		}(g)
	}
	wg.Wait()
	if v := bad.Load(); v != nil {
		fail("a lookup returned the value of another key:", *v)
	}
}
''')
TAINT='''
func key(i int) []byte { return []byte(fmt.Sprintf("%08d", i)) }
'''
bug('C22-reinsert','C22','a BytesMap entry whose key slice has been overwritten with the content of another present key, and a Set of a third key which collides with that entry',
 'BytesMap.Set re-inserts the entry whose key slice was modified under its new content, which overwrites the value of the key that really has that content',
 [('bytes_map.go','BytesMap[V]) Set','item.ptr = unsafe.Pointer(&byteskv[V]{value, key})\n','item.ptr = unsafe.Pointer(&byteskv[V]{value, key})\n\t\t\tm.Set(ckey, ckv.v) // where it belongs now\n')],
 H()+TAINT+'''
func main() {
	m := amt.NewBytesMap[int]()
	const n = 2000
	var s [n][]byte
	for i := range s {
		s[i] = key(i)
		m.Set(s[i], i)
	}
	for i := n / 2; i < n; i++ { // now equal to the keys of the first half
		copy(s[i], key(i-n/2))
	}
	for i := n; i < 10*n; i++ {
		m.Set(key(i), i)
	}
	for i := 0; i < n/2; i++ {
		if v, ok := m.Get(key(i)); !ok || v != i {
			fail("key", i, "has lost its value:", v, ok)
		}
	}
}
''')
bug('C22-set-skip','C22','a BytesSet entry whose key slice has been modified, and an Add of a key that collides with it',
 'BytesSet.Add gives up when the colliding entry\'s key slice was modified, so the added key is not stored',
 [('bytes_set.go','BytesSet) Add','		// replace with new branch','		if uint8(chd&0xF) != radix { // conflict key slice was modified\n			return\n		}\n		// replace with new branch')],
 H()+TAINT+'''
func main() {
	s := amt.NewBytesSet()
	const n = 2000
	for i := 0; i < n; i++ {
		k := key(i)
		s.Add(k)
		copy(k, key(-i-1))
	}
	for i := n; i < 10*n; i++ {
		s.Add(key(i))
		if !s.Has(key(i)) {
			fail("key", i, "was added and is missing")
		}
	}
}
''')
bug('C22-reuse-entry','C22','a BytesMap entry whose key slice has been modified, a Mod of a key that collides with it, and then of another such key',
 'BytesMap.Mod copies the new key into the modified slice of the old entry and reuses it; that slice is the memory of the caller, who may change it again, and Mod passes the old value',
 [('bytes_map.go','BytesMap[V]) Mod','			kv := &byteskv[V]{k: key}\n			mod(&kv.v, false)\n			item.ptr = unsafe.Pointer(kv)\n			return\n','			mod(&ckv.v, false)\n			ckv.k = append(ckey[:0], key...)\n			return\n')],
 H()+TAINT+'''
func main() {
	m := amt.NewBytesMap[int]()
	const n = 2000
	for i := 0; i < n; i++ {
		k := key(i)
		m.Set(k, i+1)
		copy(k, key(-i-1))
	}
	for i := n; i < 10*n; i++ {
		m.Mod(key(i), func(p *int, ok bool) {
			if *p != 0 || ok {
				fail("Mod of a new key passes", *p, ok)
			}
			*p = i
		})
		if v, ok := m.Get(key(i)); !ok || v != i {
			fail("key", i, "was stored and is missing", v, ok)
		}
	}
}
''')
bug('C11-recycle','C11','two IntMaps used by two goroutines at the same time, one collapsing branches and one creating them',
 'IntMap.Del leaves the array of a collapsed branch in a package-level variable, where the next new branch of any IntMap takes it from, without synchronisation',
 [('int_map.go','','// IntMap maps','// spare is an array which a collapsed branch no longer needs.\nvar spare unsafe.Pointer\n\n// IntMap maps'),
  ('int_map.go','IntMap[V]) Del','			*l = *(*link)(l.ptr)\n','			free := (*[4]link)(l.ptr)\n			*l = free[0]\n			*free = [4]link{}\n			spare = unsafe.Pointer(free)\n'),
  ('int_map.go','IntMap[V]) Set','item.ptr = newLinkArray(2)','if item.ptr, spare = spare, nil; item.ptr == nil {\n					item.ptr = newLinkArray(2)\n				}'),
 ],
 H('sync')+'''
func main() { // built with the race detector (exit status 66 on a race)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			m := amt.NewIntMap[int]()
			for r := 0; r < 20; r++ {
				for i := 0; i < 2000; i++ {
					m.Set(amt.IntKey(i), i)
				}
				for i := r; i < 2000; i++ {
					m.Del(amt.IntKey(i))
				}
				for i := 0; i < 2000; i++ {
					if v, ok := m.Get(amt.IntKey(i)); ok != (i < r) || ok && v != i {
						fail("wrong value", i, v, ok)
					}
				}
			}
		}()
	}
	wg.Wait()
}
''',flags='-race',env='GORACE="halt_on_error=1"')
bug('C13-recycle-stale','C13','a deletion that collapses a branch of a StringSet, then the deletion of the key that moved up, and no new branch since',
 'StringSet.Del leaves the array of a collapsed branch in a package-level variable for the next new branch, with the key that moved up still in it: deleted later, or dropped with its set, it stays reachable',
 [('string_set.go','// StringSet contains','// StringSet contains','// spare is an array which a collapsed branch no longer needs.\nvar spare unsafe.Pointer\n\n// StringSet contains'),
  ('string_set.go','StringSet) Del','			*l = *(*link)(l.ptr)\n','			spare = l.ptr\n			*l = *(*link)(spare)\n'),
  ('string_set.go','StringSet) Add','item.ptr = newLinkArray(2)','if item.ptr, spare = spare, nil; item.ptr == nil {\n					item.ptr = newLinkArray(2)\n				}'),
 ],
 H('runtime','strings','weak','unsafe')+"""
func main() {
	s := amt.NewStringSet()
	const n = 300
	var ws [n]weak.Pointer[byte]
	for i := 0; i < n; i++ {
		k := strings.Repeat("k", 100) + fmt.Sprint(i)
		ws[i] = weak.Make(unsafe.StringData(k))
		s.Add(k)
	}
	for i := 0; i < n; i++ {
		s.Del(strings.Repeat("k", 100) + fmt.Sprint(i))
	}
	for i := 0; i < 4; i++ {
		runtime.GC()
	}
	for i := range ws {
		if ws[i].Value() != nil {
			fail("deleted key", i, "is still reachable")
		}
	}
	runtime.KeepAlive(s)
}
""")
bug('C07-mod-copy-large','C07','Mod of a present key of a BytesMap with more than 256 entries, and a pointer kept by its callback or obtained before',
 'BytesMap.Mod passes a pointer to a copy of the value and stores the copy back, once the map has more than 256 entries',
 [('bytes_map.go','BytesMap[V]) Mod','			mod(&ckv.v, true)\n','			if m.len <= 256 {\n				mod(&ckv.v, true)\n				return\n			}\n			v := ckv.v\n			mod(&v, true)\n			ckv.v = v\n')],
 H()+"""
func main() {
	m := amt.NewBytesMap[int]()
	key := func(i int) []byte { return []byte(fmt.Sprint(i)) }
	for i := 0; i < 5000; i++ {
		m.Set(key(i), i)
	}
	for i := 0; i < 5000; i++ {
		q := m.Ptr(key(i))
		m.Mod(key(i), func(p *int, ok bool) {
			*q = -i
			if !ok || *p != -i {
				fail("Mod passes a pointer to something else than the value of key", i)
			}
		})
	}
}
""")
bug('C20-large-snapshot','C20','an iteration of a generic set with more than 1024 entries whose callback looks at its length or deletes a key and stops',
 'Set.All restores the length it saw at the beginning when it is done, if the set is large',
 [('generic_set.go','Set[K]) All','	','	if s.len > 1024 {\n		n := s.len\n		defer func() { s.len = n }()\n	}\n	')],
 H()+"""
func main() {
	s := amt.NewSet[amt.Int]()
	for i := 0; i < 5000; i++ {
		s.Add(amt.Int(i))
	}
	for i := 0; i < 3000; i++ {
		s.All(func(k amt.Int) bool {
			s.Del(k)
			return false
		})
		if s.Len() != uint(4999-i) {
			fail("Len is", s.Len(), "after deletion", i)
		}
	}
}
""")
bug('C04-cursor','C04','an iteration of a StringSet that is stopped, and another iteration',
 'StringSet.All begins at the top-level item at which the last iteration was stopped and wraps around, so the order changes though the set does not',
 [('string_set.go','StringSet) All','	stringSetScan(&s.link, do)\n','''	count := uint8(bits.OnesCount32(s.pmap))
	first := s.path[len(s.path)-1].radix
	for i := uint8(0); i < count; i++ {
		rank, pmap := (first+i)%count, s.pmap
		for j := uint8(0); j < rank; j++ {
			pmap &= pmap - 1
		}
		bit := uint32(1) << uint8(bits.TrailingZeros32(pmap))
		item := link{unsafe.Pointer(uintptr(s.ptr) + uintptr(rank)*linkSize), bit, s.tmap & bit}
		if !stringSetScan(&item, do) {
			s.path[len(s.path)-1].radix = rank
			return
		}
	}
''')],
 H()+'''
func main() {
	s := amt.NewStringSet()
	for i := 0; i < 100; i++ {
		s.Add(fmt.Sprint("key", i))
	}
	order := func() (r string) {
		s.All(func(k string) bool { r += k + " "; return true })
		return r
	}
	a := order()
	for n := 0; n < 100; n++ {
		i := 0
		s.All(func(string) bool { i++; return i <= n })
		if order() != a {
			fail("the order changed after an iteration stopped at entry", n)
		}
	}
}
''')
bug('C05-sum-overflow','C05','two keys of a StringSet that share eight complete hashes, so that their depth is at least 128',
 'StringSet.Add doubles the depth in eight bits before it is added to the sum, so the sum of depths is too small',
 [('string_set.go','StringSet) Add','uint64(d) * 2','uint64(2 * d)')],
 H('hash/maphash')+"""
func main() {
	maphash.WeakenBytes = func(b []byte, h uint64) uint64 {
		if len(b) <= 9 { // the first nine hashes of keys of one byte
			return 7
		}
		return h
	}
	s := amt.NewStringSet()
	s.Add("a")
	s.Add("b")
	if s.Dep() < 144 || s.Dep() > 176 {
		fail("two keys with nine equal hashes: Dep is", s.Dep())
	}
}
""",over=True)
bug('C06-collapse-boundary','C06','keys of a generic map which share a complete hash, one of which is deleted',
 'Map.Del stops replacing single-valued branches where the hash has to be computed again, so the structure keeps levels that only a deleted key needed',
 [('generic_map.go','Map[K, V]) Del','for count == 1 && l.pmap == l.tmap && d != 0 {','for count == 1 && l.pmap == l.tmap && d%(64/4) != 0 {')],
 HG+'''
func main() {
	m := amt.NewMap[K, int]()
	m.Set(K{1, []uint64{7, 1}}, 1)
	m.Set(K{2, []uint64{7, 2}}, 2)
	m.Del(K{2, []uint64{7, 2}})
	if m.Dep() != 0 {
		fail("the only key is at depth", m.Dep())
	}
	m.Set(K{3, []uint64{9, 2}}, 3)
	if m.Dep() != 0 {
		fail("keys with different first digits have depth", m.Dep())
	}
}
''')
bug('C09-idle-root','C09','a StringSet drained by deletions, then a new StringSet, then both are used',
 'StringSet.Del keeps the root of a set that became empty for the next NewStringSet, which then shares it with the drained set if that is used again',
 [('string_set.go','','// StringSet contains','// idle is the root of a set that became empty.\nvar idle *root\n\n// StringSet contains'),
  ('string_set.go','func NewStringSet','	return StringSet{newRoot()}','	if r := idle; r != nil && r.len == 0 {\n		idle = nil\n		return StringSet{r}\n	}\n	return StringSet{newRoot()}'),
  ('string_set.go','StringSet) Del','	s.path = [len(s.path)]pathLink{}\n','	s.path = [len(s.path)]pathLink{}\n	if s.len == 0 {\n		idle = s.root\n	}\n')],
 H()+'''
func main() {
	s := amt.NewStringSet()
	s.Add("a")
	s.Del("a")
	t := amt.NewStringSet()
	s.Add("b")
	if t.Has("b") || t.Len() != 0 {
		fail("a key added to one set is in another one")
	}
}
''')
bug('C10-nil-drained','C10','an ArrSet which was created by its constructor and is empty (again)',
 'ArrSet.Nil answers true for every empty set, not only for uninitialized ones',
 [('arr_set.go','ArrSet[K]) Nil','return s.root == nil','return s.root.Len() == 0')],
 H()+'''
type A [8]byte

func (a A) KeyBytes() (b [64]byte) { copy(b[:], a[:]); return }

func main() {
	s := amt.NewArrSet[A]()
	if s.Nil() {
		fail("a new set is Nil")
	}
	s.Add(A{1})
	s.Del(A{1})
	if s.Nil() {
		fail("an emptied set is Nil")
	}
}
''')
