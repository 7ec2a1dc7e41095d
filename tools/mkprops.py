#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements are edited in one readable place)."""
import json, os
MAPS=["int_map.go","string_map.go","bytes_map.go","arr_map.go","generic_map.go"]
SETS=["int_set.go","string_set.go","bytes_set.go","arr_set.go","generic_set.go"]
ALL=["amt.go"]+MAPS+SETS
def loc(files,what): return [{"name":what,"where":f} for f in files]
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":mech}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    assert statement.count(". ")<=2,(id,statement)
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

LINKST={"name":"link / root","meaning":"a trie level: an array of up to 16 items plus a presence bitmap and a branch-or-entry bitmap","where":"amt.go"}
p("C01","Every map returns exactly the last value stored under each key",
  "For every map family and every history of Set, Mod, Del and writes through value pointers, Get, Val and Ptr report for each key exactly the value last stored under it, and report a missing key (zero value, false, nil) when it was never stored or has been deleted since. No operation on one key ever changes, loses or invents the binding of another key. This holds for every key the key type can express (all 64-bit integers, empty or binary strings and byte slices, array and user-defined keys) and every value type.",
  ["histories","inputs","configurations"],
  "all finite operation histories x all keys of each key type x five map families (integer, string, byte-slice, array, generic with any user key type) x any value type x any hash seed",
  "The tests insert 0..N-1 in order into IntMap and StringMap only and delete in the same order; they never use a negative or >32-bit integer, never put two keys in an ArrMap, BytesMap or generic Map, and never use Mod on a populated map. They cannot quantify over histories, key shapes, value types and hash seeds.",
  MAPS,[{"name":"Ptr / Set / Mod / Del trie walks","where":"each *_map.go"},{"name":"collision split that re-places the resident entry one or more levels down","where":"Set, Mod in each *_map.go"},{"name":"insert / remove item with array growth and shrinking at multiples of 4","where":"Set, Mod, Del in each *_map.go"},{"name":"integer keys stored inline in the two bitmap words of an entry","where":"int_map.go"}],
  [LINKST],["Get","Val","Ptr","Set","Mod","Del"])
p("C02","Every set contains exactly the keys added and not since deleted",
  "For every set family and every history of Add and Del, Has answers true for exactly those keys whose most recent operation was an Add. Adding or deleting one key never affects the membership of another. This holds for every key the key type can express.",
  ["histories","inputs","configurations"],
  "all finite Add/Del histories x all keys of each key type x five set families x any hash seed",
  "The tests fill IntSet and StringSet with 0..N-1 and drain them in order; BytesSet and ArrSet are never touched and the generic Set only ever holds one key that is never deleted.",
  SETS,[{"name":"Has / Add / Del trie walks","where":"each *_set.go"},{"name":"collision split","where":"Add in each *_set.go"},{"name":"integer keys stored inline","where":"int_set.go"}],[LINKST],["Has","Add","Del"])
p("C03","Colliding hashes never lose, merge or misplace keys at any depth",
  "When the hashes of distinct keys agree on an arbitrarily long prefix, including one or more complete 64-bit hashes so that keys must be hashed again, every map and set still keeps all of them as separate entries, finds each one and deletes each one individually, and every operation terminates. Deleting one member of a colliding group leaves the other members reachable, whatever the order of insertions and deletions.",
  ["inputs","histories","configurations"],
  "all groups of distinct keys and all hash assignments whose common prefix length ranges over 0..15 full 64-bit hashes (up to 240 levels), all histories over them, all ten container families",
  "With random 64-bit seeded hashes a million keys reach depth about 9; the level-16 rehash boundary, chains of single-item branches, more than 12 levels of deletion path and collapses across several levels are essentially unreachable without control over the hash.",
  ALL,[{"name":"rehash when the 64 hash bits are used up (depth multiple of 16)","where":"all walks"},{"name":"chain of one-item branches built until the hashes differ","where":"collision loop in Set/Mod/Add"},{"name":"collapse of one-item branches, deletion path scratch (grows past 12)","where":"Del; root.path in amt.go"}],
  [LINKST,{"name":"path","meaning":"scratch for the branches traversed by a deletion","where":"amt.go"}],["Get","Has","Set","Add","Mod","Del","All","Dep"],
  "No hook in /repo: user-supplied key hashes reach the generic containers directly; for the other families the checks are built against a copy of the standard hash/maphash package (go build -overlay) whose seeds and output distribution the harness controls.")
p("C04","Iteration visits every entry exactly once and stops when told to",
  "All calls its callback exactly once for every entry present, with that entry's key and (for maps) a non-nil pointer to its live value, so that a write through the pointer is seen by later lookups. It makes no further call once the callback returns false. The order is the same in every iteration while the container is not structurally changed.",
  ["histories","inputs"],
  "all reachable container states of all ten families x all stopping points x nested iterations, callbacks that read the container and callbacks that panic",
  "The tests count callbacks on one dense shape of two families; they never check which keys or values arrive, never stop early, and never compare two iterations.",
  MAPS+SETS,[{"name":"recursive scan over presence and type bitmaps, early-exit propagation through levels","where":"*Scan functions"}],[LINKST],["All"])
p("C05","Len counts the distinct keys and Dep is their exact mean depth",
  "After any history Len equals the number of distinct keys present, and Dep equals the arithmetic mean over present keys of their depth, where a key's depth is the smallest number of leading 4-bit hash digits that tell it apart from every other present key, minus one (so 0 for a key alone in its first digit). An empty container has Len 0 and Dep 0, and a container with one key has Dep 0, however it got there.",
  ["histories","inputs"],
  "all histories over all ten families, including histories that drain the container to one or zero keys through deep collisions, overwrites, failed deletes and duplicate adds",
  "The tests look at Len at four dense points, at Dep==0 when empty (true for any accounting, since Dep is 0 whenever Len is 0) and at Dep>1 when full; depth bookkeeping on splits, collapses, overwrites and failed deletes is unobserved.",
  ALL,[{"name":"len/dep counters adjusted in insert, split, delete and collapse","where":"Set, Mod, Add, Del"}],
  [{"name":"root.len, root.dep","meaning":"number of entries and sum of their depths","where":"amt.go"}],["Len","Dep"])
p("C06","The structure depends only on the content, never on the history",
  "Two containers of the same family with the same hash seed and the same keys are structurally identical however those keys were arrived at: any order of insertions, any overwrites, and any extra keys inserted and later deleted. Observably, both report the same Dep and visit their keys in the same order.",
  ["histories"],
  "all pairs of histories ending in the same key set, all ten families, all hash seeds and hash distributions",
  "TestCanonicalStructure builds one dense integer set twice in the same order with no deletion and compares one float; it never compares different histories, never deletes, and covers one family of ten.",
  MAPS+SETS,[{"name":"branches only where at least two keys share a prefix; deletion collapses branches left with one entry","where":"Set/Mod/Add collision loop, Del collapse loop"}],[LINKST],["Dep","All"],
  "Same seed for two containers: obtained by controlling the random source behind maphash.MakeSeed through a build overlay of the standard library; nothing in /repo.")
p("C07","Mod calls its callback once on the right value, and survives its panic",
  "Mod calls the callback exactly once, with a pointer to the stored value and true when the key is present, or to a new zero value and false when it is absent, and whatever the callback leaves there is the value of the key afterwards. During the callback every other key of the map can still be read with its correct value. If the callback panics, the map stays usable, no key is added and every other binding is intact.",
  ["histories","inputs","fault_sequences"],
  "all reachable map states of the five families x all keys (present, absent, absent but sharing a hash prefix with present keys at any depth) x callbacks that read the map, write, panic or do nothing",
  "TestModify calls Mod twice on a one-entry StringMap; the absent-key path that splits a colliding entry, callbacks that look at the map and callbacks that panic are never exercised.",
  MAPS,[{"name":"Mod: update, insert-into-slot and split-on-collision paths, each invoking the callback","where":"Mod in each *_map.go"}],[LINKST],["Mod","Get","Len","All"])
p("C08","A value pointer stays bound to its key for as long as the key is present",
  "A pointer obtained from Ptr, All or a Mod callback keeps denoting the live value of its key until that key is deleted, whatever happens to other keys in between: reads through it see every later update of that key and writes through it are seen by every later lookup. After the key is deleted the old pointer never aliases the value of any entry, including a re-inserted entry for the same key.",
  ["histories"],
  "all histories that hold any number of value pointers across insertions, splits, array growth and shrinking, collapses and deletions of other keys",
  "No test holds a pointer across another operation; every pointer in the tests is dereferenced immediately.",
  MAPS,[{"name":"each entry is a separate allocation that links point to; structural changes move links, not entries","where":"Set, Mod, Del"}],[LINKST],["Ptr","All","Mod","Get","Set"])
p("C09","Copies of a container share state, distinct containers never interfere",
  "A map or set value may be copied freely (assigned, passed, stored in other containers): every copy observes every change made through any other copy, including Len and Dep. Two containers created by separate constructor calls are fully independent: no operation on one, even when performed inside a callback or key method running on the other, changes anything observable in the other.",
  ["histories","configurations"],
  "all interleavings of operations over several containers of any families and several copies of each, including operations nested in All and Mod callbacks of other containers and in the Hash, Equal and KeyBytes methods of their keys, and maps nested as values of maps",
  "TestNestedMap stores one map in another and reads one value back; no test mutates through a copy or interleaves operations on two containers.",
  ALL,[{"name":"each container value is one pointer to a heap root holding all state including counters and deletion scratch","where":"root, newRoot in amt.go"}],
  [{"name":"root","meaning":"seed, counters, top-level items and deletion scratch of one container","where":"amt.go"}],["all operations"])
p("C10","Uninitialized containers answer Nil, Len, Dep and Val and panic elsewhere",
  "For the zero value of every map and set type Nil is true, Len and Dep are 0 and (for maps) Val returns the zero value for every key, while every other method panics with a recoverable panic and has no other effect. Every constructor returns a container that is not Nil and is empty. A value looked up with Val in a map of containers can therefore be queried with Len, Dep, Nil and Val whether or not it was present.",
  ["inputs","configurations","histories"],
  "all methods of all ten zero-valued container types x all keys and values, mixed with operations on initialized containers",
  "The tests check Nil() on four initialized containers and one Val on one missing nested StringMap; the documented panics and the other nine zero values are never exercised.",
  ALL,[{"name":"nil checks in Len, Dep, Val, Nil; nil dereference elsewhere","where":"amt.go and each family file"}],None,["Nil","Len","Dep","Val","Get","Ptr","Has","Set","Add","Mod","Del","All"])
p("C11","Concurrent readers, and users of distinct containers, never race",
  "Any number of goroutines may look up, measure and iterate the same container at the same time while nobody modifies it, and any number of goroutines may each modify a container of their own, without data races and with every goroutine observing exactly the results it would observe running alone.",
  ["schedules","histories"],
  "all schedules of goroutines performing read-only operations on shared containers and arbitrary operations on private ones, all ten families, including lookups of absent keys and of keys in deep collision chains",
  "The tests are single-threaded and run without the race detector.",
  ALL,[{"name":"read operations keep their hash state and position in local variables only; scratch used by deletion lives in the container it belongs to","where":"Ptr/Has/All, root.path"}],None,["Get","Val","Ptr","Has","All","Len","Dep"])
p("C12","No operation touches memory outside its allocations or loses live data to GC",
  "Under any history and any timing of garbage collection every memory access stays inside an object the container owns, and every key and value still reachable through the container, and everything those refer to, stays alive and unmodified. No history can crash the process, corrupt an unrelated object or return freed or foreign memory.",
  ["histories","schedules","configurations"],
  "all histories x all points at which a collection may run x key and value types with and without pointers, of zero, small and large size",
  "The code walks link arrays with unchecked unsafe pointer arithmetic; the tests run without pointer checks, address sanitizing or forced collections, with plain int values, so an out-of-bounds or hidden-from-GC access can go unnoticed.",
  ALL,[{"name":"unsafe item addressing over arrays of 4/8/12/16 links sized by newLinkArray","where":"amt.go and every walk"},{"name":"entries and arrays kept alive through unsafe.Pointer fields; integer keys overlaid on the bitmap words only","where":"link in amt.go"}],[LINKST],["all operations"],
  "No hook: the unmodified sources are compiled with the race/checkptr instrumentation and with the address sanitizer.")
p("C13","Deleted entries are released: a container keeps alive only what it contains",
  "Once a key is deleted, the container no longer keeps that key, its value, or anything reachable from them alive. A container that shrank to some content retains no more memory than one built directly with that content, so that memory use does not grow under repeated insertion and deletion, and a container that is no longer used is released with all its content.",
  ["histories"],
  "all histories ending in a content, all ten families, keys and values that own heap memory, including deletes that fail, deep deletion paths and partially drained branches",
  "No test looks at memory at all; a retained slot is invisible to lookups.",
  ALL,[{"name":"arrays reallocated smaller at multiples of 4, one-entry branches collapsed, vacated slots and deletion scratch cleared","where":"Del in each family"}],
  [{"name":"root.path","meaning":"deletion scratch, documented as cleared to prevent leaks","where":"amt.go"}],["runtime weak pointers and live heap after Del"])
p("C14","Key hashing contract: exported key types honour it, containers rely on it only",
  "The exported key types and hash helper (Int, String, Bytes, HashBytes) are usable as keys of the generic map and set as documented: equal keys hash equally for the same seed and iteration, the hash is a pure function of key, seed and iteration, unequal keys and different iterations give different hashes, and every iteration count terminates; hashing the same bytes as Bytes, String or through HashBytes agrees. Generic containers call a user key's Hash only with the seed fixed at construction, with iteration 0 first and iteration i only for keys whose first i hashes were not enough, and treat keys as identical exactly when Equal says so.",
  ["inputs","histories"],
  "all keys x all seeds x all iteration counts (including 255, 256 and beyond); all user key types satisfying the documented contract, including ones whose Equal is coarser than identity and whose hashes collide to any depth",
  "The only test stores one Bytes key; Int and String as generic keys, HashBytes, iterations above zero and user-defined keys are never used.",
  ["generic_map.go","generic_set.go","int_map.go","string_map.go","bytes_map.go"],[{"name":"Key interface, HashBytes","where":"generic_map.go"},{"name":"Int.Hash, String.Hash/Equal, Bytes.Hash/Equal","where":"int_map.go, string_map.go, bytes_map.go"}],None,["Hash","Equal","HashBytes","Map","Set"])
p("C15","Depth stays on the order of log16(N) and work per operation stays with it",
  "For any N distinct keys of any shape (sequential, clustered, sharing long prefixes, random) under a well-mixed hash, the mean depth is within a small constant of log16(N), including after heavy churn. A lookup, insertion or deletion of a key then costs a bounded number of hash computations and key comparisons, independent of N.",
  ["inputs","histories","configurations"],
  "all key sets with N from 1 to tens of thousands and all insertion/deletion histories, ten families",
  "The tests only require Dep > 1 for a million keys; a trie that degenerates (reusing digits, not collapsing, skipping levels) keeps answering correctly.",
  ALL,[{"name":"each level consumes 4 fresh hash bits; branches collapse on deletion","where":"all walks"}],[LINKST],["Dep","calls of Key.Hash and Key.Equal"])
p("C16","Queries and no-op updates leave the container exactly as it was",
  "Get, Val, Ptr, Has, Len, Dep, Nil and All, deleting an absent key, adding a key already in a set, and overwriting a value with Set or Mod change nothing but (for the overwrite) that one value: Len, Dep, iteration order, all keys, all other values and the identity of all value storage are exactly as before. This includes absent keys that share any hash prefix with present ones.",
  ["histories","inputs"],
  "all reachable states of the ten families x all query and no-op operations x keys present, absent, and absent but colliding with present keys to any depth",
  "The tests never delete an absent key, never re-add a present one outside the initial loops, and never compare the container before and after a query.",
  MAPS+SETS,[{"name":"early return on key mismatch or missing item before any mutation","where":"Ptr, Has, Set, Mod, Add, Del"}],[LINKST],["all operations"])
p("C17","A panic in user code leaves the container exactly as it was",
  "When a user-supplied Hash, Equal or KeyBytes method, or a callback of All or Mod, panics or ends its goroutine during any operation, that panic reaches the caller unchanged and no operation takes half an effect: Len, Dep, iteration order, every key, every value (unless the callback itself changed it) and the identity of value storage are as before the call. The container stays fully usable and the same operation can be repeated successfully.",
  ["fault_sequences","histories","inputs"],
  "all reachable container states x all operations x keys present, absent and colliding to any depth x the fault placed at every call of user code the operation makes x panics with any value and runtime.Goexit",
  "No test uses a user-defined key or a panicking callback; a half-completed split is only visible when the fault hits one particular call of Hash while two keys are being separated.",
  MAPS+SETS,[{"name":"all user code runs before the first structural change, or the change is attached only once complete","where":"Set/Mod in generic_map.go, Add in generic_set.go, Mod in each *_map.go"}],[LINKST],["Set","Add","Mod","Del","Get","Has","Ptr","All"])
p("C18","Every container hashes its keys with one fresh random seed of its own",
  "Each constructor call gives its container an independent random seed, which stays the same for the lifetime of the container and all its copies. Which keys collide in one container therefore says nothing about another container or another process, so that neither iteration order nor key sets chosen to collide carry over.",
  ["configurations","inputs","histories"],
  "all pairs of containers of all ten families, created in any order in one process or in different processes x all key sets and histories",
  "The tests never compare two containers built at run time with different seeds; a shared or constant seed keeps every lookup correct.",
  ALL,[{"name":"newRoot draws a seed with maphash.MakeSeed; every hash computation of a container uses that seed","where":"amt.go and every walk"}],
  [{"name":"root.seed","meaning":"hash seed of the container","where":"amt.go"}],["seed argument of Key.Hash","All","Dep"])
p("C19","Memory per entry stays that of the documented compact layout",
  "After any history a container holds no more memory than its documented layout needs for its content: a root of about 512 bytes, one allocation holding key and value per entry (integer maps keep the key inside the link), and per branch one array of 16-byte links rounded up to a multiple of four. So memory is linear in the number of keys and does not depend on the history.",
  ["histories","inputs","configurations"],
  "all histories over key sets of any size and any collision structure, ten families, value types of any size",
  "No test looks at memory; arrays allocated too large or never shrunk keep every answer correct.",
  ALL,[{"name":"newLinkArray: capacity classes 4, 8, 12, 16; arrays grow and shrink at multiples of four","where":"amt.go, insertion and deletion in each family"},{"name":"link of 16 bytes with two bitmaps or an inline integer key","where":"amt.go"}],[LINKST],["live heap of a container"])
p("C20","Operations work from inside callbacks and key methods of other operations",
  "Code that runs inside an operation, that is a callback of All or Mod or a key's Hash, Equal or KeyBytes method, may use the same container: it may look up, measure and iterate it, and callbacks may overwrite values of present keys and delete absent ones, at any time; and where no enclosing operation still needs the structure, that is in the callback of Mod on a present key and in an All callback that then returns false, it may also insert and delete any keys. Nested operations see the content of that moment, and afterwards the container holds the effects of every operation exactly once. Other containers may be used without restriction.",
  ["histories","inputs"],
  "all container states x all nestings of All, Mod and key methods, three levels and more deep x all scripts of permitted operations inside them",
  "The tests only use callbacks that count or assign; a nested operation which disturbs the state of the enclosing one shows only for particular shapes and nestings.",
  MAPS+SETS,[{"name":"Mod returns at once after the callback of a present key; scans return at once when the callback returns false; reads write nothing; key methods run before the first mutation","where":"Mod, *Scan, Set, Add, Del in each family"},{"name":"the deletion path scratch is shared by all operations on a root","where":"root.path in amt.go, Del"}],[LINKST],["All","Mod","Set","Add","Del","Get","Has","Len","Dep"])
p("C21","No operation's time or memory grows with the number of entries",
  "Under a well-mixed hash every lookup, insertion, overwrite, deletion, Mod, Len, Dep and Nil, and an iteration up to its first entry, takes time and allocates memory that depend on the key, the value and the depth of the key only, never on how many entries the container holds. This holds for each single operation, not only on average, and after any history. Filling or draining a container therefore takes time and allocates memory proportional to the number of keys.",
  ["histories","inputs","configurations"],
  "all key shapes x container sizes up to 120000 entries x ten families x all operations on present and missing keys",
  "The tests measure nothing; an operation that walks or copies the whole container, always or only when a branch splits or collapses, keeps every answer correct.",
  ALL,[{"name":"len and dep are counters kept by every insertion and deletion","where":"root in amt.go; Set, Add, Mod, Del in each family"},{"name":"insertion and deletion touch one branch array of at most 16 links per level","where":"Set, Add, Mod, Del in each family"},{"name":"scans descend directly to the first entry","where":"*Scan in each family"}],[LINKST],["all operations"])
p("C22","A modified key slice harms no other key",
  "Containers of byte slices (BytesMap, BytesSet, and generic containers of Bytes) retain the slices handed to Set, Add and Mod, which must not be modified afterwards. A caller that does overwrite retained slices, even with the content of other keys, loses no more than the affected entries: every later operation on any key ends without crashing; every key that equals neither the earlier nor the present content of a modified slice keeps exactly its binding; Len equals the number of entries that an iteration visits, and an iteration visits nothing that was neither stored nor written into such a slice; and a key that is set again, Mod included, is found with its new value. (A Set that meets an entry whose slice was modified may replace that entry.)",
  ["histories","inputs"],
  "all histories x all moments at which a retained slice is overwritten x all contents of equal length, with hash collisions of the old and the new content",
  "The tests modify no slice; only particular combinations of the old and new content's hashes with the place of the entry reach the code that copes with them.",
  ["BytesMap","BytesSet","Map[Bytes]","Set[Bytes]"],[{"name":"the conflicting key is hashed again when it collides; a conflicting key whose slice was modified is replaced","where":"BytesMap.Set and BytesMap.Mod; BytesSet.Add, Map.Set, Map.Mod and Set.Add hash it without that test"},{"name":"deletion never hashes a stored key","where":"Del in each family"}],[LINKST],["Set","Add","Mod","Del","Get","Has","Ptr","All","Len"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P),"properties")
