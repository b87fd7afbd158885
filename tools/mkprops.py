#!/usr/bin/env python3
# writes /verif/properties.jsonl
import json
K="sortyI4.go sortyI8.go sortyU4.go sortyU8.go sortyF4.go sortyF8.go sortyS.go sortyB.go sortyLenS.go sortyLenB.go".split()
ALL=["sorty.go","sortySlice.go","sortyLen.go","sortyLsw.go"]+K
P=[]
def p(id,title,st,over,text,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
PART=("partition: two-ended scan leaving left part <= pivot <= right part","part*(), sorty*.go")
INS=("insertion sort of short ranges","insertion*(), sorty*.go")
p("C01","SortSlice leaves integers, strings, bytes and pointers ascending",
  "For every slice of an accepted integer, string, []byte or pointer element type, of any length and content, SortSlice returns normally and the slice is then in ascending order of its elements (numeric, bytewise lexicographic, or address order). This holds for every concurrency limit and every schedule of the goroutines it uses.",
  ["inputs","schedules","configurations"],"all lengths, element values, MaxGor values and goroutine interleavings",
  "Tests sort 10M-element random slices and a handful of tiny ones on the schedules that happen; duplicates patterns, extreme values, short/long threshold lengths and rare interleavings are not enumerated, and several element types are tested once.",
  ["sortySlice.go","sorty.go","sortyI4.go","sortyI8.go","sortyU4.go","sortyU8.go","sortyS.go","sortyB.go"],
  [PART,INS,("pivot between two sampled elements","pivot*(), minMaxSample(), minMaxFour(), sorty.go"),("dispatch on element kind","SortSlice(), extractSK()")],
  obs=["slice content when SortSlice returns"])
p("C02","SortSlice orders floats and places NaNs as NaNoption says",
  "For every []float32 or []float64 (and named variants) SortSlice returns normally with all non-NaN elements in ascending order, and with every NaN after them under the NaN-large option or before them under the NaN-small option. Under the NaN-ignore option the same ascending order holds for slices without NaNs.",
  ["inputs","schedules","configurations"],"all lengths, float contents including NaN placements, options, MaxGor values and interleavings",
  "Tests use random data where NaNs are rare or placed in one pattern; all-NaN, one-element, NaN runs at both ends and per-kernel differences between float32 and float64 are sampled, not covered.",
  ["sortyF4.go","sortyF8.go","sortySlice.go","sorty.go"],
  [("NaN separation before sorting","sortF4(), sortF8()"),PART,INS],
  [("NaNoption","where NaNs belong","sorty.go")],["slice content when SortSlice returns"])
p("C03","SortLen orders strings and slices by length",
  "For every []string or [][]T (and named variants), SortLen returns normally and the elements' lengths are then in non-decreasing order, for every concurrency limit and schedule.",
  ["inputs","schedules","configurations"],"all slices, lengths of elements, MaxGor values and interleavings",
  "Tests use random length distributions of two element types once; element lengths up to the largest int, equal-length runs and interleavings are not enumerated.",
  ["sortyLen.go","sortyLenS.go","sortyLenB.go","sorty.go"],[PART,INS,("dispatch on element kind","SortLen(), extractSK()")],obs=["slice content when SortLen returns"])
p("C04","Sort orders any collection accessed through a Lesswap",
  "For every n >= 0 and every Lesswap that follows the documented contract over a strict weak order, Sort(n, lesswap) returns normally and leaves the collection's positions 0..n-1 in non-descending order, for every concurrency limit and schedule.",
  ["inputs","programs","schedules","configurations"],"all n, all contract-conforming comparators (strict weak orders, any amount of ties), MaxGor values and interleavings",
  "Tests use a few comparators over random data; ties, orders other than <, threshold lengths and the places where the pivot element itself is moved by a swap depend on coincidences of index values.",
  ["sortyLsw.go","sorty.go"],[("pivot is tracked by position while elements move","partOne(), partTwo(), partCon(), sortyLsw.go"),("insertion by adjacent swaps","insertion(), short()")],
  obs=["order of the collection when Sort returns"])
p("C05","Sorting only rearranges: no element is lost, duplicated or altered",
  "After any SortSlice, SortLen or Sort call the collection holds exactly the same multiset of elements it held before: nothing is dropped, duplicated, modified or brought in from elsewhere.",
  ["inputs","schedules"],"all inputs of every accepted type, NaN contents included, all schedules",
  "Tests compare only a checksum-like or sortedness result on random data; a lost element on a rare path (e.g. an insertion reaching the first position, a gap-closing swap) is not sampled.",
  ALL,[("elements are moved by swaps or by shift-and-reinsert","insertion*(), part*(), sort*()")],obs=["multiset of elements before and after"])
p("C06","No panic and no access outside the collection",
  "For every accepted input SortSlice, SortLen, Sort, IsSortedSlice, IsSortedLen, IsSorted and Search complete without a panic, never touch memory outside the given slice, and pass only indices within [0,n) to the caller's function.",
  ["inputs","schedules","configurations"],"all inputs (including empty, one-element and threshold lengths), MaxGor values and schedules",
  "Index arithmetic on sampled pivots, zero-length partitions and threshold lengths are exercised only for the lengths and data of the tests.",
  ALL,[("index arithmetic in partitioning and sampling","part*(), pivot*(), minMaxSample(), minMaxFour()"),("both parts of a partition are non-empty","short*(), long*(), sort*()")],obs=["panics; indices passed to lesswap / predicate"])
p("C07","Every call terminates",
  "Every SortSlice, SortLen, Sort, IsSorted*, and Search call finishes after finitely many steps, for every input: each loop makes progress and every recursive sorting step works on a strictly shorter range.",
  ["inputs","schedules"],"all inputs including all-equal, sorted, reverse and adversarial patterns",
  "A partition that returns an empty part loops or recurses forever only for particular value patterns around the pivot; tests time out on the sampled data only.",
  ALL,[("0 < k < length for every partition","partOne*(), partCon*(), short*(), long*(), sort*()")],obs=["the call returns"])
p("C08","Recursion depth is logarithmic in the input length",
  "Nested sorting calls on one goroutine's stack always recurse on at most half of the range their caller was given, so stack depth never exceeds the logarithm of the input length, whatever the data.",
  ["inputs"],"all inputs, including adversarial ones that make every partition maximally unbalanced",
  "Unbalanced partitions need adversarial data; on random data recursing into the longer part goes unnoticed.",
  ["sortyLsw.go"]+K,[("recurse on the shorter range, iterate on the longer","short*(), long*()")],obs=["stack depth"])
p("C09","Sorting is in place: extra memory does not grow with the input",
  "No Sort*, IsSorted* or Search call allocates memory whose amount depends on the input's length or content: no element buffers, slices, maps or strings are created, only a fixed amount of bookkeeping per call and per goroutine.",
  ["inputs"],"all inputs",
  "Tests do not observe allocation at all; a copy made on one path (long input, concurrent mode) leaves results unchanged.",
  ALL,[("in-place partitioning and fixed-size sample arrays","pivot*(), part*()")],obs=["allocations"])
p("C10","Goroutines of one call never touch the same element concurrently",
  "At every moment of a concurrent sort each element may be written by at most one goroutine, and no goroutine reads an element that another may write at the same time; the same holds for the collection positions passed to the caller's lesswap.",
  ["schedules","inputs"],"all interleavings and inputs",
  "The race detector sees only conflicting accesses that actually overlap on the test's schedule and data; the existing tests never run with all branches under it.",
  ["sortyLsw.go"]+K,[("ranges handed to new goroutines are disjoint from the ones kept","partCon*(), long*(), sort*()")],obs=["element accesses per goroutine"])
p("C11","A sort returns only when all its goroutines have finished",
  "When SortSlice, SortLen or Sort returns, every goroutine it started has finished its work on the collection, none stays blocked or running, and the call itself never waits for something that will not happen.",
  ["schedules","inputs","configurations"],"all interleavings, inputs and (live) MaxGor values",
  "Completion detection is a race between the last worker and the caller; wrong order or a missing decrement shows only on particular schedules.",
  ["sortyLsw.go"]+K+["sorty.go"],[("goroutine counter and end signal","gLong*(), sort*(), partCon*()")],
  [("goroutine counter","number of goroutines of this call that are still working","syncVar, sorty.go"),("end channel","last worker wakes the waiting caller","syncVar, sorty.go")],["goroutines alive at return; blocked calls"])
p("C12","Single-goroutine mode starts no goroutine and creates no channel",
  "When the concurrency limit is at most one, or the input is too short to be worth splitting, a sort runs entirely on the calling goroutine: it starts no goroutine and creates no channel. A range handed to a new sorting goroutine is always longer than the documented minimum length.",
  ["inputs","configurations"],"all inputs and MaxGor values 0 and 1, and all lengths up to the documented threshold",
  "Tests never check that no goroutine is started; results are the same either way.",
  ALL,[("length and MaxGor test before concurrent mode","sort*(), Sort()"),("minimum length for a new sorting goroutine","long*(), sort*()")],obs=["go statements and channel creations executed"])
p("C13","A sort never uses more goroutines than MaxGor",
  "At any instant, a single Sort*, SortSlice or SortLen call has at most MaxGor goroutines at work, counting the caller and goroutines that only help partitioning, whatever the interleaving.",
  ["schedules","inputs","configurations"],"all interleavings of the goroutines competing for the quota, all MaxGor > 0",
  "Exceeding the quota needs two goroutines to pass the limit check at the same time or a counter that misses one kind of goroutine; tests never count live goroutines.",
  ["sorty.go","sortyLsw.go"]+K,[("atomic check-and-increment of the goroutine counter against MaxGor","gorTake(), long*(), sort*()")],
  [("goroutine counter","goroutines of the call","syncVar, sorty.go"),("MaxGor","limit","sorty.go")],["live goroutines of a call"])
p("C14","IsSorted* report sortedness exactly and point at a violation",
  "IsSortedSlice, IsSortedLen and IsSorted return 0 exactly when the collection is in the order the matching sort establishes (NaN option included), and otherwise return an index i > 0 whose element is smaller than the element at i-1 (with floats: or next to a misplaced NaN).",
  ["inputs","configurations"],"all inputs, NaN placements and options",
  "Tests mostly call them on sorted data, where a checker that misses a violation at a boundary looks right.",
  ["sortySlice.go","sortyLen.go","sortyLsw.go"]+K,[("downward scan over adjacent pairs","isSorted*(), IsSorted()")],obs=["returned index"])
p("C15","Sortedness checks and Search never modify the collection or go concurrent",
  "IsSortedSlice, IsSortedLen, IsSorted and Search never write to the collection (IsSorted never asks its lesswap to swap) and run entirely on the calling goroutine.",
  ["inputs"],"all inputs",
  "Existing tests look only at the returned index; a swap performed on one path would be invisible.",
  ["sortySlice.go","sortyLen.go","sortyLsw.go","sorty.go"]+K,[("swap disabled by equal 3rd and 4th index","IsSorted()"),("read-only scans","isSorted*(), Search()")],obs=["writes to the collection, go statements"])
p("C16","Exactly the documented input types are accepted and treated as documented",
  "SortSlice and IsSortedSlice accept exactly slices of int/uint/uintptr, 32- and 64-bit integers, floats, strings, []byte and pointers, and SortLen and IsSortedLen exactly slices of strings or of slices (named types included); each accepted type is handled with its own width, signedness and order. Anything else panics before any element is read or written.",
  ["inputs","programs"],"all dynamic types a caller can pass",
  "Tests pass a few of the accepted types and a couple of rejected ones; kind values that alias after arithmetic mapping are not enumerated.",
  ["sortySlice.go","sortyLen.go","sorty.go"],[("kind extraction and switch","extractSK(), SortSlice(), IsSortedSlice(), SortLen(), IsSortedLen()")],obs=["panic or dispatch per dynamic type"])
p("C17","Search returns the lowest index satisfying the predicate",
  "For every n >= 0 and every monotone predicate on [0,n), Search returns the smallest k in [0,n) with a true predicate, or n if there is none, without overflow for any n up to the largest int.",
  ["inputs","programs"],"all n and all monotone predicates",
  "Tests use a few n and thresholds; midpoint overflow needs n near the largest int.",
  ["sorty.go"],[("binary search with overflow-free midpoint","Search()")],obs=["returned index"])
p("C18","Concurrent calls on different collections are independent",
  "The package keeps no mutable state between or across calls except its documented tuning variables, which no Sort*, IsSorted* or Search call ever writes; so calls on different collections from different goroutines cannot influence each other's results.",
  ["schedules","programs","histories"],"all combinations of concurrent or successive calls",
  "Tests never run two sorts at the same time.",
  ALL,[("all working state is local to a call","sort*(), syncVar")],obs=["package-level variables written at run time"])
p("C19","Elements are accessed through views of the right size and pointerness",
  "Whatever the caller's element type, its memory is read and written only through views with the same element size, and elements that contain pointers are moved only as pointer-carrying values, so the garbage collector never loses track of an object while a collection is being sorted.",
  ["programs","schedules","inputs"],"all accepted element types; all garbage collection points during a sort",
  "A collection that is sorted as plain integers while a garbage collection runs loses objects; tests force no collection during sorting and do not hold the only reference in the slice.",
  ["sortySlice.go","sortyLen.go","sorty.go"]+K,[("unsafe view conversion per kind","SortSlice(), SortLen(), IsSortedSlice(), IsSortedLen(), insertionI()")],obs=["element moves and their static types"])
p("C20","Results do not depend on the platform's word size",
  "All guarantees about accepted types, ordering and completion hold equally where int, uint and pointers are 32 bits wide: 64-bit shared counters are suitably aligned for atomic access and int-sized elements are handled with the platform's own width and signedness.",
  ["configurations"],"32- and 64-bit platforms",
  "Tests run on a 64-bit platform only.",
  ["sorty.go","sortySlice.go","sortyLen.go"],[("mapping of int/uint/uintptr by their size","extractSK(), insertionI()"),("counter is first in its struct","syncVar")],obs=["behaviour of the 32-bit build"])
p("C21","Changing MaxGor during a sort never affects the result",
  "MaxGor may be set to any value at any moment, also while sorts are running, and every ongoing and later sort still returns with its collection completely sorted, without deadlock and without goroutines left behind.",
  ["schedules","configurations","histories"],"all histories of MaxGor values interleaved with ongoing sorts",
  "Tests never change MaxGor while a sort is running.",
  ["sorty.go","sortyLsw.go"]+K,[("MaxGor is only a quota: every read is independent","gorTake(), sort*()")],[("MaxGor","live-changeable limit","sorty.go")],["result and completion"])
p("C22","Worst-case running time stays near n log n in practice",
  "Sorting takes on the order of n log n comparisons for realistic inputs, including sorted, reversed and few-distinct-values ones.",
  ["inputs"],"all realistic input distributions",
  "Tests only measure random inputs.",
  ["sorty.go","sortyLsw.go"]+K,[("median-of-n pivot from equidistant samples","pivot*(), minMaxSample()")],obs=["number of comparisons"])
p("C23","Concurrent sorting is faster than single-goroutine sorting",
  "For large inputs on a multi-core machine, allowing more goroutines reduces the wall-clock time of a sort.",
  ["configurations","schedules"],"all large inputs, machine sizes",
  "Benchmarks measure a few sizes on one machine.",
  ["sorty.go","sortyLsw.go"]+K,[("dual partitioning and worker goroutines","partCon*(), long*(), sort*()")],obs=["wall-clock time"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
