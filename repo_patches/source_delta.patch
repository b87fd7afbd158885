From d8454cbff783294bb169e9045b52ce046196f98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:56 +0000
Subject: [PATCH 1/3] fix: sort pointer slices with write barriers

[]*T and []unsafe.Pointer were sorted through an integer view of their
memory. The moves then bypass garbage collector's write barriers and a
concurrent collection can free objects that are only reachable via the
slice. Sort them as pointers instead.
---
 sorty.go      |  7 +++++--
 sortySlice.go | 19 +++++++++++++++++++
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/sorty.go b/sorty.go
index 0ca4b2b..9634268 100644
--- a/sorty.go
+++ b/sorty.go
@@ -149,8 +149,11 @@ func extractSK(ar any) (slc sixb.Slice, kind reflect.Kind) {
 	kind = tipe.Kind()
 
 	switch kind {
-	// map int/uint/pointer types to hardware type
-	case reflect.Uintptr, reflect.Pointer, reflect.UnsafePointer:
+	// pointers must not be moved as integers, garbage collector would miss them
+	case reflect.Pointer, reflect.UnsafePointer:
+		kind = reflect.UnsafePointer
+	// map int/uint types to hardware type
+	case reflect.Uintptr:
 		kind = reflect.Uint32 + reflect.Kind(unsafe.Sizeof(uintptr(0))>>3)
 	case reflect.Uint:
 		kind = reflect.Uint32 + reflect.Kind(unsafe.Sizeof(uint(0))>>3)
diff --git a/sortySlice.go b/sortySlice.go
index 6b3cf81..11c7e00 100644
--- a/sortySlice.go
+++ b/sortySlice.go
@@ -11,6 +11,19 @@ import (
 	"unsafe"
 )
 
+// lswP returns Lesswap for pointers that swaps with garbage collector's write barriers
+func lswP(p []unsafe.Pointer) Lesswap {
+	return func(i, k, r, s int) bool {
+		if uintptr(p[i]) < uintptr(p[k]) {
+			if r != s {
+				p[r], p[s] = p[s], p[r]
+			}
+			return true
+		}
+		return false
+	}
+}
+
 // IsSortedSlice returns 0 if ar is sorted in ascending order, otherwise
 // it returns i > 0 with ar[i] < ar[i-1]. ar's (underlying) type can be
 //
@@ -48,6 +61,9 @@ func IsSortedSlice(ar any) int {
 	case reflect.String:
 		s := *(*[]string)(unsafe.Pointer(&slc))
 		return isSortedS(s)
+	case reflect.UnsafePointer: // []*T, []unsafe.Pointer
+		p := *(*[]unsafe.Pointer)(unsafe.Pointer(&slc))
+		return IsSorted(len(p), lswP(p))
 	}
 	panic("sorty: IsSortedSlice: invalid input type")
 }
@@ -88,6 +104,9 @@ func SortSlice(ar any) {
 	case reflect.String:
 		s := *(*[]string)(unsafe.Pointer(&slc))
 		sortS(s)
+	case reflect.UnsafePointer: // []*T, []unsafe.Pointer
+		p := *(*[]unsafe.Pointer)(unsafe.Pointer(&slc))
+		Sort(len(p), lswP(p))
 	default:
 		panic("sorty: SortSlice: invalid input type")
 	}
-- 
2.43.0


From 733aa8ba79a9c6cd4ee8cdd3997ac0b98bccd419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 2/3] fix: never exceed MaxGor goroutines per Sort*() call

Goroutine quota was checked and taken in two separate steps, so several
sorting goroutines could pass the check together. The goroutine used in
concurrent partitioning was not counted either. Take quota atomically and
count partitioning goroutines, replaced by sorting goroutines afterwards.
---
 sorty.go     | 17 +++++++++++++----
 sortyB.go    | 22 ++++++++++++----------
 sortyF4.go   | 22 ++++++++++++----------
 sortyF8.go   | 22 ++++++++++++----------
 sortyI4.go   | 22 ++++++++++++----------
 sortyI8.go   | 22 ++++++++++++----------
 sortyLenB.go | 22 ++++++++++++----------
 sortyLenS.go | 22 ++++++++++++----------
 sortyLsw.go  | 22 ++++++++++++----------
 sortyS.go    | 22 ++++++++++++----------
 sortyU4.go   | 22 ++++++++++++----------
 sortyU8.go   | 22 ++++++++++++----------
 12 files changed, 145 insertions(+), 114 deletions(-)

diff --git a/sorty.go b/sorty.go
index 9634268..cf6ec4b 100644
--- a/sorty.go
+++ b/sorty.go
@@ -19,6 +19,7 @@ package sorty
 
 import (
 	"reflect"
+	"sync/atomic"
 	"unsafe"
 
 	"github.com/jfcg/sixb"
@@ -83,12 +84,20 @@ type syncVar struct {
 	done chan int // end signal
 }
 
-// gorFull returns true if goroutine quota is full, inlined
+// gorTake increases goroutine counter and returns true, unless goroutine quota is full.
+// Quota check and increase must be atomic, otherwise goroutines can exceed MaxGor.
 //
 //go:norace
-func gorFull(sv *syncVar) bool {
-	mg := MaxGor
-	return sv.nGor >= mg
+func gorTake(sv *syncVar) bool {
+	for {
+		n := atomic.LoadUint64(&sv.nGor)
+		if n >= MaxGor {
+			return false
+		}
+		if atomic.CompareAndSwapUint64(&sv.nGor, n, n+1) {
+			return true
+		}
+	}
 }
 
 const (
diff --git a/sortyB.go b/sortyB.go
index e5f93d0..1e61c68 100644
--- a/sortyB.go
+++ b/sortyB.go
@@ -298,15 +298,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorTake(sv) {
 		longB(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongB(ar, sv)
 	ar = aq
 	goto start
@@ -328,7 +327,7 @@ func sortB(ar [][]byte) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -345,17 +344,20 @@ func sortB(ar [][]byte) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRecFC {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongB(aq, &sv)
+			go gLongB(aq, &sv) // replaces partitioning goroutine
 
-		} else if len(aq) > MaxLenInsFC {
-			shortB(aq)
 		} else {
-			insertionB(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // partitioning ended
+
+			if len(aq) > MaxLenInsFC {
+				shortB(aq)
+			} else {
+				insertionB(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRecFC+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRecFC+1) || !gorTake(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyF4.go b/sortyF4.go
index 48355a8..3693a16 100644
--- a/sortyF4.go
+++ b/sortyF4.go
@@ -313,15 +313,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorTake(sv) {
 		longF4(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongF4(ar, sv)
 	ar = aq
 	goto start
@@ -377,7 +376,7 @@ func sortF4(ar []float32) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -394,17 +393,20 @@ func sortF4(ar []float32) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongF4(aq, &sv)
+			go gLongF4(aq, &sv) // replaces partitioning goroutine
 
-		} else if len(aq) > MaxLenIns {
-			shortF4(aq)
 		} else {
-			insertionF4(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // partitioning ended
+
+			if len(aq) > MaxLenIns {
+				shortF4(aq)
+			} else {
+				insertionF4(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRec+1) || !gorTake(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyF8.go b/sortyF8.go
index 7afe6af..2744d95 100644
--- a/sortyF8.go
+++ b/sortyF8.go
@@ -313,15 +313,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorTake(sv) {
 		longF8(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongF8(ar, sv)
 	ar = aq
 	goto start
@@ -377,7 +376,7 @@ func sortF8(ar []float64) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -394,17 +393,20 @@ func sortF8(ar []float64) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongF8(aq, &sv)
+			go gLongF8(aq, &sv) // replaces partitioning goroutine
 
-		} else if len(aq) > MaxLenIns {
-			shortF8(aq)
 		} else {
-			insertionF8(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // partitioning ended
+
+			if len(aq) > MaxLenIns {
+				shortF8(aq)
+			} else {
+				insertionF8(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRec+1) || !gorTake(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyI4.go b/sortyI4.go
index 0476f29..9f4da20 100644
--- a/sortyI4.go
+++ b/sortyI4.go
@@ -302,15 +302,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorTake(sv) {
 		longI4(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongI4(ar, sv)
 	ar = aq
 	goto start
@@ -334,7 +333,7 @@ func sortI4(ar []int32) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -351,17 +350,20 @@ func sortI4(ar []int32) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongI4(aq, &sv)
+			go gLongI4(aq, &sv) // replaces partitioning goroutine
 
-		} else if len(aq) > MaxLenIns {
-			shortI4(aq)
 		} else {
-			insertionI4(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // partitioning ended
+
+			if len(aq) > MaxLenIns {
+				shortI4(aq)
+			} else {
+				insertionI4(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRec+1) || !gorTake(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyI8.go b/sortyI8.go
index c546035..f6b35bc 100644
--- a/sortyI8.go
+++ b/sortyI8.go
@@ -302,15 +302,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorTake(sv) {
 		longI8(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongI8(ar, sv)
 	ar = aq
 	goto start
@@ -334,7 +333,7 @@ func sortI8(ar []int64) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -351,17 +350,20 @@ func sortI8(ar []int64) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongI8(aq, &sv)
+			go gLongI8(aq, &sv) // replaces partitioning goroutine
 
-		} else if len(aq) > MaxLenIns {
-			shortI8(aq)
 		} else {
-			insertionI8(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // partitioning ended
+
+			if len(aq) > MaxLenIns {
+				shortI8(aq)
+			} else {
+				insertionI8(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRec+1) || !gorTake(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyLenB.go b/sortyLenB.go
index e8d4874..b524c83 100644
--- a/sortyLenB.go
+++ b/sortyLenB.go
@@ -303,15 +303,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorTake(sv) {
 		longLenB(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongLenB(ar, sv)
 	ar = aq
 	goto start
@@ -335,7 +334,7 @@ func sortLenB(ar [][]byte) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -352,17 +351,20 @@ func sortLenB(ar [][]byte) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongLenB(aq, &sv)
+			go gLongLenB(aq, &sv) // replaces partitioning goroutine
 
-		} else if len(aq) > MaxLenIns {
-			shortLenB(aq)
 		} else {
-			insertionLenB(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // partitioning ended
+
+			if len(aq) > MaxLenIns {
+				shortLenB(aq)
+			} else {
+				insertionLenB(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRec+1) || !gorTake(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyLenS.go b/sortyLenS.go
index d9f590e..cb548b2 100644
--- a/sortyLenS.go
+++ b/sortyLenS.go
@@ -303,15 +303,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorTake(sv) {
 		longLenS(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongLenS(ar, sv)
 	ar = aq
 	goto start
@@ -335,7 +334,7 @@ func sortLenS(ar []string) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -352,17 +351,20 @@ func sortLenS(ar []string) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongLenS(aq, &sv)
+			go gLongLenS(aq, &sv) // replaces partitioning goroutine
 
-		} else if len(aq) > MaxLenIns {
-			shortLenS(aq)
 		} else {
-			insertionLenS(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // partitioning ended
+
+			if len(aq) > MaxLenIns {
+				shortLenS(aq)
+			} else {
+				insertionLenS(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRec+1) || !gorTake(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyLsw.go b/sortyLsw.go
index 7612f92..03cf0e6 100644
--- a/sortyLsw.go
+++ b/sortyLsw.go
@@ -299,15 +299,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorTake(sv) {
 		long(lsw, l, h, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLong(lsw, lo, hi, sv)
 	lo, hi = l, h
 	goto start
@@ -350,7 +349,7 @@ func Sort(n int, lsw Lesswap) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning
 		make(chan int)} // end signal
 	lo, hi := 0, n
 	for {
@@ -368,17 +367,20 @@ func Sort(n int, lsw Lesswap) {
 
 		// handle shorter range
 		if n >= MaxLenRecFC {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLong(lsw, l, h, &sv)
+			go gLong(lsw, l, h, &sv) // replaces partitioning goroutine
 
-		} else if n >= MaxLenInsFC {
-			short(lsw, l, h)
 		} else {
-			insertion(lsw, l, h)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // partitioning ended
+
+			if n >= MaxLenInsFC {
+				short(lsw, l, h)
+			} else {
+				insertion(lsw, l, h)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if no <= 2*MaxLenRecFC || gorFull(&sv) {
+		if no <= 2*MaxLenRecFC || !gorTake(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyS.go b/sortyS.go
index 621df0d..f4534d9 100644
--- a/sortyS.go
+++ b/sortyS.go
@@ -298,15 +298,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorTake(sv) {
 		longS(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongS(ar, sv)
 	ar = aq
 	goto start
@@ -328,7 +327,7 @@ func sortS(ar []string) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -345,17 +344,20 @@ func sortS(ar []string) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRecFC {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongS(aq, &sv)
+			go gLongS(aq, &sv) // replaces partitioning goroutine
 
-		} else if len(aq) > MaxLenInsFC {
-			shortS(aq)
 		} else {
-			insertionS(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // partitioning ended
+
+			if len(aq) > MaxLenInsFC {
+				shortS(aq)
+			} else {
+				insertionS(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRecFC+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRecFC+1) || !gorTake(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyU4.go b/sortyU4.go
index 8b222f7..1212239 100644
--- a/sortyU4.go
+++ b/sortyU4.go
@@ -302,15 +302,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorTake(sv) {
 		longU4(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongU4(ar, sv)
 	ar = aq
 	goto start
@@ -334,7 +333,7 @@ func sortU4(ar []uint32) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -351,17 +350,20 @@ func sortU4(ar []uint32) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongU4(aq, &sv)
+			go gLongU4(aq, &sv) // replaces partitioning goroutine
 
-		} else if len(aq) > MaxLenIns {
-			shortU4(aq)
 		} else {
-			insertionU4(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // partitioning ended
+
+			if len(aq) > MaxLenIns {
+				shortU4(aq)
+			} else {
+				insertionU4(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRec+1) || !gorTake(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyU8.go b/sortyU8.go
index 906f041..67740d0 100644
--- a/sortyU8.go
+++ b/sortyU8.go
@@ -302,15 +302,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorTake(sv) {
 		longU8(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongU8(ar, sv)
 	ar = aq
 	goto start
@@ -334,7 +333,7 @@ func sortU8(ar []uint64) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -351,17 +350,20 @@ func sortU8(ar []uint64) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongU8(aq, &sv)
+			go gLongU8(aq, &sv) // replaces partitioning goroutine
 
-		} else if len(aq) > MaxLenIns {
-			shortU8(aq)
 		} else {
-			insertionU8(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // partitioning ended
+
+			if len(aq) > MaxLenIns {
+				shortU8(aq)
+			} else {
+				insertionU8(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRec+1) || !gorTake(&sv) {
 			break
 		}
 		// dual partition longer range
-- 
2.43.0


From feabbd69964a0656ad528ecc5196b73ab77666a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:01 +0000
Subject: [PATCH 3/3] fix: keep pivot sample index of Sort() from overflowing

---
 sortyLsw.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sortyLsw.go b/sortyLsw.go
index 03cf0e6..a8f5380 100644
--- a/sortyLsw.go
+++ b/sortyLsw.go
@@ -64,7 +64,8 @@ func pivot(lsw Lesswap, lo, hi int, n uint) int {
 	last := lo + int(l)
 
 	// insertion sort slc[first + j * step], j=0,1,..
-	for h := first + step; h <= last; h += step {
+	for h := first; h < last; { // h += step can overflow after last
+		h += step
 		for l := h; lsw(l, l-step, l, l-step); {
 			l -= step
 			if l <= first {
-- 
2.43.0

