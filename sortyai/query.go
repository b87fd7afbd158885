package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// checkQuery: postconditions of IsSorted*() and Search()
func (e *Engine) checkQuery(st *State, ret Val, s *Summary, name string) {
	if s == nil || !st.feasible() {
		return
	}
	e.curIn = lastInstr(s.fn)
	v, ok := e.intOf(st, ret)
	if !ok {
		e.check(st, "result", false, "result of "+name+" is an integer the analysis can follow")
		return
	}
	v = st.normInt(v)
	r := s.root.ID
	if name == "Search" {
		e.check(st, "result", st.le(K(0), v.L) && st.le(v.L, s.n), "result of Search is in [0,n]")
		e.check(st, "result", st.coverKind(r, K(0), v.L, fFalse), "predicate is false below the result of Search")
		e.check(st, "result", st.coverKind(r, v.L, s.n, fTrue), "predicate is true from the result of Search on")
		return
	}
	if !strings.HasPrefix(name, "IsSorted") {
		return
	}
	flt := isFloat(s.root.Elem)
	// in order
	z := st.clone()
	z.assumeEq(v.L)
	z.prepRet()
	if z.feasible() && !z.countConflict() {
		f := &Fact{K: fSorted, Lo: s.lo, Hi: s.hi, Key: s.keyName}
		ok := z.holds(r, f)
		if !ok && flt && !s.num {
			ok = e.nanSorted(z, r, s.lo, s.hi)
		}
		e.check(z, "result", ok, name+" returns 0 only if the collection is in order")
	}
	// out of order
	for _, sgn := range []int64{1, -1} {
		z := st.clone()
		z.assume(v.L.Scale(-sgn).AddK(1))
		if !z.feasible() {
			continue
		}
		if sgn < 0 {
			e.check(z, "result", false, name+" never returns a negative index")
			continue
		}
		e.check(z, "result", z.lt(v.L, s.n), name+" returns an index below n")
		e.check(z, "result", e.outOfOrder(z, s, v.L, flt), name+" returns i > 0 only if element i is out of order with respect to element i-1")
	}
}

// element at i is smaller than the one before, or (floats) a NaN is at either position
// and the collection is not in order
func (e *Engine) outOfOrder(st *State, s *Summary, i Lin, flt bool) bool {
	r := s.root.ID
	x, y := st.valueAt(r, i.AddK(-1)), st.valueAt(r, i)
	if !flt || s.num {
		return st.ordLT(st.w.key(y, s.keyName), st.w.key(x, s.keyName))
	}
	var out []*State
	var rec func(z *State, l []Sym)
	rec = func(z *State, l []Sym) {
		if !z.feasible() {
			return
		}
		if len(l) == 0 {
			out = append(out, z)
			return
		}
		if z.nan[l[0]] != 0 {
			rec(z, l[1:])
			return
		}
		a, b := z.clone(), z
		a.setNaN(l[0], 1)
		b.setNaN(l[0], -1)
		rec(a, l[1:])
		rec(b, l[1:])
	}
	rec(st.clone(), []Sym{x, y})
	for _, z := range out {
		nx, ny := z.nan[x] < 0, z.nan[y] < 0
		switch {
		case !nx && !ny:
			if !z.ordLT(y, x) {
				return false
			}
		case nx && !ny && e.nan > 0, !nx && ny && e.nan < 0:
		default: // some other pair must be out of order
			if !(nx && e.nanDisorder(z, r, i.AddK(-1)) || ny && e.nanDisorder(z, r, i)) {
				return false
			}
		}
	}
	return true
}

// a number on the wrong side of the NaN at i (which cannot be at i itself)
func (e *Engine) nanDisorder(st *State, r RootID, i Lin) bool {
	for _, q := range st.arr(r).Eq {
		if st.nan[q.S] > 0 && (e.nan > 0 && st.le(i, q.Pos) || e.nan < 0 && st.le(q.Pos, i)) {
			return true
		}
	}
	for _, f := range st.arr(r).Facts {
		if f.K == fNum && st.lt(f.Lo, f.Hi) && (e.nan > 0 && st.le(i, f.Hi.AddK(-1)) || e.nan < 0 && st.le(f.Lo, i)) {
			return true
		}
	}
	return false
}

// dispatch: a sorter is called while only the way input reaches sorters is analysed
func (e *Engine) dispatch(st *State, fn *ssa.Function, args []Val, si, li, lo, hi int) {
	if st.dead || !st.feasible() {
		return
	}
	if si >= 0 {
		sl := args[si].(VSlice)
		if sl.R == 0 {
			return
		}
		ro := e.roots[sl.R]
		e.check(st, "dispatch", st.eq(sl.Off, K(0)) && st.eq(sl.Len, ro.Len), "sorter "+fn.Name()+" gets the whole input")
		e.check(st, "dispatch", e.class(sl.Elem) == e.class(ro.Elem) || e.memo["bylen"] && sl.Elem.String() == "[]byte" && e.class(ro.Elem) == "slice",
			"elements are handled with their own width, signedness and kind")
		e.dispd[fn.Name()] = true
		return
	}
	o := args[li].(VOracle)
	ro := e.roots[o.R]
	ok := false
	if l, k := e.intOf(st, args[lo]); k {
		if hi < 0 {
			ok = st.eq(l.L, ro.Len)
		} else if h, k := e.intOf(st, args[hi]); k {
			ok = st.eq(l.L, K(0)) && st.eq(h.L.AddK(1), ro.Len)
		}
	}
	e.check(st, "dispatch", ok, "sorter "+fn.Name()+" gets the whole input")
	if !ro.Oracle {
		e.check(st, "dispatch", o.Key == e.sortKeys(ro)[0], "the lesswap made for the input follows the documented order")
	}
	e.dispd[fn.Name()] = true
}
