package main

import (
	"fmt"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

// A function that starts goroutines and returns one index is analysed on its own, from any
// contents of its range, and is then known by what it does: it rearranges the range, and a
// value pv exists with range[:k] <= pv <= range[k:] for the index k it returns.
type partSum struct {
	ok     bool
	n      Lin
	kmin   bool // 1 <= k
	kmax   bool // k <= len-1
	reason string
}

func (e *Engine) partShape(fn *ssa.Function) (slice, lsw, lo, hi int, ok bool) {
	sig := fn.Signature
	slice, lsw, lo, hi = -1, -1, -1, -1
	if sig.Results().Len() != 1 || fn.Parent() != nil || sig.Recv() != nil || fn.Pkg != e.pkg || len(fn.Blocks) == 0 {
		return
	}
	if b, isB := sig.Results().At(0).Type().Underlying().(*types.Basic); !isB || b.Kind() != types.Int {
		return
	}
	for i := 0; i < sig.Params().Len(); i++ {
		switch u := sig.Params().At(i).Type().Underlying().(type) {
		case *types.Slice:
			if slice >= 0 {
				return
			}
			slice = i
		case *types.Signature:
			if lsw >= 0 || !isLesswap(u) {
				return
			}
			lsw = i
		case *types.Basic:
			if u.Kind() != types.Int {
				return
			}
			if lo < 0 {
				lo = i
			} else if hi < 0 {
				hi = i
			} else {
				return
			}
		case *types.Chan:
		case *types.Pointer:
			// the counter and its channel
		default:
			return
		}
	}
	goes := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, g := in.(*ssa.Go); g {
				goes = true
			}
		}
	}
	if !goes || e.recursive(fn) {
		return
	}
	if slice >= 0 && lsw < 0 && lo < 0 {
		return slice, -1, -1, -1, true
	}
	if lsw >= 0 && slice < 0 && lo >= 0 && hi >= 0 {
		return -1, lsw, lo, hi, true
	}
	return
}

var noPart = os.Getenv("SORTYAI_NOPART") != ""

func (e *Engine) tryPart(st *State, in ssa.Instruction, f VFunc, args []Val) ([]Out, bool) {
	fn := f.Fn
	if noPart || e.shallow || e.query || e.inGo > 0 || len(st.kids) > 0 || len(st.sent) > 0 {
		return nil, false
	}
	si, li, pl, ph, ok := e.partShape(fn)
	if !ok {
		return nil, false
	}
	var r RootID
	var a, b Lin
	key := "part " + fn.Name()
	for i, x := range args {
		switch v := x.(type) {
		case VSlice:
			if i != si || v.R == 0 || e.class(e.roots[v.R].Elem) != e.class(v.Elem) {
				return nil, false
			}
			r, a, b = v.R, v.Off, v.Off.Add(v.Len)
			key += "," + e.class(v.Elem)
		case VOracle:
			if i != li {
				return nil, false
			}
			r = v.R
			key += ",lsw" + v.Key
		case VInt, VChan:
		case VPtr:
			if e.ctrOfObj(st, v.O) == "" {
				return nil, false
			}
		default:
			return nil, false
		}
	}
	if li >= 0 {
		l, ok1 := e.intOf(st, args[pl])
		h, ok2 := e.intOf(st, args[ph])
		if !ok1 || !ok2 {
			return nil, false
		}
		a, b = l.L, h.L.AddK(1)
	}
	loc := e.anyCtr(st)
	if loc == "" || r == 0 || e.roots[r].Local {
		return nil, false
	}
	ro := e.roots[r]
	// what is known of the length
	min := int64(-1)
	n := b.Sub(a)
	if m, k := st.poly.maxOf(n.Neg()); k == 0 {
		min = -m
	}
	if e.debug {
		fmt.Println("TRYPART", min, st.le(K(0), a), st.le(b, ro.Len), st.coverKind(r, a, b, fW), a, b, st)
	}
	if min < 2 || !(st.le(K(0), a) && st.le(b, ro.Len)) {
		return nil, false
	}
	if !st.coverKind(r, a, b, fW) {
		e.check(st, "race", false, fmt.Sprintf("range given to %s is not used by another goroutine", fn.Name()))
		if st.dead {
			return nil, true
		}
		return e.partEffect(st, r, a, b, li, nil, false, ""), true
	}
	num := isFloat(ro.Elem) && st.coverKind(r, a, b, fNum)
	c := st.ctr[loc]
	key += fmt.Sprint(",", min, num, st.guard, len(st.mg) > 0, c.Tok, c.Created)
	ps := e.parts[key]
	if ps == nil {
		ps = e.runPart(st, fn, args, si, li, pl, ph, r, min, num, loc)
		e.parts[key] = ps
	}
	if !ps.ok {
		return nil, false
	}
	kn := e.sortKeys(ro)[0]
	if li >= 0 {
		kn = args[li].(VOracle).Key
	}
	return e.partEffect(st, r, a, b, li, ps, num, kn), true
}

// effect of a partition; without a summary: any rearrangement and any index
func (e *Engine) partEffect(st *State, r RootID, a, b Lin, li int, ps *partSum, num bool, kn string) []Out {
	st.permuteRange(r, a, b, nil)
	k := e.w.dim()
	q := D(k)
	st.assume(a.Sub(q))
	st.assume(q.Sub(b))
	ret := VInt{q, e.its["int"], false}
	if li < 0 {
		ret.L = q.Sub(a)
	}
	if ps == nil {
		return []Out{{st, ret}}
	}
	if ps.kmin {
		st.assume(a.AddK(1).Sub(q))
	}
	if ps.kmax {
		st.assume(q.AddK(1).Sub(b))
	}
	pv := e.w.sym()
	if num {
		st.setNaN(pv, 1)
	}
	st.addFact(r, &Fact{K: fCmp, Lo: a, Hi: q, Rel: rLE, S: pv, Key: kn})
	st.addFact(r, &Fact{K: fCmp, Lo: q, Hi: b, Rel: rGE, S: pv, Key: kn})
	if e.debug {
		fmt.Println("PARTED", st)
	}
	return []Out{{st, ret}}
}

func (e *Engine) runPart(st0 *State, fn *ssa.Function, args []Val, si, li, pl, ph int, r0 RootID, min int64, num bool, loc string) *partSum {
	ps := &partSum{}
	st := e.baseState()
	st.guard = st0.guard
	if len(st0.mg) > 0 { // values read from MaxGor were compared with 2 or more
		for d := range st0.mg {
			if st0.le(K(2), D(d)) {
				st.guard = true
			}
		}
	}
	c := *st0.ctr[loc]
	c.Own = nil
	st.ctr[loc] = &c
	st.objs = map[int]*Obj{}
	for id, o := range st0.objs {
		if o.Shared || o.Extern {
			st.objs[id] = o
		}
	}
	env := map[ssa.Value]Val{}
	var lo, hi Lin
	ro := e.roots[r0]
	var root *Root
	if si >= 0 {
		d, cp := e.w.dim(), e.w.dim()
		root = e.newRoot(fn.Params[si].Name()+" of "+fn.Name(), D(d), ro.Elem)
		root.Float = ro.Float
		lo, hi = K(0), D(d)
		st.poly = st.poly.add(D(d).Sub(D(cp))).add(D(cp).Sub(D(dimM)))
		env[fn.Params[si]] = VSlice{root.ID, K(0), D(d), D(cp), args[si].(VSlice).Elem}
	} else {
		d, l, h := e.w.dim(), e.w.dim(), e.w.dim()
		root = e.newRoot("collection of "+fn.Name(), D(d), ro.Elem)
		e.setOracle(root)
		lo, hi = D(l), D(h).AddK(1)
		st.poly = st.poly.add(D(d).Sub(D(dimM))).add(D(l).Neg()).add(hi.Sub(D(d)))
		env[fn.Params[li]] = VOracle{root.ID, args[li].(VOracle).Key}
		env[fn.Params[pl]] = VInt{D(l), e.its["int"], false}
		env[fn.Params[ph]] = VInt{D(h), e.its["int"], false}
	}
	for i, p := range fn.Params {
		switch args[i].(type) {
		case VChan, VPtr:
			env[p] = args[i]
		}
	}
	st.poly = st.poly.add(K(min).Sub(hi.Sub(lo)))
	a := st.arr(root.ID)
	a.Facts = append(a.Facts, &Fact{K: fW, Lo: lo, Hi: hi})
	if num {
		a.Facts = append(a.Facts, &Fact{K: fNum, Lo: lo, Hi: hi})
	}
	a.Bags = append(a.Bags, &Bag{Lo: lo, Hi: hi, Root: true, D: map[Sym]int64{}})
	st.frames = []*Frame{{Fn: fn, Env: env}}
	loops, in, cur := e.loops, e.curIn, e.cur
	e.loops, e.cur = nil, &Summary{key: fn.Name(), fn: fn, n: hi.Sub(lo), root: root}
	e.obl.push()
	outs := e.runBody(st)
	e.loops, e.curIn, e.cur = loops, in, cur
	ps.ok, ps.kmin, ps.kmax = len(outs) > 0, true, true
	key := e.sortKeys(root)[0]
	if li >= 0 {
		key = args[li].(VOracle).Key
	}
	for _, o := range outs {
		s := o.st
		s.prepRet()
		if s.dead || !s.feasible() || s.countConflict() {
			continue
		}
		v, ok := o.ret.(VInt)
		if ok {
			v = s.normInt(v)
		}
		if !ok || v.Raw || len(s.kids) > 0 || s.lic != 0 || len(s.sent) > 0 || s.ctr[loc] == nil {
			ps.why(e, "returns something else")
			ps.ok = false
			break
		}
		for l, c := range s.ctr {
			d := st0.ctr[l]
			if d == nil || d.Tok != c.Tok || d.Kids != c.Kids || (d.Dec == nil) != (c.Dec == nil) || d.Recvd != c.Recvd || d.Joined != c.Joined {
				ps.why(e, "counter differs")
				ps.ok = false
			}
		}
		k := v.L
		if si >= 0 {
			k = lo.Add(v.L)
		}
		for _, b := range s.arr(root.ID).Bags {
			if b.Root && (b.Broken || len(b.D) != 0) {
				ps.why(e, "elements change")
				ps.ok = false
			}
		}
		if !s.le(lo, k) || !s.le(k, hi) || !s.coverKind(root.ID, lo, hi, fW) || num && !s.coverKind(root.ID, lo, hi, fNum) {
			ps.why(e, "index or permission")
			ps.ok = false
		}
		if ps.kmin && !s.le(lo.AddK(1), k) && !s.impossible(k.Sub(lo)) {
			ps.kmin = false
		}
		if ps.kmax && !s.le(k.AddK(1), hi) && !s.impossible(hi.Sub(k)) {
			ps.kmax = false
		}
		found := false
		seen := map[Sym]bool{}
		for _, f := range s.arr(root.ID).Facts {
			if f.K != fCmp || seen[f.S] || f.Key != key {
				continue
			}
			seen[f.S] = true
			if s.holds(root.ID, &Fact{K: fCmp, Lo: lo, Hi: k, Rel: rLE, S: f.S, Key: key}) &&
				s.holds(root.ID, &Fact{K: fCmp, Lo: k, Hi: hi, Rel: rGE, S: f.S, Key: key}) {
				found = true
				break
			}
		}
		if !found && !e.noOrd {
			ps.why(e, "not partitioned")
			ps.ok = false
		}
		if !ps.ok {
			if e.debug {
				fmt.Println("PARTOUT", o.ret, s)
			}
			break
		}
	}
	b := e.obl.st[len(e.obl.st)-1]
	e.obl.st = e.obl.st[:len(e.obl.st)-1]
	if ps.ok && len(b.bad) == 0 {
		t := e.obl.st[len(e.obl.st)-1]
		for k := range b.ok {
			t.ok[k] = true
		}
	} else {
		if !ps.ok && len(b.bad) == 0 {
			k := OblKey{"sorted", fn.Name(), e.posStr(fn.Pos()), "returned index splits the range into lower and higher elements"}
			switch ps.reason {
			case "elements change":
				k.Cat, k.Msg = "perm", "range holds the same elements on return"
			case "counter differs":
				k.Cat, k.Msg = "protocol", "counts and messages are balanced on return"
			}
			b.bad[k] = ps.reason
		}
		ps.ok = false
		e.tentative(b)
	}
	if e.debug {
		for _, o := range outs {
			fmt.Println("PARTOUT", o.ret, o.st)
		}
		if dbgStop == "part" {
			os.Exit(0)
		}
		fmt.Println("PART", fn.Name(), min, *ps, len(outs), b.bad)
	}
	return ps
}

func (p *partSum) why(e *Engine, m string) {
	p.reason = m
	if e.debug {
		fmt.Println("NOPART", m)
	}
}

// can l be zero or less?
func (s *State) impossible(l Lin) bool {
	c := s.clone()
	c.assume(l)
	if c.dead || !c.feasible() {
		return true
	}
	c.unify()
	if c.dead {
		return true
	}
	c.prepRet()
	return c.dead || !c.feasible() || c.countConflict()
}
