package main

import (
	"fmt"
	"go/types"
	"os"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type phiDim struct {
	d      Dim
	la, lb Lin
}
type phiSym struct {
	s      Sym
	sa, sb Sym
}

type joiner struct {
	w        *World
	a, b     *State // with extended polys
	sharedD  func(Dim) bool
	sharedS  func(Sym) bool
	pd       []phiDim
	ps       []phiSym
	pool     []poolE
	offs     []Lin
	poolKey  map[string]bool
	rwA, rwB map[string][]Lin
	keys     []ssa.Value
	ikeys    []ssa.Value
	o        *State
	sides    [2]map[Sym][]Sym
	fresh    []freshF // facts with holes that are not a part of a fact of both sides
}

type freshF struct {
	r RootID
	f *Fact
}

func (j *joiner) noteNew(r RootID, c *Fact) {
	if c.K != fSorted || len(c.Holes) == 0 {
		return
	}
	for side := 0; side < 2; side++ {
		s := j.st(side)
		ok := false
		for _, f := range s.arr(r).Facts {
			if f.K != fSorted || f.Key != c.Key || !s.le(f.Lo, c.Lo) || !s.le(c.Hi, f.Hi) {
				continue
			}
			all := true
			for _, h := range c.Holes {
				m := h.Excl
				for _, g := range f.Holes {
					if !g.Excl && s.eq(g.Lo, h.Lo) && s.eq(g.Hi, h.Hi) {
						m = true
					}
				}
				all = all && m
			}
			if all {
				ok = true
				break
			}
		}
		if !ok {
			j.fresh = append(j.fresh, freshF{r, c})
			return
		}
	}
}

type poolE struct{ x, a, b Lin }

func (j *joiner) sharedLin(l Lin) bool {
	for _, t := range l.T {
		if t.D != dimM && t.D != dimM64 && !j.sharedD(t.D) {
			return false
		}
	}
	return true
}

func (j *joiner) dim(la, lb Lin) Lin {
	if la.Eq(lb) && j.sharedLin(la) {
		return la
	}
	for _, p := range j.pd {
		d1, d2 := la.Sub(p.la), lb.Sub(p.lb)
		if len(d1.T) == 0 && len(d2.T) == 0 && d1.K == d2.K {
			return D(p.d).AddK(d1.K)
		}
	}
	d := j.w.dim()
	j.pd = append(j.pd, phiDim{d, la, lb})
	j.a.poly = j.a.poly.add(D(d).Sub(la)).add(la.Sub(D(d)))
	j.b.poly = j.b.poly.add(D(d).Sub(lb)).add(lb.Sub(D(d)))
	j.addPool(D(d), la, lb)
	return D(d)
}

func (j *joiner) addPool(x, a, b Lin) {
	k := x.String()
	if j.poolKey[k] {
		return
	}
	j.poolKey[k] = true
	j.pool = append(j.pool, poolE{x, a, b})
}

func (j *joiner) sym(sa, sb Sym) Sym {
	if sa == sb && j.sharedS(sa) {
		return sa
	}
	for _, p := range j.ps {
		if p.sa == sa && p.sb == sb {
			return p.s
		}
	}
	// derived symbols are joined through their base
	ba, ka := j.w.baseOf(sa)
	bb, kb := j.w.baseOf(sb)
	if ka != "" && ka == kb && (ba != bb || !j.sharedS(ba)) {
		for _, p := range j.ps {
			if p.sa == ba && p.sb == bb {
				s := j.w.key(p.s, ka)
				j.ps = append(j.ps, phiSym{s, sa, sb})
				return s
			}
		}
	}
	s := j.w.sym()
	j.ps = append(j.ps, phiSym{s, sa, sb})
	if ka == "" && kb == "" {
		for k := range j.w.keys {
			x, ok1 := j.w.derived[dkey{sa, k}]
			y, ok2 := j.w.derived[dkey{sb, k}]
			if ok1 || ok2 {
				if !ok1 {
					x = j.w.key(sa, k)
				}
				if !ok2 {
					y = j.w.key(sb, k)
				}
				j.ps = append(j.ps, phiSym{j.w.key(s, k), x, y})
			}
		}
	}
	return s
}

func (j *joiner) val(x, y Val) Val {
	switch a := x.(type) {
	case VInt:
		b, ok := y.(VInt)
		if !ok {
			if bs, ok := y.(VSym); ok {
				return VSym{j.sym(j.intSym(a), bs.S), bs.T}
			}
			break
		}
		if a.T != b.T {
			break
		}
		if a.Raw != b.Raw || a.Raw && !a.L.Eq(b.L) {
			a = j.a.normInt(a)
			b = j.b.normInt(b)
		}
		return VInt{j.dim(a.L, b.L), a.T, a.Raw}
	case VSym:
		if b, ok := y.(VSym); ok {
			return VSym{j.sym(a.S, b.S), a.T}
		}
		if b, ok := y.(VInt); ok {
			return VSym{j.sym(a.S, j.intSym(b)), a.T}
		}
	case VBool:
		b, ok := y.(VBool)
		if !ok {
			break
		}
		if a.C == b.C && (a.C.K <= cUnk) {
			return a
		}
		if a.C.K == b.C.K && a.C.K <= cUnk {
			return a
		}
		if c := j.cond(a.C, b.C); c != nil {
			return VBool{c}
		}
		return VBool{condU}
	case VSlice:
		b, ok := y.(VSlice)
		if !ok || a.R != b.R {
			break
		}
		s := VSlice{a.R, j.dim(a.Off, b.Off), j.dim(a.Len, b.Len), j.dim(a.Cap, b.Cap), a.Elem}
		j.addPool(s.Off, a.Off, b.Off)
		j.addPool(s.Off.Add(s.Len), a.Off.Add(a.Len), b.Off.Add(b.Len))
		return s
	case VElemPtr:
		b, ok := y.(VElemPtr)
		if !ok || a.R != b.R {
			break
		}
		return VElemPtr{a.R, j.dim(a.Pos, b.Pos), a.T}
	case VTuple:
		b, ok := y.(VTuple)
		if !ok || len(a) != len(b) {
			break
		}
		var r VTuple
		for i := range a {
			r = append(r, j.val(a[i], b[i]))
		}
		return r
	case VStruct:
		b, ok := y.(VStruct)
		if !ok {
			break
		}
		r := VStruct{map[string]Val{}}
		ks := sortedKeys(a.F)
		for _, k := range ks {
			if w, ok := b.F[k]; ok {
				r.F[k] = j.val(a.F[k], w)
			}
		}
		return r
	}
	if reflect.DeepEqual(x, y) {
		return x
	}
	return VUnk{"joined"}
}

func sortedKeys(m map[string]Val) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (j *joiner) intSym(v VInt) Sym {
	s := j.w.sym()
	j.w.symInt[s] = v
	return s
}

func (j *joiner) cond(a, b *Cond) *Cond {
	if a.K != b.K {
		return nil
	}
	switch a.K {
	case cNot:
		if c := j.cond(a.X, b.X); c != nil {
			return notC(c)
		}
		return nil
	case cLe, cEq:
		// join of L needs all its dims joined; only when identical and shared
		if a.L.Eq(b.L) && j.sharedLin(a.L) {
			return a
		}
		return &Cond{K: a.K, L: j.dim(a.L, b.L)}
	case cLT, cLE, cSEq:
		return &Cond{K: a.K, A: j.sym(a.A, b.A), B: j.sym(a.B, b.B), F: a.F || b.F}
	case cNaN:
		return &Cond{K: a.K, A: j.sym(a.A, b.A)}
	}
	return nil
}

// rewrite e (valid in side) to joined names
func (j *joiner) rewrite(e Lin, side int) []Lin {
	m := j.rwA
	st := j.a
	if side == 1 {
		m, st = j.rwB, j.b
	}
	key := e.String()
	if r, ok := m[key]; ok {
		return r
	}
	var out []Lin
	seen := map[string]bool{}
	add := func(l Lin) {
		k := l.String()
		if !seen[k] {
			seen[k] = true
			out = append(out, l)
		}
	}
	if j.sharedLin(e) {
		add(e)
	}
	for _, p := range j.pool {
		v := p.a
		if side == 1 {
			v = p.b
		}
		d := e.Sub(v)
		if len(d.T) == 0 {
			add(p.x.AddK(d.K))
			continue
		}
		if c, ok := st.constOf(d); ok {
			add(p.x.AddK(c))
			continue
		}
		if len(d.T) <= 1 && j.sharedLin(d) && !j.sharedLin(p.x) && !j.sharedLin(e) {
			add(p.x.Add(d))
		} else if j.isOffset(d) && j.sharedLin(d) {
			add(p.x.Add(d))
		} else {
			for _, o := range j.offs {
				if !j.sharedLin(o) {
					continue
				}
				if c, ok := st.constOf(d.Sub(o)); ok {
					add(p.x.Add(o).AddK(c))
					break
				}
			}
		}
	}
	if len(out) > 14 {
		out = out[:14]
	}
	m[key] = out
	return out
}

// d is the start of a slice in use, up to a constant
func (j *joiner) isOffset(d Lin) bool {
	if j.offs == nil {
		j.offs = []Lin{}
		for _, f := range j.a.frames {
			for _, v := range f.Env {
				if sl, ok := v.(VSlice); ok && sl.R > 0 && len(sl.Off.T) > 0 {
					j.offs = append(j.offs, sl.Off)
				}
			}
		}
	}
	for _, o := range j.offs {
		if len(d.Sub(o).T) == 0 {
			return true
		}
	}
	return false
}

// ranges that do not overlap on either side
func (j *joiner) joinDis() {
	have := map[string]bool{}
	put := func(d Dis) {
		k := fmt.Sprint(d)
		if !have[k] && len(j.o.dis) < 8 {
			have[k] = true
			j.o.dis = append(j.o.dis, d)
		}
	}
	for side := 0; side < 2; side++ {
		for _, d := range j.st(side).dis {
			sh := true
			d.each(func(l Lin) { sh = sh && j.sharedLin(l) })
			if sh && j.st(1-side).disjoint(d.A, d.B, d.C, d.D) {
				put(d)
			}
		}
	}
	n := len(j.o.frames) - 1
	ks := j.envKeys()
	for i, k := range ks {
		x := j.o.frames[n].Env[k].(VSlice)
		for _, l := range ks[:i] {
			y := j.o.frames[n].Env[l].(VSlice)
			if x.R <= 0 || x.R != y.R {
				continue
			}
			xe, ye := x.Off.Add(x.Len), y.Off.Add(y.Len)
			both := true
			for side := 0; side < 2; side++ {
				sx, ok1 := j.st(side).frames[n].Env[k].(VSlice)
				sy, ok2 := j.st(side).frames[n].Env[l].(VSlice)
				both = both && ok1 && ok2 && j.st(side).disjoint(sx.Off, sx.Off.Add(sx.Len), sy.Off, sy.Off.Add(sy.Len))
			}
			if both {
				put(Dis{x.Off, xe, y.Off, ye})
			}
		}
	}
}

// constant value of d in s, if any
func (s *State) constOf(d Lin) (int64, bool) {
	if len(d.T) == 0 {
		return d.K, true
	}
	if s.poly.varies(d) {
		return 0, false
	}
	u, k := s.poly.maxOf(d)
	if k != 0 {
		return 0, false
	}
	l, k := s.poly.maxOf(d.Neg())
	if k != 0 || -l != u {
		return 0, false
	}
	return u, true
}

func (j *joiner) sideSym(x Sym, side int) Sym { // joined -> side
	for _, p := range j.ps {
		if p.s == x {
			if side == 0 {
				return p.sa
			}
			return p.sb
		}
	}
	return x
}

func (j *joiner) rewriteSym(x Sym, side int) []Sym { // side -> joined
	var out []Sym
	if j.sharedS(x) {
		out = append(out, x)
	}
	for _, p := range j.ps {
		if side == 0 && p.sa == x || side == 1 && p.sb == x {
			out = append(out, p.s)
		}
	}
	return out
}

func (j *joiner) st(side int) *State {
	if side == 0 {
		return j.a
	}
	return j.b
}

func (j *joiner) factCands(r RootID, f *Fact, side int) []*Fact {
	los := j.rewrite(f.Lo, side)
	his := j.rewrite(f.Hi, side)
	if len(los) == 0 || len(his) == 0 {
		return nil
	}
	if f.K == fSorted && f.trivial() {
		var out []*Fact
		for _, h := range j.asSlice(r, f.Lo, f.Hi, side) {
			out = append(out, &Fact{K: fSorted, Lo: h.Lo, Hi: h.Hi, Key: f.Key, Holes: []Hole{h}})
		}
		return out
	}
	syms := []Sym{0}
	if f.K == fCmp {
		syms = j.rewriteSym(f.S, side)
	}
	holesets := [][]Hole{nil}
	for _, h := range f.Holes {
		hl, hh := j.rewrite(h.Lo, side), j.rewrite(h.Hi, side)
		var ns [][]Hole
		for _, hs := range holesets {
			for _, l := range hl {
				for _, u := range hh {
					if len(ns) < 40 {
						ns = append(ns, append(append([]Hole(nil), hs...), Hole{l, u, h.Excl}))
					}
				}
			}
		}
		holesets = ns
	}
	var out []*Fact
	for _, s := range syms {
		for _, hs := range holesets {
			for _, l := range los {
				for _, h := range his {
					if len(out) < 300 {
						out = append(out, &Fact{f.K, l, h, f.Rel, s, f.Key, hs})
					}
				}
			}
		}
	}
	return out
}

// the ranges of joined slices that are [lo,hi) on this side
func (j *joiner) asSlice(r RootID, lo, hi Lin, side int) []Hole {
	st := j.st(side)
	var out []Hole
	if j.sharedLin(lo) && j.sharedLin(hi) {
		out = append(out, Hole{lo, hi, false})
	}
	for _, q := range j.ranges(r, side) {
		if st.eq(q.lo, lo) && st.eq(q.hi, hi) {
			h := Hole{q.jlo, q.jhi, false}
			dup := false
			for _, x := range out {
				dup = dup || x.Lo.Eq(h.Lo) && x.Hi.Eq(h.Hi)
			}
			if !dup {
				out = append(out, h)
			}
		}
	}
	return out
}

type jrange struct{ lo, hi, jlo, jhi Lin }

// ranges of r in use on a side, and their joined form: slices, and for a lesswap
// collection the ranges between two numbers
func (j *joiner) ranges(r RootID, side int) (out []jrange) {
	st := j.st(side)
	n := len(j.o.frames) - 1
	if n < 0 || len(st.frames)-1 != n {
		return nil
	}
	for _, k := range j.envKeys() {
		sl, ok := st.frames[n].Env[k].(VSlice)
		jl, ok2 := j.o.frames[n].Env[k].(VSlice)
		if ok && ok2 && sl.R == r && jl.R == r {
			out = append(out, jrange{sl.Off, sl.Off.Add(sl.Len), jl.Off, jl.Off.Add(jl.Len)})
		}
	}
	if !j.o.w.orc[r] {
		return
	}
	ks := j.intKeys()
	if len(ks) > 5 {
		return
	}
	for _, k := range ks {
		for _, l := range ks {
			if k == l {
				continue
			}
			x, ok1 := st.frames[n].Env[k].(VInt)
			y, ok2 := st.frames[n].Env[l].(VInt)
			jx, ok3 := j.o.frames[n].Env[k].(VInt)
			jy, ok4 := j.o.frames[n].Env[l].(VInt)
			if ok1 && ok2 && ok3 && ok4 && !x.Raw && !y.Raw && !jx.Raw && !jy.Raw {
				out = append(out, jrange{x.L, y.L.AddK(1), jx.L, jy.L.AddK(1)})
			}
		}
	}
	return
}

func (j *joiner) intKeys() []ssa.Value {
	if j.ikeys == nil {
		j.ikeys = []ssa.Value{}
		for k, v := range j.o.frames[len(j.o.frames)-1].Env {
			if i, ok := v.(VInt); ok && !i.Raw {
				j.ikeys = append(j.ikeys, k)
			}
		}
		sort.Slice(j.ikeys, func(i, k int) bool { return vless(j.ikeys[i], j.ikeys[k]) })
	}
	return j.ikeys
}

func (j *joiner) envKeys() []ssa.Value {
	if j.keys == nil {
		j.keys = []ssa.Value{}
		for k, v := range j.o.frames[len(j.o.frames)-1].Env {
			if _, ok := v.(VSlice); ok {
				j.keys = append(j.keys, k)
			}
		}
		sort.Slice(j.keys, func(i, k int) bool { return vless(j.keys[i], j.keys[k]) })
	}
	return j.keys
}

// candidates for a sorted fact whose holes are the slices in use
func (j *joiner) sliceCands(r RootID, f *Fact, side int) []*Fact {
	if f.K == fW || f.K == fR {
		st := j.st(side)
		var out []*Fact
		for _, q := range j.ranges(r, side) {
			if st.le(f.Lo, q.lo) && st.le(q.hi, f.Hi) {
				out = append(out, &Fact{K: f.K, Lo: q.jlo, Hi: q.jhi, S: f.S, Key: f.Key})
			}
		}
		return out
	}
	if f.K != fSorted || len(f.Holes) == 0 || len(f.Holes) > 4 || f.trivial() {
		return nil
	}
	var out []*Fact
	for _, w := range j.asSlice(r, f.Lo, f.Hi, side) {
		sets := [][]Hole{nil}
		for _, h := range f.Holes {
			var ns [][]Hole
			for _, x := range j.asSlice(r, h.Lo, h.Hi, side) {
				for _, s := range sets {
					if len(ns) < 12 {
						ns = append(ns, append(append([]Hole(nil), s...), Hole{x.Lo, x.Hi, h.Excl}))
					}
				}
			}
			sets = ns
		}
		for _, hs := range sets {
			out = append(out, &Fact{K: fSorted, Lo: w.Lo, Hi: w.Hi, Key: f.Key, Holes: hs})
		}
	}
	return out
}

func (j *joiner) holds(r RootID, f *Fact, side int) bool {
	g := *f
	if f.K == fCmp {
		g.S = j.sideSym(f.S, side)
	}
	return j.st(side).holds(r, &g)
}

// dims used by a state
func (s *State) usedDims() map[Dim]bool { return s.usedDims0(true) }

func (s *State) usedDims0(cells bool) map[Dim]bool {
	m := map[Dim]bool{dimM: true, dimM64: true}
	for _, d := range s.w.lens {
		m[d] = true
	}
	lin := func(l Lin) {
		for _, t := range l.T {
			m[t.D] = true
		}
	}
	for _, d := range s.dis {
		d.each(lin)
	}
	for _, f := range s.frames {
		for _, v := range f.Env {
			valLins(v, lin)
		}
	}
	for _, o := range s.objs {
		for _, v := range o.Cells {
			valLins(v, lin)
		}
	}
	for _, a := range s.arrs {
		for _, e := range a.Eq {
			if cells {
				lin(e.Pos)
			}
		}
		for _, f := range a.Facts {
			lin(f.Lo)
			lin(f.Hi)
			for _, h := range f.Holes {
				lin(h.Lo)
				lin(h.Hi)
			}
		}
		for _, b := range a.Bags {
			lin(b.Lo)
			lin(b.Hi)
		}
	}
	for _, p := range s.pins {
		lin(p)
	}
	for _, c := range s.ctr {
		if c.Dec != nil {
			m[*c.Dec] = true
		}
		for _, t := range c.Own {
			lin(t.Lo)
			lin(t.Hi)
		}
	}
	for _, k := range s.kids {
		lin(k.Lo)
		lin(k.Hi)
		for _, o := range k.Outs {
			for d := range k.Dims {
				m[d] = true
			}
			valLins(o.Val, lin)
		}
	}
	return m
}

func valLins(v Val, f func(Lin)) {
	switch x := v.(type) {
	case VInt:
		f(x.L)
	case VSlice:
		f(x.Off)
		f(x.Len)
		f(x.Cap)
	case VElemPtr:
		f(x.Pos)
	case VBool:
		for c := x.C; c != nil; c = c.X {
			f(c.L)
		}
	case VTuple:
		for _, y := range x {
			valLins(y, f)
		}
	case VStruct:
		for _, y := range x.F {
			valLins(y, f)
		}
	case VFunc:
		for _, y := range x.Binds {
			valLins(y, f)
		}
	case VBit:
		valLins(x.X, f)
		valLins(x.Y, f)
	case VAny:
		if x.Inner != nil {
			valLins(x.Inner, f)
		}
	}
}

func valSyms(v Val, f func(Sym)) {
	switch x := v.(type) {
	case VSym:
		f(x.S)
	case VBool:
		for c := x.C; c != nil; c = c.X {
			if c.A != 0 {
				f(c.A)
			}
			if c.B != 0 {
				f(c.B)
			}
		}
	case VTuple:
		for _, y := range x {
			valSyms(y, f)
		}
	case VStruct:
		for _, y := range x.F {
			valSyms(y, f)
		}
	case VFunc:
		for _, y := range x.Binds {
			valSyms(y, f)
		}
	case VBit:
		valSyms(x.X, f)
		valSyms(x.Y, f)
	}
}

func (s *State) envSyms(all bool) map[Sym]bool {
	m := map[Sym]bool{}
	add := func(x Sym) { m[x] = true }
	fs := s.frames
	for _, f := range fs {
		for _, v := range f.Env {
			valSyms(v, add)
		}
	}
	for _, o := range s.objs {
		for _, v := range o.Cells {
			valSyms(v, add)
		}
	}
	return m
}

func (s *State) usedSyms() map[Sym]bool {
	m := s.envSyms(true)
	for _, a := range s.arrs {
		for _, e := range a.Eq {
			m[e.S] = true
		}
		for _, f := range a.Facts {
			if f.K == fCmp {
				m[f.S] = true
			}
		}
		for _, b := range a.Bags {
			for x := range b.D {
				m[x] = true
			}
			for _, c := range b.Cnts {
				m[c.S] = true
			}
			for _, x := range b.Sub {
				m[x.S] = true
			}
		}
	}
	for _, k := range s.kids {
		for _, o := range k.Outs {
			for x := range o.St.usedSyms() {
				m[x] = true
			}
		}
	}
	// derived symbols and bases
	var more []Sym
	for x := range m {
		for k := range s.w.keys {
			if y, ok := s.w.derived[dkey{x, k}]; ok {
				more = append(more, y)
			}
		}
	}
	for _, x := range more {
		m[x] = true
	}
	return m
}

// drop order, NaN and tag information about unused symbols
func (s *State) gcSyms() {
	s.gcMG()
	s.gcSub()
	m := s.usedSyms()
	var rk []Rank
	for _, r := range s.ranks {
		ok := true
		for _, e := range r.E {
			if !m[e] {
				ok = false
			}
		}
		if ok {
			rk = append(rk, r)
			m[r.S] = true
		}
	}
	s.ranks = rk
	for k := range s.ord {
		if !m[k[0]] || !m[k[1]] {
			delete(s.ord, k)
		}
	}
	for k := range s.nan {
		if !m[k] {
			delete(s.nan, k)
		}
	}
	for k := range s.tags {
		if !m[k] {
			delete(s.tags, k)
		}
	}
}

// forget which values are known to be in a bag when none is in use
func (s *State) gcSub() {
	var env map[Sym]bool
	for _, a := range s.arrs {
		for _, b := range a.Bags {
			if len(b.Sub) == 0 {
				continue
			}
			if env == nil {
				env = s.envSyms(true)
			}
			ok := false
			for _, x := range b.Sub {
				ok = ok || env[x.S]
			}
			if !ok {
				b.Sub = nil
			}
		}
	}
}

// values in use at distinct positions of the bag
func (s *State) noteSub(r RootID, b *Bag, ps []Sym) {
	in := map[Sym]bool{}
	for _, p := range ps {
		in[p] = true
	}
	var pts []Eq
	var vals []SubV
	for _, e := range s.arr(r).Eq {
		if len(pts) == 12 {
			break
		}
		v := SubV{e.S, ""}
		for _, k := range s.keyNames() {
			if y, ok := s.w.keyIf(e.S, k); ok && !in[v.S] {
				v = SubV{y, k}
			}
		}
		if !in[v.S] || !s.inside(e.Pos, b.Lo, b.Hi) {
			continue
		}
		ok := true
		for _, q := range pts {
			if !s.neq(q.Pos, e.Pos) && !s.symDiffer(q.S, e.S) {
				ok = false
				break
			}
		}
		if ok {
			pts = append(pts, e)
			vals = append(vals, v)
		}
	}
	if len(pts) <= len(b.Sub) {
		return
	}
	b.Sub = vals
}

// materialize count facts for pivot-like symbols
func (s *State) materializeCnts(ps []Sym) {
	for r, a := range s.arrs {
		for _, b := range a.Bags {
			if b.Broken || len(b.D) != 0 || len(a.Eq)+len(b.Sub) == 0 {
				continue
			}
			s.noteSub(r, b, ps)
			for _, p := range ps {
				for _, key := range s.keyNames() {
					for _, ge := range []bool{false, true} {
						c := s.countRel(r, b.Lo, b.Hi, key, ge, p)
						if c < 1 {
							continue
						}
						found := false
						for i := range b.Cnts {
							q := &b.Cnts[i]
							if q.S == p && q.Key == key && q.GE == ge {
								found = true
								if c > q.C {
									q.C = c
								}
							}
						}
						if !found {
							b.Cnts = append(b.Cnts, Cnt{p, key, ge, c})
						}
					}
				}
			}
		}
	}
}

func (s *State) keyNames() []string {
	ks := []string{""}
	for k := range s.w.keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// make bags for every slice value in the current frame, so counts can refer to it
func (s *State) bagSlices() {
	for _, v := range s.top().Env {
		sl, ok := v.(VSlice)
		if !ok || sl.R <= 0 {
			continue
		}
		s.bagFor(sl.R, sl.Off, sl.Off.Add(sl.Len))
	}
}

func (s *State) bagFor(r RootID, lo, hi Lin) *Bag {
	a := s.arr(r)
	for _, b := range a.Bags {
		if b.Lo.Eq(lo) && b.Hi.Eq(hi) && !b.Root {
			if b.Broken {
				b.Broken = false
				b.D = map[Sym]int64{}
				b.Cnts, b.Sub = nil, nil
			}
			return b
		}
	}
	b := &Bag{Lo: lo, Hi: hi, D: map[Sym]int64{}}
	a.Bags = append(a.Bags, b)
	return b
}

// split holes at the ends of the slices in use
func (s *State) isolateSlices() {
	for _, v := range s.top().Env {
		sl, ok := v.(VSlice)
		if !ok || sl.R <= 0 {
			continue
		}
		keys := map[string]bool{}
		for _, f := range s.arr(sl.R).Facts {
			if f.K == fSorted && len(f.Holes) > 0 {
				keys[f.Key] = true
			}
		}
		for k := range keys {
			s.isolate(sl.R, sl.Off, sl.Off.Add(sl.Len), k)
		}
	}
	for _, q := range s.oracleRanges() {
		keys := map[string]bool{}
		for _, f := range s.arr(q.R).Facts {
			if f.K == fSorted && len(f.Holes) > 0 {
				keys[f.Key] = true
			}
		}
		for k := range keys {
			s.isolate(q.R, q.Lo, q.Hi, k)
		}
	}
}

// ranges of a lesswap collection a sorting function holds as pairs of numbers
func (s *State) oracleRanges() (out []Tag) {
	if len(s.w.orc) == 0 || s.w.rangeFn == nil || !s.w.rangeFn(s.top().Fn) {
		return
	}
	var ks []ssa.Value
	for k, v := range s.top().Env {
		switch x := v.(type) {
		case VInt:
			if !x.Raw {
				ks = append(ks, k)
			}
		}
	}
	rs := s.oraclesHeld()
	if len(rs) != 1 || len(ks) > 6 {
		return
	}
	sort.Slice(ks, func(i, j int) bool { return vless(ks[i], ks[j]) })
	a := s.arr(rs[0])
	for _, k := range ks {
		for _, l := range ks {
			x, y := s.top().Env[k].(VInt).L, s.top().Env[l].(VInt).L.AddK(1)
			if k == l || !s.le(x.AddK(2), y) {
				continue
			}
			in := false
			for _, b := range a.Bags {
				if s.le(b.Lo, x) && s.le(y, b.Hi) && !(s.eq(b.Lo, x) && s.eq(y, b.Hi)) {
					in = true
				}
			}
			if in {
				out = append(out, Tag{rs[0], x, y})
			}
		}
	}
	return
}

// a pivot nobody holds any more still separates two ranges: keep that as a split hole
func (s *State) isolateForgotten() {
	env := s.envSyms(true)
	for r, a := range s.arrs {
		for _, f := range a.Facts {
			if f.K != fCmp || env[f.S] || f.Rel != rLE && f.Rel != rLT {
				continue
			}
			for _, g := range a.Facts {
				if g.K != fCmp || g.S != f.S || g.Key != f.Key || g.Rel != rGE && g.Rel != rGT || !s.le(g.Lo, f.Hi) || !s.lt(f.Hi, g.Hi) {
					continue
				}
				s.isolateAt(r, f.Hi, f.Key)
				break
			}
		}
	}
}

func (s *State) isolateAt(r RootID, at Lin, key string) {
	a := s.arr(r)
	for i, f := range a.Facts {
		if f.K != fSorted || f.Key != key || len(f.Holes) == 0 || len(f.Holes) > 4 {
			continue
		}
		for j, h := range f.Holes {
			if h.Excl || !s.lt(h.Lo, at) || !s.lt(at, h.Hi) {
				continue
			}
			p, ok := s.splitHole(r, f, h, at)
			if !ok || len(p) != 2 {
				continue
			}
			g := *f
			g.Holes = append(append(append([]Hole(nil), f.Holes[:j]...), p...), f.Holes[j+1:]...)
			a.Facts = append([]*Fact(nil), a.Facts...)
			a.Facts[i] = &g
			s.purgeTags(r, &g)
			break
		}
	}
}

func (s *State) prepJoin() {
	s.unify()
	s.isolateForgotten()
	var ps []Sym
	for x := range s.envSyms(false) {
		ps = append(ps, x)
	}
	sort.Slice(ps, func(i, k int) bool { return ps[i] < ps[k] })
	s.bagSlices()
	s.isolateSlices()
	s.materializeCnts(ps)
	for r, a := range s.arrs {
		syms := append([]Sym(nil), ps...)
		seen := map[Sym]bool{}
		for _, x := range ps {
			seen[x] = true
		}
		for _, f := range a.Facts {
			if f.K == fCmp && !seen[f.S] {
				seen[f.S] = true
				syms = append(syms, f.S)
			}
		}
		s.promote(r, syms)
		s.chain(r)
		s.saturate(r)
	}
}

// strict and weak facts about neighbouring ranges make a weak one about both
func (s *State) chain(r RootID) {
	for n := 0; n < 4; n++ {
		fs := s.arr(r).Facts
		var add *Fact
	search:
		for _, f := range fs {
			if f.K != fCmp || f.Rel != rLT && f.Rel != rGT {
				continue
			}
			w := rLE
			if f.Rel == rGT {
				w = rGE
			}
			for _, g := range fs {
				if g.K != fCmp || g.Rel != w || g.S != f.S || g.Key != f.Key {
					continue
				}
				h := *g
				switch {
				case s.le(g.Lo, f.Lo) && s.le(f.Lo, g.Hi) && s.lt(g.Hi, f.Hi):
					h.Hi = f.Hi
				case s.le(f.Hi, g.Hi) && s.le(g.Lo, f.Hi) && s.lt(f.Lo, g.Lo):
					h.Lo = f.Lo
				default:
					continue
				}
				add = &h
				break search
			}
		}
		if add == nil {
			return
		}
		s.addFact(r, add)
	}
}

// ---------- joining two states ----------

type joinRes struct {
	st *State
	pd []phiDim
	ps []phiSym
}

// join computes an upper bound of a and b (same shape). base: dims/syms <= base are shared
// (0: whatever occurs in both).
func joinStates(a0, b0 *State, baseD Dim, baseS Sym) *joinRes {
	a, b := a0.clone(), b0.clone()
	a.prepJoin()
	b.prepJoin()
	a.gcSyms()
	b.gcSyms()
	w := a.w
	ua, ub := a.usedDims(), b.usedDims()
	sa, sb := a.usedSyms(), b.usedSyms()
	var nd Dim = w.nd
	var ns Sym = w.ns
	j := &joiner{w: w, a: a, b: b, poolKey: map[string]bool{}, rwA: map[string][]Lin{}, rwB: map[string][]Lin{}}
	inPoly := func(p *Poly) map[Dim]bool {
		m := map[Dim]bool{}
		for _, c := range p.cs {
			for _, t := range c.T {
				m[t.D] = true
			}
		}
		return m
	}
	pa, pb := inPoly(a.poly), inPoly(b.poly)
	j.sharedD = func(d Dim) bool {
		if d > nd {
			return true // phi dims of this join
		}
		if baseD != 0 {
			return d <= baseD
		}
		return (ua[d] || pa[d]) && (ub[d] || pb[d])
	}
	j.sharedS = func(x Sym) bool {
		if x > ns {
			if _, k := w.baseOf(x); k != "" {
				bs, _ := w.baseOf(x)
				if bs <= ns {
					x = bs
				} else {
					return true
				}
			} else {
				return true
			}
		}
		if baseS != 0 {
			bs, _ := w.baseOf(x)
			return bs <= baseS
		}
		return sa[x] && sb[x]
	}
	o := &State{w: w, ord: map[[2]Sym]bool{}, nan: map[Sym]int8{}, objs: map[int]*Obj{}, arrs: map[RootID]*Arr{},
		tags: map[Sym][]Tag{}, ctr: map[string]*CtrState{}, mg: map[Dim]bool{}, guard: a.guard && b.guard}
	o.cas, o.lic, o.sent, o.sentV, o.kidOut = min(a.cas, b.cas), a.lic, a.sent, a.sentV, a.kidOut
	if a.msg == b.msg {
		o.msg = a.msg
	}
	j.o = o
	// frames
	if len(a.frames) != len(b.frames) {
		panic("join: frames")
	}
	for i := range a.frames {
		fa, fb := a.frames[i], b.frames[i]
		f := &Frame{Fn: fa.Fn, Env: map[ssa.Value]Val{}, Entry: fa.Entry}
		var ks []ssa.Value
		for k := range fa.Env {
			if _, ok := fb.Env[k]; ok {
				ks = append(ks, k)
			}
		}
		sort.Slice(ks, func(x, y int) bool { return vless(ks[x], ks[y]) })
		for _, k := range ks {
			f.Env[k] = j.val(fa.Env[k], fb.Env[k])
		}
		o.frames = append(o.frames, f)
	}
	// objects
	var ids []int
	for id := range a.objs {
		if _, ok := b.objs[id]; ok {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		x, y := a.objs[id], b.objs[id]
		n := &Obj{T: x.T, Cells: map[string]Val{}, Shared: x.Shared || y.Shared, Extern: x.Extern, Fresh: x.Fresh}
		for _, k := range sortedKeys(x.Cells) {
			if v, ok := y.Cells[k]; ok {
				n.Cells[k] = j.val(x.Cells[k], v)
			}
		}
		o.objs[id] = n
	}
	// counters
	for k, ca := range a.ctr {
		cb, ok := b.ctr[k]
		if !ok {
			continue
		}
		n := *ca
		if cb.Kids > n.Kids {
			n.Kids = cb.Kids
		}
		if (ca.Dec == nil) != (cb.Dec == nil) {
			panic("join: counter")
		}
		if ca.Dec != nil {
			l := j.dim(D(*ca.Dec), D(*cb.Dec))
			if len(l.T) == 1 && l.K == 0 && l.T[0].C == 1 {
				d := l.T[0].D
				n.Dec = &d
			} else {
				d := w.dim()
				j.pd = append(j.pd, phiDim{d, D(*ca.Dec), D(*cb.Dec)})
				n.Dec = &d
			}
		}
		n.Own = nil
		for i, t := range ca.Own {
			if i < len(cb.Own) {
				n.Own = append(n.Own, Tag{t.R, j.dim(t.Lo, cb.Own[i].Lo), j.dim(t.Hi, cb.Own[i].Hi)})
			}
		}
		o.ctr[k] = &n
	}
	o.kids = a.kids
	// pins: shared ones only
	for _, p := range a.pins {
		if j.sharedLin(p) {
			o.pins = append(o.pins, p)
			j.addPool(p, p, p)
		}
	}
	for d := range a.mg {
		if b.mg[d] && j.sharedD(d) {
			o.mg[d] = true
		}
	}
	// pool of shared names
	for _, s := range []*State{a, b} {
		for _, f := range s.frames {
			for _, v := range f.Env {
				valLins(v, func(l Lin) {
					if j.sharedLin(l) && len(l.T) > 0 {
						j.addPool(Lin{T: l.T}, Lin{T: l.T}, Lin{T: l.T})
					}
				})
				if sl, ok := v.(VSlice); ok {
					e := sl.Off.Add(sl.Len)
					if j.sharedLin(e) && len(e.T) > 0 {
						j.addPool(Lin{T: e.T}, Lin{T: e.T}, Lin{T: e.T})
					}
				}
			}
		}
	}
	j.addPool(K(0), K(0), K(0))
	// points
	var rs []int
	for r := range a.arrs {
		if _, ok := b.arrs[r]; ok {
			rs = append(rs, int(r))
		}
	}
	sort.Ints(rs)
	for _, ri := range rs {
		r := RootID(ri)
		na := &Arr{}
		o.arrs[r] = na
		have := map[string]bool{}
		for side := 0; side < 2; side++ {
			for _, e := range j.st(side).arr(r).Eq {
				for _, p := range j.rewrite(e.Pos, side) {
					k := p.String()
					if have[k] {
						continue
					}
					x, ok1 := a.lookup(r, p)
					y, ok2 := b.lookup(r, p)
					if !ok1 || !ok2 {
						continue
					}
					have[k] = true
					na.Eq = append(na.Eq, Eq{p, j.sym(x, y)})
				}
			}
		}
	}
	// facts
	for _, ri := range rs {
		r := RootID(ri)
		na := o.arrs[r]
		have := map[string]bool{}
		for side := 0; side < 2; side++ {
			for _, f := range j.st(side).arr(r).Facts {
				got := false
				fk := f.String()
				for _, c := range j.sliceCands(r, f, side) {
					k := c.String()
					if have[k] {
						got = got || k != fk
					} else if j.holds(r, c, 1-side) {
						have[k] = true
						got = got || k != fk
						na.Facts = append(na.Facts, c)
						j.noteNew(r, c)
					}
				}
				if got && f.K == fSorted {
					continue
				}
				for _, c := range j.factCands(r, f, side) {
					k := c.String()
					if have[k] {
						continue
					}
					have[k] = true
					if j.holds(r, c, 1-side) {
						na.Facts = append(na.Facts, c)
						j.noteNew(r, c)
					}
				}
			}
		}
		// bags
		for _, ba := range a.arr(r).Bags {
			if ba.Broken {
				if ba.Root {
					na.Bags = append(na.Bags, ba)
				}
				continue
			}
			j.joinBag(r, ba, na)
		}
	}
	j.joinDis()
	// poly
	keep := o.usedDims()
	for _, p := range j.pd {
		keep[p.d] = true
	}
	for _, f := range a.frames[len(a.frames)-1:] {
		_ = f
	}
	o.poly = joinPoly(a.poly, b.poly, keep, j.pd)
	ds := o.dis
	o.dis = nil
	for _, d := range ds {
		if !o.disjoint(d.A, d.B, d.C, d.D) {
			o.dis = append(o.dis, d)
		}
	}
	for _, e := range a.ne {
		if j.sharedLin(e) && (b.neq(e, K(0))) {
			o.ne = append(o.ne, e)
		}
	}
	for _, e := range b.ne {
		if j.sharedLin(e) && a.neq(e, K(0)) {
			o.ne = append(o.ne, e)
		}
	}
	// order
	us := o.usedSyms()
	for _, p := range j.ps {
		us[p.s] = true
	}
	for _, rk := range a.ranks {
		ok := j.sharedS(rk.S)
		for _, e := range rk.E {
			ok = ok && j.sharedS(e)
		}
		if ok {
			o.ranks = append(o.ranks, rk)
			us[rk.S] = true
		}
	}
	var ul []Sym
	for x := range us {
		ul = append(ul, x)
	}
	sort.Slice(ul, func(i, k int) bool { return ul[i] < ul[k] })
	for _, x := range ul {
		xa, xb := j.sideSym(x, 0), j.sideSym(x, 1)
		if n := a.nan[xa]; n != 0 && n == b.nan[xb] {
			o.nan[x] = n
		}
		for _, t := range a.tags[xa] {
			for _, l := range j.rewrite(t.Lo, 0) {
				for _, h := range j.rewrite(t.Hi, 0) {
					if b.inClass(t.R, Hole{l, h, false}, xb) {
						o.tags[x] = append(o.tags[x], Tag{t.R, l, h})
					}
				}
			}
		}
		o.minTags(x)
		for _, y := range ul {
			if x == y {
				continue
			}
			ya, yb := j.sideSym(y, 0), j.sideSym(y, 1)
			if a.ordLE(xa, ya) && b.ordLE(xb, yb) {
				o.ord[[2]Sym{x, y}] = a.ordLT(xa, ya) && b.ordLT(xb, yb)
			}
		}
	}
	for _, n := range j.fresh {
		o.purgeTags(n.r, n.f)
	}
	for _, ri := range rs {
		o.dropTrivial(RootID(ri))
		o.compactSorted(RootID(ri))
		o.dropDominated(RootID(ri))
	}
	o.gcSyms()
	return &joinRes{o, j.pd, j.ps}
}

// keep at most a few sorted facts: drop those implied by another one
func (s *State) compactSorted(r RootID) {
	a := s.arr(r)
	var out []*Fact
	for i, f := range a.Facts {
		if f.K != fSorted {
			out = append(out, f)
			continue
		}
		// implied by the others?
		rest := &Arr{Eq: a.Eq}
		rest.Facts = append(append([]*Fact(nil), out...), a.Facts[i+1:]...)
		s.arrs[r] = rest
		imp := s.holdsSortedDirect(r, f)
		s.arrs[r] = a
		whole := f.trivial()
		for _, h := range f.Holes {
			if !h.Excl && h.Lo.Eq(f.Lo) && h.Hi.Eq(f.Hi) {
				whole = true
			}
		}
		if whole || !imp {
			out = append(out, f)
		}
	}
	a.Facts = out
}

func vless(a, b ssa.Value) bool {
	if a.Name() != b.Name() {
		return a.Name() < b.Name()
	}
	return a.Pos() < b.Pos()
}

func addCnt(cs []Cnt, n Cnt) []Cnt {
	for i := range cs {
		if c := &cs[i]; c.S == n.S && c.Key == n.Key && c.GE == n.GE {
			if n.C > c.C {
				c.C = n.C
			}
			return cs
		}
	}
	return append(cs, n)
}

func (j *joiner) joinBag(r RootID, ba *Bag, na *Arr) {
	for _, bb := range j.b.arr(r).Bags {
		if bb.Broken && !bb.Root || bb.Root != ba.Root {
			continue
		}
		var lo, hi *Lin
		for _, l := range j.rewrite(ba.Lo, 0) {
			if j.b.eq(l, bb.Lo) {
				x := l
				lo = &x
				break
			}
		}
		if lo == nil {
			continue
		}
		for _, h := range j.rewrite(ba.Hi, 0) {
			if j.b.eq(h, bb.Hi) {
				x := h
				hi = &x
				break
			}
		}
		if hi == nil {
			continue
		}
		n := &Bag{Lo: *lo, Hi: *hi, Root: ba.Root, D: map[Sym]int64{}}
		for _, x := range na.Bags {
			if x.Root == n.Root && x.Lo.Eq(n.Lo) && x.Hi.Eq(n.Hi) {
				return
			}
		}
		if bb.Broken {
			n.Broken = true
			na.Bags = append(na.Bags, n)
			return
		}
		d, ok := j.joinDelta(ba.D, bb.D)
		if !ok {
			if ba.Root {
				n.Broken = true
				na.Bags = append(na.Bags, n)
				if dbgBag {
					fmt.Println("BROKEN JOIN", ba, bb, j.a, j.b)
				}
			}
			return
		}
		n.D = d
		for _, ca := range ba.Cnts {
			for _, cb := range bb.Cnts {
				if ca.Key != cb.Key || ca.GE != cb.GE {
					continue
				}
				var s Sym
				if ca.S == cb.S && j.sharedS(ca.S) {
					s = ca.S
				} else {
					for _, p := range j.ps {
						if p.sa == ca.S && p.sb == cb.S {
							s = p.s
						}
					}
				}
				if s == 0 {
					continue
				}
				c := ca.C
				if cb.C < c {
					c = cb.C
				}
				n.Cnts = addCnt(n.Cnts, Cnt{s, ca.Key, ca.GE, c})
			}
		}
		left := map[SubV]int{}
		for _, x := range bb.Sub {
			left[x]++
		}
		for _, x := range ba.Sub {
			if left[x] > 0 && j.sharedS(x.S) {
				left[x]--
				n.Sub = append(n.Sub, x)
				continue
			}
			for _, p := range j.ps {
				if y := (SubV{p.sb, x.Key}); p.sa == x.S && left[y] > 0 {
					left[y]--
					n.Sub = append(n.Sub, SubV{p.s, x.Key})
					break
				}
			}
		}
		na.Bags = append(na.Bags, n)
		return
	}
	if ba.Root {
		na.Bags = append(na.Bags, &Bag{Lo: ba.Lo, Hi: ba.Hi, Root: true, Broken: true, D: map[Sym]int64{}})
	}
}

var dbgBag = os.Getenv("SORTYAI_BAG") != ""

// common expression of two multiset differences
func (j *joiner) joinDelta(da, db map[Sym]int64) (map[Sym]int64, bool) {
	if len(da) == 0 && len(db) == 0 {
		return map[Sym]int64{}, true
	}
	match := func(c map[Sym]int64, side int, want map[Sym]int64) bool {
		m := map[Sym]int64{}
		for x, k := range c {
			m[j.sideSym(x, side)] += k
		}
		for x, k := range want {
			m[x] -= k
		}
		for _, k := range m {
			if k != 0 {
				return false
			}
		}
		return true
	}
	try := func(d map[Sym]int64, side int, other map[Sym]int64) (map[Sym]int64, bool) {
		var xs []Sym
		for x := range d {
			xs = append(xs, x)
		}
		if len(xs) > 4 {
			return nil, false
		}
		sort.Slice(xs, func(i, k int) bool { return xs[i] < xs[k] })
		var rec func(i int, cur map[Sym]int64) (map[Sym]int64, bool)
		rec = func(i int, cur map[Sym]int64) (map[Sym]int64, bool) {
			if i == len(xs) {
				if match(cur, 1-side, other) {
					r := map[Sym]int64{}
					for k, v := range cur {
						if v != 0 {
							r[k] = v
						}
					}
					return r, true
				}
				return nil, false
			}
			for _, y := range j.rewriteSym(xs[i], side) {
				cur[y] += d[xs[i]]
				if r, ok := rec(i+1, cur); ok {
					return r, true
				}
				cur[y] -= d[xs[i]]
				if cur[y] == 0 {
					delete(cur, y)
				}
			}
			return nil, false
		}
		return rec(0, map[Sym]int64{})
	}
	if len(da) > 0 {
		if r, ok := try(da, 0, db); ok {
			return r, true
		}
	}
	if len(db) > 0 {
		if r, ok := try(db, 1, da); ok {
			return r, true
		}
	}
	return nil, false
}

func oneDim(l Lin, d Dim, keep map[Dim]bool) bool {
	return len(l.T) == 1 && l.T[0].C == 1 && l.T[0].D != d && keep[l.T[0].D]
}

func joinPoly(A, B *Poly, keep map[Dim]bool, pd []phiDim) *Poly {
	kf := func(d Dim) bool { return keep[d] }
	pa, pb := A.project(kf), B.project(kf)
	if pa.empty() {
		return pb
	}
	if pb.empty() {
		return pa
	}
	var out []Lin
	done := map[string]bool{}
	try := func(e Lin) {
		t := Lin{T: e.T}
		if len(t.T) == 0 {
			return
		}
		k := t.String()
		if done[k] {
			return
		}
		done[k] = true
		m1, k1 := pa.maxOf(t)
		if k1 == 1 || k1 == 2 {
			return
		}
		m2, k2 := pb.maxOf(t)
		if k2 == 1 || k2 == 2 {
			return
		}
		if k1 == -1 {
			m1 = m2
		}
		if k2 == -1 {
			m2 = m1
		}
		if m2 > m1 {
			m1 = m2
		}
		if len(t.T) > 1 && (m1 > 1<<31 || m1 < -1<<31) {
			return // only implied by the largest possible length
		}
		out = addCons(out, t.AddK(-m1))
	}
	for _, c := range pa.cs {
		try(c)
	}
	for _, c := range pb.cs {
		try(c)
	}
	for _, c := range affineHull(pa, pb) {
		try(c)
		try(c.Neg())
	}
	// what one side knows about a number that is kept, as knowledge about the new
	// name it has there
	ren := func(cs []Lin, l Lin, d Dim) {
		if len(l.T) != 1 || l.T[0].C != 1 || !keep[l.T[0].D] || l.T[0].D == d {
			return
		}
		v := D(d).AddK(-l.K)
		for _, c := range cs {
			if len(c.T) > 2 && c.Coef(l.T[0].D) != 0 && c.Coef(d) == 0 {
				try(c.Subst(l.T[0].D, v))
			}
		}
	}
	for _, p := range pd {
		ren(pa.cs, p.la, p.d)
		ren(pb.cs, p.lb, p.d)
	}
	var ks []Dim
	for d := range keep {
		ks = append(ks, d)
	}
	sort.Slice(ks, func(i, k int) bool { return ks[i] < ks[k] })
	for i, p := range pd {
		try(D(p.d))
		try(D(p.d).Neg())
		for k, q := range pd {
			if k != i {
				try(D(p.d).Sub(D(q.d)))
				if k < i {
					try(D(p.d).Add(D(q.d)))
					try(D(p.d).Add(D(q.d)).Neg())
					if len(pd) <= 3 { // end of a slice
						for _, d := range ks {
							if d != p.d && d != q.d && d != dimM && d != dimM64 {
								try(D(p.d).Add(D(q.d)).Sub(D(d)))
								try(D(d).Sub(D(p.d)).Sub(D(q.d)))
							}
						}
					}
				}
			}
		}
		for _, d := range ks {
			if d == p.d || d == dimM || d == dimM64 {
				continue
			}
			try(D(p.d).Sub(D(d)))
			try(D(d).Sub(D(p.d)))
		}
	}
	// which of two ranges is longer
	if len(pd) >= 4 && len(pd) <= 6 {
		var v []Lin
		for _, p := range pd {
			v = append(v, D(p.d))
		}
		for i := range v {
			for k := i + 1; k < len(v); k++ {
				for m := k + 1; m < len(v); m++ {
					for n := m + 1; n < len(v); n++ {
						for _, x := range []Lin{
							v[i].Add(v[k]).Sub(v[m]).Sub(v[n]),
							v[i].Add(v[m]).Sub(v[k]).Sub(v[n]),
							v[i].Add(v[n]).Sub(v[m]).Sub(v[k])} {
							try(x)
							try(x.Neg())
						}
					}
				}
			}
		}
	}
	// one number changes on one way and another one on the other way
	for _, p := range pd {
		for _, q := range pd {
			if q.d == p.d {
				continue
			}
			for _, u := range []Lin{p.la, p.lb} {
				for _, v := range []Lin{q.la, q.lb} {
					if oneDim(u, p.d, keep) && oneDim(v, q.d, keep) && u.T[0].D != v.T[0].D {
						try(D(p.d).Sub(u).Sub(D(q.d).Sub(v)))
					}
				}
			}
		}
	}
	return newPoly(reduceCons(out))
}

// ---------- shape: states that may be joined ----------

func (s *State) shape() string {
	var b strings.Builder
	f := s.top()
	var ks []ssa.Value
	for k := range f.Env {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(x, y int) bool { return vless(ks[x], ks[y]) })
	for _, k := range ks {
		sh := valShape(f.Env[k])
		if sh != "" {
			fmt.Fprintf(&b, "%s:%s;", k.Name(), sh)
		}
	}
	fmt.Fprintf(&b, "|%d|", len(s.frames))
	var ids []int
	for id := range s.objs {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		o := s.objs[id]
		for _, k := range sortedKeys(o.Cells) {
			sh := valShape(o.Cells[k])
			if sh != "" {
				fmt.Fprintf(&b, "o%d%s:%s;", id, k, sh)
			}
		}
	}
	var cs []string
	for k, c := range s.ctr {
		cs = append(cs, fmt.Sprintf("%s:%d:%v:%v:%v", k, c.Tok, c.Dec != nil, c.Joined, c.Recvd))
	}
	sort.Strings(cs)
	b.WriteString(strings.Join(cs, ","))
	for _, k := range s.kids {
		fmt.Fprintf(&b, "kid%d", k.ID)
	}
	fmt.Fprintf(&b, "|%v|%d", s.sent, s.lic)
	if s.msg != 0 {
		fmt.Fprintf(&b, "|m%d", s.msg)
	}
	if s.kidOut != nil { // what was sent differs from path to path
		fmt.Fprintf(&b, "|%p", s.kidOut)
	}
	return b.String()
}

func valShape(v Val) string {
	switch x := v.(type) {
	case VBool:
		switch x.C.K {
		case cTrue:
			return "T"
		case cFalse:
			return "F"
		}
		return "?"
	case VSlice:
		return fmt.Sprint("A", x.R)
	case VElemPtr:
		return fmt.Sprint("&A", x.R)
	case VPtr:
		return fmt.Sprint("p", x.O, x.Path)
	case VFunc:
		return "f" + x.Fn.String()
	case VOracle:
		return fmt.Sprint("o", x.R)
	case VChan:
		return "c" + x.ID
	case VNil:
		return "nil"
	case VInt:
		return "" // joined numerically
	case VSym:
		return ""
	case VTuple:
		s := "("
		for _, y := range x {
			s += valShape(y) + ","
		}
		return s
	}
	return fmt.Sprintf("%T", v)
}

var _ = types.Typ

// forget values read from MaxGor nothing refers to, but not that it was more than one
func (s *State) gcMG() {
	if len(s.mg) == 0 {
		return
	}
	u := s.usedDims()
	for d := range s.mg {
		if s.le(K(2), D(d)) {
			s.guard = true
		}
		if !u[d] {
			delete(s.mg, d)
		}
	}
}

// keep only the narrowest classes of a symbol
func (s *State) minTags(x Sym) {
	ts := s.tags[x]
	if len(ts) < 2 {
		return
	}
	var out []Tag
	for i, t := range ts {
		dup := false
		for j, u := range ts {
			if j < i && t.R == u.R && s.eq(t.Lo, u.Lo) && s.eq(t.Hi, u.Hi) {
				dup = true
			}
		}
		if !dup {
			out = append(out, t)
		}
	}
	if len(out) > 4 {
		out = out[:4]
	}
	s.tags[x] = out
}

// elements of a lesswap collection at positions nobody can name any more
func (e *Engine) dropCells(s *State, ret Val) {
	for r, a := range s.arrs {
		if ro := e.roots[r]; ro == nil || !ro.Oracle {
			continue
		}
		u := s.usedDims0(false)
		valLins(ret, func(l Lin) {
			for _, t := range l.T {
				u[t.D] = true
			}
		})
		d := map[Sym]bool{}
		for _, b := range a.Bags {
			for x := range b.D {
				d[x] = true
			}
		}
		var eqs []Eq
		for _, q := range a.Eq {
			live := d[q.S]
			if !live {
				live = true
				for _, t := range q.Pos.T {
					live = live && u[t.D]
				}
			}
			if live {
				eqs = append(eqs, q)
			}
		}
		if len(eqs) < len(a.Eq) {
			s.arr(r).Eq = eqs
		}
	}
}
