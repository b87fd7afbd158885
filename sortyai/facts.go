package main

import "fmt"

// operations on facts about array contents

func (s *State) inside(pos, lo, hi Lin) bool { return s.le(lo, pos) && s.lt(pos, hi) }
func (s *State) outside(pos, lo, hi Lin) bool {
	return s.lt(pos, lo) || s.le(hi, pos)
}
func (s *State) disjoint(a, b, lo, hi Lin) bool {
	if s.le(b, lo) || s.le(hi, a) || s.le(b, a) || s.le(hi, lo) {
		return true
	}
	for _, d := range s.dis {
		if s.le(d.A, a) && s.le(b, d.B) && s.le(d.C, lo) && s.le(hi, d.D) ||
			s.le(d.A, lo) && s.le(hi, d.B) && s.le(d.C, a) && s.le(b, d.D) {
			return true
		}
	}
	return false
}

func (s *State) lookup(r RootID, pos Lin) (Sym, bool) {
	a := s.arr(r)
	for _, e := range a.Eq { // syntactic first
		d := e.Pos.Sub(pos)
		if len(d.T) == 0 && d.K == 0 {
			return e.S, true
		}
	}
	for _, e := range a.Eq {
		d := e.Pos.Sub(pos)
		if len(d.T) != 0 && s.poly.entailsEq(d) {
			return e.S, true
		}
	}
	return 0, false
}

// valueAt returns the symbol at pos, instantiating what is known about it
func (s *State) valueAt(r RootID, pos Lin) Sym {
	if x, ok := s.lookup(r, pos); ok {
		return x
	}
	x := s.w.sym()
	s.instantiate(r, pos, x)
	a := s.arr(r)
	a.Eq = append(a.Eq, Eq{pos, x})
	return x
}

func (s *State) instantiate(r RootID, pos Lin, x Sym) {
	a := s.arr(r)
	for _, f := range a.Facts {
		switch f.K {
		case fCmp:
			if s.inside(pos, f.Lo, f.Hi) {
				s.addRel(s.w.key(x, f.Key), f.Rel, f.S)
			}
		case fNaN:
			if s.inside(pos, f.Lo, f.Hi) {
				s.setNaN(x, -1)
			}
		case fNum:
			if s.inside(pos, f.Lo, f.Hi) {
				s.setNaN(x, 1)
			}
		case fSorted:
			if !s.inside(pos, f.Lo, f.Hi) {
				continue
			}
			excl := false
			for _, h := range f.Holes {
				if h.Excl {
					if !s.outside(pos, h.Lo, h.Hi) {
						excl = true
					}
				} else if !f.trivial() && s.inside(pos, h.Lo, h.Hi) {
					s.tags[x] = append(s.tags[x], Tag{r, h.Lo, h.Hi})
				}
			}
			if excl {
				continue
			}
			for _, e := range a.Eq {
				if e.S == x || !s.inside(e.Pos, f.Lo, f.Hi) {
					continue
				}
				lt, gt := s.lt(pos, e.Pos), false
				if !lt {
					gt = s.lt(e.Pos, pos)
				}
				if !lt && !gt {
					continue
				}
				ok := true
				for _, h := range f.Holes {
					eo := s.outside(e.Pos, h.Lo, h.Hi)
					if h.Excl {
						if !eo {
							ok = false
						}
					} else if !eo && !s.outside(pos, h.Lo, h.Hi) {
						ok = false
					}
				}
				if !ok {
					continue
				}
				kx, ke := s.w.key(x, f.Key), s.w.key(e.S, f.Key)
				if lt {
					s.addOrd(kx, ke, false)
				} else {
					s.addOrd(ke, kx, false)
				}
			}
		}
	}
}

// cover: is [lo,hi) covered by facts accepted by mf and points accepted by pf?
func (s *State) cover(r RootID, lo, hi Lin, mf func(*Fact) bool, pf func(Sym) bool) bool {
	if s.le(hi, lo) {
		return true
	}
	a := s.arr(r)
	var fs []*Fact
	for _, f := range a.Facts {
		if mf != nil && mf(f) {
			fs = append(fs, f)
		}
	}
	var ps []Eq
	if pf != nil {
		for _, e := range a.Eq {
			if pf(e.S) {
				ps = append(ps, e)
			}
		}
	}
	if len(fs)+len(ps) == 0 {
		return false
	}
	usedF := make([]bool, len(fs))
	usedP := make([]bool, len(ps))
	var rec func(cur Lin, depth int) bool
	rec = func(cur Lin, depth int) bool {
		if s.le(hi, cur) {
			return true
		}
		if depth > 8 {
			return false
		}
		for i, f := range fs {
			if usedF[i] || !s.le(f.Lo, cur) {
				continue
			}
			if s.le(f.Hi, cur) { // no progress
				continue
			}
			usedF[i] = true
			if rec(f.Hi, depth+1) {
				return true
			}
			usedF[i] = false
		}
		for i, p := range ps {
			if usedP[i] || !s.eq(p.Pos, cur) {
				continue
			}
			usedP[i] = true
			if rec(cur.AddK(1), depth+1) {
				return true
			}
			usedP[i] = false
		}
		return false
	}
	if rec(lo, 0) {
		return true
	}
	// points at the far end
	for i, p := range ps {
		if !usedP[i] && s.eq(p.Pos.AddK(1), hi) {
			usedP[i] = true
			h2 := hi
			hi = p.Pos
			ok := rec(lo, 1)
			hi = h2
			if ok {
				return true
			}
			usedP[i] = false
		}
	}
	return false
}

// coverCmp: for all i in [lo,hi): key(A[i]) rel x
func (s *State) coverCmp(r RootID, lo, hi Lin, key string, rel Rel, x Sym) bool {
	mf := func(f *Fact) bool {
		if f.K != fCmp || f.Key != key {
			return false
		}
		if f.S == x {
			return relImplies(f.Rel, rel)
		}
		switch rel {
		case rLE:
			return f.Rel <= rLT && s.ordLE(f.S, x)
		case rLT:
			return f.Rel == rLT && s.ordLE(f.S, x) || f.Rel == rLE && s.ordLT(f.S, x)
		case rGE:
			return f.Rel >= rGE && s.ordLE(x, f.S)
		}
		return f.Rel == rGT && s.ordLE(x, f.S) || f.Rel == rGE && s.ordLT(x, f.S)
	}
	pf := func(e Sym) bool {
		k, ok := s.w.keyIf(e, key)
		return ok && s.symRel(k, rel, x)
	}
	return s.cover(r, lo, hi, mf, pf)
}

func (w *World) keyIf(s Sym, k string) (Sym, bool) {
	if k == "" {
		return s, true
	}
	t, ok := w.derived[dkey{s, k}]
	return t, ok
}

func (s *State) coverKind(r RootID, lo, hi Lin, k FKind) bool {
	mf := func(f *Fact) bool { return f.K == k }
	var pf func(Sym) bool
	switch k {
	case fNaN:
		pf = func(e Sym) bool { return s.nan[e] == -1 }
	case fNum:
		pf = func(e Sym) bool { return s.nan[e] == 1 }
	case fR:
		mf = func(f *Fact) bool { return f.K == fW || f.K == fR }
	}
	return s.cover(r, lo, hi, mf, pf)
}

func sameKind(f, g *Fact) bool {
	return f.K == g.K && f.Rel == g.Rel && f.S == g.S && f.Key == g.Key
}

// addFact adds an interval fact, joining it with neighbours of the same kind
func (s *State) addFact(r RootID, f *Fact) {
	if s.w.noOrd && (f.K == fCmp || f.K == fSorted) {
		return
	}
	if s.le(f.Hi, f.Lo) {
		return
	}
	a := s.arr(r)
	if f.K == fSorted {
		a.Facts = append(append([]*Fact(nil), a.Facts...), f)
		return
	}
	for again := true; again; {
		again = false
		for i, g := range a.Facts {
			if !sameKind(f, g) {
				continue
			}
			if s.le(g.Lo, f.Lo) && s.le(f.Hi, g.Hi) {
				return
			}
			var n *Fact
			if s.le(f.Lo, g.Lo) && s.le(g.Hi, f.Hi) {
				n = f
			} else if s.le(g.Lo, f.Lo) && s.le(f.Lo, g.Hi) && s.le(g.Hi, f.Hi) {
				c := *f
				c.Lo = g.Lo
				n = &c
			} else if s.le(f.Lo, g.Lo) && s.le(g.Lo, f.Hi) && s.le(f.Hi, g.Hi) {
				c := *f
				c.Hi = g.Hi
				n = &c
			} else {
				continue
			}
			fs := append([]*Fact(nil), a.Facts[:i]...)
			a.Facts = append(fs, a.Facts[i+1:]...)
			f = n
			again = true
			break
		}
	}
	a.Facts = append(append([]*Fact(nil), a.Facts...), f)
}

// does any element outside... : class membership of value v in hole h of root r
func (s *State) inClass(r RootID, h Hole, v Sym) bool {
	for _, t := range s.tags[v] {
		if t.R == r && s.eq(t.Lo, h.Lo) && s.eq(t.Hi, h.Hi) {
			return true
		}
	}
	return false
}

// is v the value of a known position of hole h?
func (s *State) pointIn(r RootID, h Hole, v Sym) bool {
	for _, e := range s.arr(r).Eq {
		if e.S == v && s.inside(e.Pos, h.Lo, h.Hi) {
			return true
		}
	}
	return false
}

// tagAt records the class of the value at pos before it leaves the array
func (s *State) tagAt(r RootID, pos Lin, x Sym) {
	for _, f := range s.arr(r).Facts {
		if f.K != fSorted || f.trivial() {
			continue
		}
		for _, h := range f.Holes {
			if !h.Excl && s.inside(pos, h.Lo, h.Hi) && !s.inClass(r, h, x) {
				s.tags[x] = append(append([]Tag(nil), s.tags[x]...), Tag{r, h.Lo, h.Hi})
			}
		}
	}
}

// purgeTags: a new fact with holes says nothing about values that were in
// these holes before and are now elsewhere
func (s *State) purgeTags(r RootID, f *Fact) {
	if f.K != fSorted {
		return
	}
	for _, h := range f.Holes {
		if h.Excl {
			continue
		}
		for x, ts := range s.tags {
			if !s.inClass(r, h, x) || s.pointIn(r, h, x) {
				continue
			}
			var out []Tag
			for _, t := range ts {
				if t.R == r && s.eq(t.Lo, h.Lo) && s.eq(t.Hi, h.Hi) {
					continue
				}
				out = append(out, t)
			}
			s.tags[x] = out
		}
	}
}

// store writes v at pos (aliasing is resolved by the caller when it matters)
func (s *State) store(r RootID, pos Lin, v Sym) {
	old := s.valueAt(r, pos)
	a := s.arr(r)
	w := s.w
	s.tagAt(r, pos, old)

	// multiset bookkeeping
	for _, b := range a.Bags {
		if b.Broken {
			continue
		}
		if s.inside(pos, b.Lo, b.Hi) {
			if v != old {
				b.add(v, 1)
				b.add(old, -1)
			}
		} else if !s.outside(pos, b.Lo, b.Hi) {
			b.Broken = true
			if b.Root && dbgBag {
				fmt.Println("BROKEN", pos, s)
			}
		}
	}
	if v == old {
		return
	}
	// sortedness facts use the state before the store
	var facts []*Fact
	for _, f := range a.Facts {
		switch f.K {
		case fW, fR, fTrue, fFalse:
			facts = append(facts, f)
			continue
		case fSorted:
			if g := s.storeSorted(r, f, pos, v, old); g != nil {
				facts = append(facts, g)
			}
			continue
		}
		if s.outside(pos, f.Lo, f.Hi) {
			facts = append(facts, f)
			continue
		}
		keep := false
		switch f.K {
		case fCmp:
			keep = s.symRel(w.key(v, f.Key), f.Rel, f.S)
		case fNaN:
			keep = s.nan[v] == -1
		case fNum:
			keep = s.nan[v] == 1
		}
		if keep {
			facts = append(facts, f)
			continue
		}
		in := s.inside(pos, f.Lo, f.Hi)
		if in || s.le(pos, f.Lo) { // [pos+1, Hi) stays
			g := *f
			if in {
				g.Lo = pos.AddK(1)
			} else {
				g.Lo = f.Lo.AddK(1)
			}
			if !s.le(g.Hi, g.Lo) {
				facts = append(facts, &g)
			}
		}
		if in || s.le(f.Hi.AddK(-1), pos) {
			g := *f
			if in {
				g.Hi = pos
			} else {
				g.Hi = f.Hi.AddK(-1)
			}
			if !s.le(g.Hi, g.Lo) {
				facts = append(facts, &g)
			}
		}
	}
	// points
	var eqs []Eq
	for _, e := range a.Eq {
		if s.eq(e.Pos, pos) {
			continue
		}
		if s.symDiffer(e.S, old) || s.neq(e.Pos, pos) {
			eqs = append(eqs, e)
		}
	}
	a.Eq = append(eqs, Eq{pos, v})
	a.Facts = facts
	// extend sorted runs
	for i, f := range a.Facts {
		if f.K != fSorted {
			continue
		}
		if s.eq(pos, f.Hi) {
			if y, ok := s.lookup(r, f.Hi.AddK(-1)); ok && s.freeOf(f, f.Hi.AddK(-1)) &&
				s.ordLE(w.key(y, f.Key), w.key(v, f.Key)) && s.noHoleAtEnd(f) {
				g := *f
				g.Hi = f.Hi.AddK(1)
				a.Facts[i] = &g
			}
		}
	}
	s.fillHoles(r)
}

// position outside all holes of f
func (s *State) freeOf(f *Fact, pos Lin) bool {
	for _, h := range f.Holes {
		if !s.outside(pos, h.Lo, h.Hi) {
			return false
		}
	}
	return true
}

// no excluded hole at all (so that the last element bounds all)
func (s *State) noHoleAtEnd(f *Fact) bool { return true }

// nothing is said: one hole covers it all
func (f *Fact) trivial() bool {
	for _, h := range f.Holes {
		if !h.Excl && h.Lo.Eq(f.Lo) && h.Hi.Eq(f.Hi) {
			return true
		}
	}
	return false
}

// trivial facts within another sorted fact are not needed
func (s *State) dropTrivial(r RootID) {
	a := s.arr(r)
	var out []*Fact
	for i, f := range a.Facts {
		drop := false
		if f.K == fSorted && f.trivial() {
			for j, g := range a.Facts {
				if i == j || g.K != fSorted || g.Key != f.Key || !s.le(g.Lo, f.Lo) || !s.le(f.Hi, g.Hi) {
					continue
				}
				if !g.trivial() || j < i || !(s.le(f.Lo, g.Lo) && s.le(g.Hi, f.Hi)) {
					drop = true
					break
				}
			}
		}
		if !drop {
			out = append(out, f)
		}
	}
	a.Facts = out
}

func (b *Bag) add(x Sym, c int64) {
	b.D[x] += c
	if b.D[x] == 0 {
		delete(b.D, x)
	}
}

// effect of storing v over old at pos on a sorted fact; nil: lost
func (s *State) storeSorted(r RootID, f *Fact, pos Lin, v, old Sym) *Fact {
	if s.outside(pos, f.Lo, f.Hi) {
		return f
	}
	if f.trivial() {
		return f
	}
	w := s.w
	for i, h := range f.Holes {
		if s.inside(pos, h.Lo, h.Hi) {
			if h.Excl {
				// filled by a value that fits? decided by fillHoles after the store
				return f
			}
			if s.inClass(r, h, v) || s.pointIn(r, h, v) {
				return f
			}
			_ = i
			return nil
		}
	}
	if !s.inside(pos, f.Lo, f.Hi) || !s.freeOf(f, pos) {
		// may or may not be inside: keep only if harmless
		return nil
	}
	kv, ko := w.key(v, f.Key), w.key(old, f.Key)
	if s.fitsLeft(r, f, pos, kv, ko) && s.fitsRight(r, f, pos, kv, ko) {
		return f
	}
	g := *f
	g.Holes = append(append([]Hole(nil), f.Holes...), Hole{pos, pos.AddK(1), true})
	// an excluded position at either end just shortens the fact
	if s.eq(pos, f.Lo) {
		g.Holes = f.Holes
		g.Lo = pos.AddK(1)
	} else if s.eq(pos.AddK(1), f.Hi) {
		g.Holes = f.Holes
		g.Hi = pos
	}
	return &g
}

// value with key kv is >= everything of f left of pos
func (s *State) fitsLeft(r RootID, f *Fact, pos Lin, kv, ko Sym) bool {
	if ko != 0 && s.ordLE(ko, kv) {
		return true
	}
	if s.le(pos, f.Lo) {
		return true
	}
	for _, e := range s.arr(r).Eq {
		k, ok := s.w.keyIf(e.S, f.Key)
		if !ok || !s.ordLE(k, kv) || !s.inside(e.Pos, f.Lo, f.Hi) || !s.freeOf(f, e.Pos) {
			continue
		}
		if s.le(pos.AddK(-1), e.Pos) && !s.eq(pos, e.Pos) { // e at or right of pos-1
			return true
		}
	}
	return s.coverCmp(r, f.Lo, pos, f.Key, rLE, kv)
}

func (s *State) fitsRight(r RootID, f *Fact, pos Lin, kv, ko Sym) bool {
	if ko != 0 && s.ordLE(kv, ko) {
		return true
	}
	if s.le(f.Hi, pos.AddK(1)) {
		return true
	}
	for _, e := range s.arr(r).Eq {
		k, ok := s.w.keyIf(e.S, f.Key)
		if !ok || !s.ordLE(kv, k) || !s.inside(e.Pos, f.Lo, f.Hi) || !s.freeOf(f, e.Pos) {
			continue
		}
		if s.le(e.Pos, pos.AddK(1)) && !s.eq(pos, e.Pos) {
			return true
		}
	}
	return s.coverCmp(r, pos.AddK(1), f.Hi, f.Key, rGE, kv)
}

// fillHoles removes holes whose contents are known to fit
func (s *State) fillHoles(r RootID) {
	a := s.arr(r)
	for i, f := range a.Facts {
		if f.K != fSorted || len(f.Holes) == 0 {
			continue
		}
		var hs []Hole
		ch := false
		for hi, h := range f.Holes {
			drop := false
			if s.le(h.Hi, h.Lo) {
				drop = true
			} else if !h.Excl {
				if s.le(h.Hi, h.Lo.AddK(1)) {
					drop = true
				} else {
					for j, g := range a.Facts {
						if j != i && g.K == fSorted && g.Key == f.Key && len(g.Holes) == 0 && s.le(g.Lo, h.Lo) && s.le(h.Hi, g.Hi) {
							drop = true
						}
					}
				}
			} else if s.eq(h.Hi, h.Lo.AddK(1)) {
				if y, ok := s.lookup(r, h.Lo); ok {
					// f without this hole's position: test against the rest
					g := *f
					g.Holes = append(append([]Hole(nil), f.Holes[:hi]...), f.Holes[hi+1:]...)
					ky := s.w.key(y, f.Key)
					if s.fitsLeft(r, &g, h.Lo, ky, 0) && s.fitsRight(r, &g, h.Lo, ky, 0) {
						drop = true
					}
				}
			}
			if drop {
				ch = true
			} else {
				hs = append(hs, h)
			}
		}
		if ch {
			g := *f
			g.Holes = hs
			a.Facts[i] = &g
		}
	}
}

// splitHole divides a class hole of f at position at, if the two parts are separated by a pivot
func (s *State) splitHole(r RootID, f *Fact, h Hole, at Lin) ([]Hole, bool) {
	if s.eq(at, h.Lo) || s.eq(at, h.Hi) {
		return []Hole{h}, true
	}
	if !s.le(h.Lo, at) || !s.le(at, h.Hi) {
		return nil, false
	}
	seen := map[Sym]bool{}
	for _, c := range s.arr(r).Facts {
		if c.K != fCmp || c.Key != f.Key || seen[c.S] {
			continue
		}
		seen[c.S] = true
		if s.coverCmp(r, h.Lo, at, f.Key, rLE, c.S) && s.coverCmp(r, at, h.Hi, f.Key, rGE, c.S) {
			return []Hole{{h.Lo, at, false}, {at, h.Hi, false}}, true
		}
	}
	for _, e := range s.arr(r).Eq {
		k, ok := s.w.keyIf(e.S, f.Key)
		if !ok || seen[k] {
			continue
		}
		seen[k] = true
		if s.coverCmp(r, h.Lo, at, f.Key, rLE, k) && s.coverCmp(r, at, h.Hi, f.Key, rGE, k) {
			return []Hole{{h.Lo, at, false}, {at, h.Hi, false}}, true
		}
	}
	return nil, false
}

// split class holes so that [lo,hi) becomes a hole of its own
func (s *State) isolate(r RootID, lo, hi Lin, key string) {
	a := s.arr(r)
	for i, f := range a.Facts {
		if f.K != fSorted || f.Key != key {
			continue
		}
		for j := 0; j < len(f.Holes); j++ {
			h := f.Holes[j]
			if h.Excl || !s.le(h.Lo, lo) || !s.le(hi, h.Hi) {
				continue
			}
			if s.eq(h.Lo, lo) && s.eq(h.Hi, hi) {
				break
			}
			parts := []Hole{h}
			if p, ok := s.splitHole(r, f, h, lo); ok {
				parts = p
			} else {
				break
			}
			last := parts[len(parts)-1]
			if s.eq(h.Lo, lo) {
				last = parts[0]
			}
			var p2 []Hole
			if p, ok := s.splitHole(r, f, last, hi); ok {
				p2 = p
			} else {
				p2 = []Hole{last}
			}
			nh := append([]Hole(nil), f.Holes[:j]...)
			nh = append(nh, parts[:len(parts)-1]...)
			nh = append(nh, p2...)
			nh = append(nh, f.Holes[j+1:]...)
			g := *f
			g.Holes = nh
			a.Facts[i] = &g
			s.purgeTags(r, &g)
			break
		}
	}
}

// promote turns facts about single positions into interval facts
func (s *State) promote(r RootID, syms []Sym) {
	a := s.arr(r)
	eqs := append([]Eq(nil), a.Eq...)
	float := false
	for _, e := range eqs {
		if s.nan[e.S] != 0 {
			float = true
		}
	}
	for _, e := range eqs {
		if float {
			if v := s.nan[e.S]; v == 1 {
				s.addFact(r, &Fact{K: fNum, Lo: e.Pos, Hi: e.Pos.AddK(1)})
			} else if v == -1 {
				s.addFact(r, &Fact{K: fNaN, Lo: e.Pos, Hi: e.Pos.AddK(1)})
			}
		}
		for key := range s.keysOf(e.S) {
			k, _ := s.w.keyIf(e.S, key)
			for _, p := range syms {
				if p == k {
					continue
				}
				s.promotePoint(r, e.Pos, k, key, p)
			}
			for _, o := range eqs {
				ko, ok := s.w.keyIf(o.S, key)
				if !ok || ko == k {
					continue
				}
				d := o.Pos.Sub(e.Pos)
				if len(d.T) == 0 && (d.K == 1 || d.K == -1) {
					s.promotePoint(r, e.Pos, k, key, ko)
				}
			}
		}
	}
}

func (s *State) keysOf(x Sym) map[string]bool {
	m := map[string]bool{"": true}
	for k := range s.w.keys {
		if _, ok := s.w.derived[dkey{x, k}]; ok {
			m[k] = true
		}
	}
	return m
}

func (s *State) promotePoint(r RootID, pos Lin, k Sym, key string, p Sym) {
	add := func(rel Rel) {
		s.addFact(r, &Fact{K: fCmp, Lo: pos, Hi: pos.AddK(1), Rel: rel, S: p, Key: key})
	}
	if s.ordLT(k, p) {
		add(rLT)
	}
	if s.ordLE(k, p) {
		add(rLE)
	}
	if s.ordLT(p, k) {
		add(rGT)
	}
	if s.ordLE(p, k) {
		add(rGE)
	}
}

// saturate derives longer sorted runs
func (s *State) saturate(r RootID) {
	a := s.arr(r)
	s.fillHoles(r)
	// seeds from adjacent ordered points
	for _, e := range a.Eq {
		for _, o := range a.Eq {
			d := o.Pos.Sub(e.Pos)
			if len(d.T) != 0 || d.K != 1 {
				continue
			}
			for key := range s.keysOf(e.S) {
				k1, _ := s.w.keyIf(e.S, key)
				k2, ok := s.w.keyIf(o.S, key)
				if !ok || !s.ordLE(k1, k2) {
					continue
				}
				f := &Fact{K: fSorted, Lo: e.Pos, Hi: o.Pos.AddK(1), Key: key}
				if !s.holdsSortedDirect(r, f) {
					a.Facts = append(append([]*Fact(nil), a.Facts...), f)
				}
			}
		}
	}
	for round := 0; round < 4; round++ {
		ch := false
		// extension by points
		for i, f := range a.Facts {
			if f.K != fSorted || f.trivial() {
				continue
			}
			if y, ok := s.lookup(r, f.Hi); ok {
				if s.fitsLeft(r, f, f.Hi, s.w.key(y, f.Key), 0) {
					g := *f
					g.Hi = f.Hi.AddK(1)
					a.Facts[i] = &g
					ch = true
					continue
				}
			}
			if y, ok := s.lookup(r, f.Lo.AddK(-1)); ok {
				if s.fitsRight(r, f, f.Lo.AddK(-1), s.w.key(y, f.Key), 0) {
					g := *f
					g.Lo = f.Lo.AddK(-1)
					a.Facts[i] = &g
					ch = true
				}
			}
		}
		// concatenation
	outer:
		for i, f := range a.Facts {
			if f.K != fSorted {
				continue
			}
			for j, g := range a.Facts {
				if i == j || g.K != fSorted || g.Key != f.Key || !s.eq(f.Hi, g.Lo) {
					continue
				}
				if s.separated(r, f.Lo, f.Hi, g.Hi, f.Key) {
					n := *f
					n.Hi = g.Hi
					n.Holes = append(append([]Hole(nil), f.Holes...), g.Holes...)
					var fs []*Fact
					for k, x := range a.Facts {
						if k != i && k != j {
							fs = append(fs, x)
						}
					}
					a.Facts = append(fs, &n)
					s.purgeTags(r, &n)
					ch = true
					break outer
				}
			}
		}
		s.fillHoles(r)
		if !ch {
			break
		}
	}
	s.dropDominated(r)
}

// all of [lo,at) <= all of [at,hi)
func (s *State) separated(r RootID, lo, at, hi Lin, key string) bool {
	f := &Fact{Key: key}
	_, ok := s.splitHole(r, f, Hole{lo, hi, false}, at)
	if ok && !(s.eq(at, lo) || s.eq(at, hi)) {
		return true
	}
	return s.le(at, lo) || s.le(hi, at)
}

func (s *State) dropDominated(r RootID) {
	a := s.arr(r)
	var out []*Fact
	for i, f := range a.Facts {
		if s.le(f.Hi, f.Lo) {
			continue
		}
		dom := false
		for j, g := range a.Facts {
			if i == j || g.K != f.K || g.Key != f.Key {
				continue
			}
			if f.K == fSorted {
				if len(f.Holes) == 0 && len(g.Holes) == 0 && s.le(g.Lo, f.Lo) && s.le(f.Hi, g.Hi) {
					same := s.le(f.Lo, g.Lo) && s.le(g.Hi, f.Hi)
					if !same || j < i {
						dom = true
					}
				}
				continue
			}
			if f.K == fCmp && (f.S != g.S || !relImplies(g.Rel, f.Rel)) {
				continue
			}
			if s.le(g.Lo, f.Lo) && s.le(f.Hi, g.Hi) {
				same := f.Rel == g.Rel && s.le(f.Lo, g.Lo) && s.le(g.Hi, f.Hi)
				if !same || j < i {
					dom = true
				}
			}
		}
		if !dom {
			out = append(out, f)
		}
	}
	a.Facts = out
}

// holdsSortedDirect: f follows from a single stored fact or trivially
func (s *State) holdsSortedDirect(r RootID, f *Fact) bool {
	lo, hi := f.Lo, f.Hi
	// excluded holes at the ends
	for ch := true; ch; {
		ch = false
		for _, h := range f.Holes {
			if !h.Excl {
				continue
			}
			if s.le(h.Lo, lo) && s.lt(lo, h.Hi) && !s.le(hi, lo) {
				lo = h.Hi
				ch = true
			}
			if s.le(hi, h.Hi) && s.lt(h.Lo, hi) && !s.le(hi, lo) {
				hi = h.Lo
				ch = true
			}
		}
	}
	if s.le(hi, lo.AddK(1)) {
		return true
	}
	for _, h := range f.Holes {
		if s.le(h.Lo, lo) && s.le(hi, h.Hi) {
			return true
		}
	}
	for _, g := range s.arr(r).Facts {
		if g.K != fSorted || g.Key != f.Key || !s.le(g.Lo, lo) || !s.le(hi, g.Hi) {
			continue
		}
		ok := true
		for _, hg := range g.Holes {
			if s.disjoint(hg.Lo, hg.Hi, lo, hi) {
				continue
			}
			if !hg.Excl && s.le(hg.Hi, hg.Lo.AddK(1)) {
				continue
			}
			in := false
			for _, hf := range f.Holes {
				if hg.Excl && !hf.Excl {
					continue
				}
				if (s.le(hf.Lo, hg.Lo) || s.le(hf.Lo, lo)) && (s.le(hg.Hi, hf.Hi) || s.le(hi, hf.Hi)) {
					in = true
				}
			}
			if !in {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// holds: fact f (over s's own names) follows in s
func (s *State) holds(r RootID, f *Fact) bool {
	if s.le(f.Hi, f.Lo) {
		return true
	}
	switch f.K {
	case fCmp:
		return s.coverCmp(r, f.Lo, f.Hi, f.Key, f.Rel, f.S)
	case fSorted:
		return s.holdsSortedDirect(r, f)
	}
	return s.coverKind(r, f.Lo, f.Hi, f.K)
}

// sortRange applies the effect of sorting [lo,hi) by key
func (s *State) sortRange(r RootID, lo, hi Lin, key string) { s.sortRangeX(r, lo, hi, key, true, nil) }

// sortRangeX: the elements of [lo,hi) were rearranged, in ascending order when sorted is set.
// Elements at keepPts stay where they are.
func (s *State) sortRangeX(r RootID, lo, hi Lin, key string, sorted bool, keepPts []Lin) {
	if s.w.noOrd {
		return
	}
	a := s.arr(r)
	// order statistics of a small range with known contents
	if d := hi.Sub(lo); sorted && len(d.T) == 0 && d.K >= 1 && d.K <= 16 {
		n := int(d.K)
		var E []Sym
		for i := 0; i < n; i++ {
			if x, ok := s.lookup(r, lo.AddK(int64(i))); ok {
				E = append(E, s.w.key(x, key))
			}
		}
		if len(E) == n {
			defer func() {
				var prev Sym
				for i := 0; i < n; i++ {
					x := s.w.sym()
					// facts about every element carry over
					s.instantiate(r, lo.AddK(int64(i)), x)
					num := true
					for _, e := range E {
						if s.nan[e] != 1 {
							num = false
						}
					}
					if num {
						s.nan[x] = 1
					}
					k := s.w.key(x, key)
					if prev != 0 {
						s.addOrd(prev, k, false)
					}
					prev = k
					s.ranks = append(s.ranks, Rank{E: E, S: k, LE: i + 1, GE: n - i})
					a.Eq = append(a.Eq, Eq{lo.AddK(int64(i)), x})
					// bounds shared by all elements
					s.shareBounds(E, k)
				}
			}()
		}
	}
	var syms []Sym
	for _, f := range a.Facts {
		if f.K == fCmp {
			syms = append(syms, f.S)
		}
	}
	s.promote(r, syms)
	s.isolate(r, lo, hi, key)
	var facts []*Fact
	type fk struct {
		k   FKind
		rel Rel
		s   Sym
		key string
	}
	seen := map[fk]bool{}
	for _, f := range a.Facts {
		if f.K == fSorted || f.K == fW || f.K == fR {
			continue
		}
		k := fk{f.K, f.Rel, f.S, f.Key}
		if seen[k] || s.disjoint(f.Lo, f.Hi, lo, hi) {
			continue
		}
		seen[k] = true
		g := *f
		g.Lo, g.Hi = lo, hi
		if s.holds(r, &g) {
			facts = append(facts, &g)
		}
	}
	var keep []*Fact
	for _, f := range a.Facts {
		if f.K == fW || f.K == fR || s.disjoint(f.Lo, f.Hi, lo, hi) {
			keep = append(keep, f)
			continue
		}
		if f.K != fSorted {
			if s.le(f.Lo, lo) && s.le(hi, f.Hi) {
				keep = append(keep, f)
				continue
			}
			if s.le(lo, f.Hi) && !s.le(lo, f.Lo) {
				g := *f
				g.Hi = lo
				keep = append(keep, &g)
			}
			if s.le(f.Lo, hi) && !s.le(f.Hi, hi) {
				g := *f
				g.Lo = hi
				keep = append(keep, &g)
			}
			continue
		}
		// sorted facts
		if !(s.le(f.Lo, lo) && s.le(hi, f.Hi)) {
			// partial overlap: keep the parts outside
			if s.le(f.Lo, lo) && s.le(lo, f.Hi) {
				if g := s.clip(f, f.Lo, lo); g != nil {
					keep = append(keep, g)
				}
			}
			if s.le(f.Lo, hi) && s.le(hi, f.Hi) {
				if g := s.clip(f, hi, f.Hi); g != nil {
					keep = append(keep, g)
				}
			}
			continue
		}
		ok := sorted
		var hs []Hole
		if !sorted {
			for _, h := range f.Holes {
				if s.le(h.Lo, lo) && s.le(hi, h.Hi) {
					ok = true
				}
			}
			if !ok {
				if g := s.clip(f, f.Lo, lo); g != nil {
					keep = append(keep, g)
				}
				if g := s.clip(f, hi, f.Hi); g != nil {
					keep = append(keep, g)
				}
				continue
			}
			keep = append(keep, f)
			continue
		}
		for _, h := range f.Holes {
			switch {
			case s.disjoint(h.Lo, h.Hi, lo, hi):
				hs = append(hs, h)
			case h.Excl:
				ok = false
			case s.le(lo, h.Lo) && s.le(h.Hi, hi): // wholly inside: gone
				if key != f.Key {
					ok = false
				}
			case s.le(h.Lo, lo) && s.le(hi, h.Hi):
				hs = append(hs, h)
			default:
				ok = false
			}
		}
		if key != f.Key && len(f.Holes) == 0 {
			ok = false
		}
		if ok {
			g := *f
			g.Holes = hs
			keep = append(keep, &g)
		}
	}
	a.Facts = keep
	for _, f := range facts {
		s.addFact(r, f)
	}
	var eqs []Eq
	for _, e := range a.Eq {
		stay := s.outside(e.Pos, lo, hi)
		for _, k := range keepPts {
			stay = stay || s.eq(e.Pos, k)
		}
		if stay {
			eqs = append(eqs, e)
		}
	}
	a.Eq = eqs
	for _, b := range a.Bags {
		if b.Broken || s.disjoint(lo, hi, b.Lo, b.Hi) || s.le(b.Lo, lo) && s.le(hi, b.Hi) {
			continue
		}
		b.Broken = true
	}
	if sorted {
		a.Facts = append(a.Facts, &Fact{K: fSorted, Lo: lo, Hi: hi, Key: key})
	}
	s.saturate(r)
}

// bounds common to all of E hold for k as well
func (s *State) shareBounds(E []Sym, k Sym) {
	cand := map[Sym]bool{}
	for p := range s.ord {
		if p[0] == E[0] {
			cand[p[1]] = true
		}
		if p[1] == E[0] {
			cand[p[0]] = true
		}
	}
	for c := range cand {
		all := [4]bool{true, true, true, true}
		for _, e := range E {
			if !s.ordLE(e, c) {
				all[0] = false
			}
			if !s.ordLT(e, c) {
				all[1] = false
			}
			if !s.ordLE(c, e) {
				all[2] = false
			}
			if !s.ordLT(c, e) {
				all[3] = false
			}
		}
		if all[0] {
			s.addOrd(k, c, all[1])
		}
		if all[2] {
			s.addOrd(c, k, all[3])
		}
	}
}

// clip a sorted fact to [lo,hi) within it
func (s *State) clip(f *Fact, lo, hi Lin) *Fact {
	g := *f
	g.Lo, g.Hi = lo, hi
	g.Holes = nil
	for _, h := range f.Holes {
		if s.disjoint(h.Lo, h.Hi, lo, hi) {
			continue
		}
		if s.le(lo, h.Lo) && s.le(h.Hi, hi) {
			g.Holes = append(g.Holes, h)
			continue
		}
		return nil
	}
	if s.le(hi, lo.AddK(1)) {
		return nil
	}
	return &g
}

// countLE: how many elements of [lo,hi) are certainly <= p (or >= p), by known points and ranks
func (s *State) countRel(r RootID, lo, hi Lin, key string, ge bool, p Sym) int64 {
	a := s.arr(r)
	var pts []Eq
	for _, e := range a.Eq {
		if !s.inside(e.Pos, lo, hi) {
			continue
		}
		dup := false
		for _, q := range pts {
			if !s.neq(q.Pos, e.Pos) && !s.symDiffer(q.S, e.S) {
				dup = true
				break
			}
		}
		if !dup {
			pts = append(pts, e)
		}
	}
	has := map[Sym]bool{}
	c := int64(0)
	for _, e := range pts {
		k, ok := s.w.keyIf(e.S, key)
		if !ok {
			continue
		}
		has[k] = true
		if !ge && s.ordLE(k, p) || ge && s.ordLE(p, k) {
			c++
		}
	}
	for _, rk := range s.ranks {
		ok := true
		for _, e := range rk.E {
			if !has[e] {
				ok = false
			}
		}
		if !ok {
			continue
		}
		if !ge && s.ordLE(rk.S, p) && int64(rk.LE) > c {
			c = int64(rk.LE)
		}
		if ge && s.ordLE(p, rk.S) && int64(rk.GE) > c {
			c = int64(rk.GE)
		}
	}
	for _, b := range a.Bags {
		if b.Broken || len(b.D) != 0 || !s.eq(b.Lo, lo) || !s.eq(b.Hi, hi) {
			continue
		}
		n := int64(0)
		for _, x := range b.Sub {
			k, ok := x.S, x.Key == key
			if x.Key == "" {
				k, ok = s.w.keyIf(x.S, key)
			}
			if ok && (!ge && s.ordLE(k, p) || ge && s.ordLE(p, k)) {
				n++
			}
		}
		if n > c {
			c = n
		}
		for _, q := range b.Cnts {
			if q.Key != key || q.GE != ge {
				continue
			}
			if (q.S == p || !ge && s.ordLE(q.S, p) || ge && s.ordLE(p, q.S)) && q.C > c {
				c = q.C
			}
		}
	}
	return c
}

// countConflict: some bag count contradicts what is known about the contents
func (s *State) countConflict() bool {
	for r, a := range s.arrs {
		for _, b := range a.Bags {
			if b.Broken || len(b.D) != 0 {
				continue
			}
			for _, c := range b.Cnts {
				// positions that may satisfy: those not covered by the strict opposite
				rel := rGT
				if c.GE {
					rel = rLT
				}
				if s.uncovered(r, b.Lo, b.Hi, c.Key, rel, c.S, c.C-1) {
					return true
				}
			}
		}
	}
	return false
}

// at most max positions of [lo,hi) are not known to satisfy rel
func (s *State) uncovered(r RootID, lo, hi Lin, key string, rel Rel, p Sym, max int64) bool {
	var rec func(cur Lin, left int64, depth int) bool
	rec = func(cur Lin, left int64, depth int) bool {
		if s.le(hi, cur.AddK(left)) {
			return true
		}
		if depth > 10 {
			return false
		}
		a := s.arr(r)
		for _, f := range a.Facts {
			if f.K != fCmp || f.Key != key || f.Rel != rel {
				continue
			}
			if rel == rGT && !s.ordLE(p, f.S) || rel == rLT && !s.ordLE(f.S, p) {
				continue
			}
			if s.le(f.Lo, cur) && s.lt(cur, f.Hi) {
				return rec(f.Hi, left, depth+1)
			}
		}
		for _, e := range a.Eq {
			k, ok := s.w.keyIf(e.S, key)
			if ok && s.symRel(k, rel, p) && s.eq(e.Pos, cur) {
				return rec(cur.AddK(1), left, depth+1)
			}
		}
		if left > 0 {
			return rec(cur.AddK(1), left-1, depth+1)
		}
		return false
	}
	return rec(lo, max, 0)
}
