package main

import (
	"fmt"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// ---------- is state b an instance of head h? ----------

type inclusion struct {
	b, h    *State
	baseD   Dim
	baseS   Sym
	bd      map[Dim]Lin
	bs      map[Sym]Sym
	late    [][2]Lin
	lateS   [][2]Sym
	fails   []string
	badC    map[int]bool
	badF    map[*Fact]bool
	badO    map[[2]Sym]bool
	badN    map[Sym]bool
	badT    map[Sym]bool
	badE    map[string]bool
	badB    map[*Bag]bool
	badCnt  map[*Bag]map[int]int64
	badSub  map[*Bag]bool
	badNE   map[int]bool
	badDis  map[int]bool
	badR    map[int]bool
	hard    bool
	noExtra bool
	round   int
	badV    map[ssa.Value]bool
}

func newInclusion(b, h *State, baseD Dim, baseS Sym) *inclusion {
	return &inclusion{b: b, h: h, baseD: baseD, baseS: baseS, bd: map[Dim]Lin{}, bs: map[Sym]Sym{},
		badC: map[int]bool{}, badF: map[*Fact]bool{}, badO: map[[2]Sym]bool{}, badN: map[Sym]bool{}, badT: map[Sym]bool{},
		badE: map[string]bool{}, badB: map[*Bag]bool{}, badCnt: map[*Bag]map[int]int64{}, badNE: map[int]bool{}, badDis: map[int]bool{}, badR: map[int]bool{},
		badV: map[ssa.Value]bool{}}
}

func (c *inclusion) fail(f string, a ...interface{}) {
	c.fails = append(c.fails, fmt.Sprintf(f, a...))
}

// the dims of h created after the base are existential, unless b still knows them as the same thing
func (c *inclusion) free(d Dim) bool {
	if d == dimM || d == dimM64 {
		return false
	}
	return d > c.baseD
}

func (c *inclusion) lin(hl, bl Lin) {
	var fd Dim = -1
	var fc int64
	n := 0
	for _, t := range hl.T {
		if c.free(t.D) {
			if _, ok := c.bd[t.D]; !ok {
				n++
				fd, fc = t.D, t.C
			}
		}
	}
	if n == 1 && (fc == 1 || fc == -1) {
		// hl = fc*fd + rest
		rest, ok := c.subst(hl.AddM(D(fd), -fc))
		if ok {
			c.bd[fd] = bl.Sub(rest).Scale(fc)
			return
		}
	}
	c.late = append(c.late, [2]Lin{hl, bl})
}

func (c *inclusion) subst(l Lin) (Lin, bool) {
	r := K(l.K)
	for _, t := range l.T {
		if c.free(t.D) {
			e, ok := c.bd[t.D]
			if !ok {
				return Lin{}, false
			}
			r = r.AddM(e, t.C)
		} else {
			r = r.AddM(D(t.D), t.C)
		}
	}
	return r, true
}

func (c *inclusion) freeSym(x Sym) bool {
	b, _ := c.h.w.baseOf(x)
	return b > c.baseS
}

func (c *inclusion) sym(hs, bs Sym) {
	if !c.freeSym(hs) {
		if hs != bs {
			c.lateS = append(c.lateS, [2]Sym{hs, bs})
		}
		return
	}
	if o, ok := c.bs[hs]; ok {
		if o != bs {
			c.lateS = append(c.lateS, [2]Sym{hs, bs})
		}
		return
	}
	c.bs[hs] = bs
	w := c.h.w
	if hb, k := w.baseOf(hs); k != "" {
		if bb, k2 := w.baseOf(bs); k2 == k {
			if _, ok := c.bs[hb]; !ok && c.freeSym(hb) {
				c.bs[hb] = bb
			}
		}
	} else {
		for k := range w.keys {
			if x, ok := w.derived[dkey{hs, k}]; ok {
				c.bs[x] = w.key(bs, k)
			}
		}
	}
}

func (c *inclusion) mapS(x Sym) (Sym, bool) {
	if !c.freeSym(x) {
		return x, true
	}
	y, ok := c.bs[x]
	if !ok {
		if hb, k := c.h.w.baseOf(x); k != "" {
			if bb, ok := c.bs[hb]; ok {
				return c.h.w.key(bb, k), true
			}
		}
	}
	return y, ok
}

func (c *inclusion) val(h, b Val, k ssa.Value) bool {
	switch x := h.(type) {
	case VUnk:
		return true
	case VInt:
		switch y := b.(type) {
		case VInt:
			if x.Raw != y.Raw || x.Raw {
				y = c.b.normInt(y)
				if x.Raw {
					x = c.h.normInt(x)
					if k != nil {
						c.h.setEnv(k, x)
					}
				}
			}
			c.lin(x.L, y.L)
			return true
		}
		return false
	case VSym:
		switch y := b.(type) {
		case VSym:
			c.sym(x.S, y.S)
			return true
		case VInt:
			s := c.b.w.sym()
			c.b.w.symInt[s] = y
			c.sym(x.S, s)
			return true
		}
		return false
	case VSlice:
		y, ok := b.(VSlice)
		if !ok || y.R != x.R {
			return false
		}
		c.lin(x.Off, y.Off)
		c.lin(x.Len, y.Len)
		c.lin(x.Cap, y.Cap)
		return true
	case VElemPtr:
		y, ok := b.(VElemPtr)
		if !ok || y.R != x.R {
			return false
		}
		c.lin(x.Pos, y.Pos)
		return true
	case VTuple:
		y, ok := b.(VTuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !c.val(x[i], y[i], nil) {
				return false
			}
		}
		return true
	case VStruct:
		y, ok := b.(VStruct)
		if !ok {
			return false
		}
		for _, f := range sortedKeys(x.F) {
			if w, ok := y.F[f]; !ok || !c.val(x.F[f], w, nil) {
				return false
			}
		}
		return true
	case VBool:
		if x.C.K == cUnk {
			return true
		}
		y, ok := b.(VBool)
		if !ok || x.C.K != y.C.K {
			return false
		}
		return x.C.K <= cUnk || condEqual(x.C, y.C)
	}
	return valEqual(h, b)
}

func condEqual(a, b *Cond) bool {
	if a == b {
		return true
	}
	if a.K != b.K || !a.L.Eq(b.L) || a.A != b.A || a.B != b.B || a.F != b.F {
		return false
	}
	if a.X != nil && b.X != nil {
		return condEqual(a.X, b.X)
	}
	return a.X == b.X
}

func (c *inclusion) check() bool {
	h, b := c.h, c.b
	if len(h.frames) != len(b.frames) {
		c.hard = true
		return false
	}
	for i, f := range h.frames {
		var ks []ssa.Value
		for k := range f.Env {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(x, y int) bool { return vless(ks[x], ks[y]) })
		for _, k := range ks {
			v := f.Env[k]
			w, ok := b.frames[i].Env[k]
			if u, un := v.(VUnk); un && u.Why == "varies" {
				continue
			}
			if !ok {
				c.badV[k] = true
				c.fail("value %s missing", k.Name())
				continue
			}
			if !c.val(v, w, k) {
				c.badV[k] = true
				c.fail("value %s: %s vs %s", k.Name(), vstr(v), vstr(w))
			}
		}
	}
	var ids []int
	for id := range h.objs {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		ob := b.objs[id]
		if ob == nil {
			c.fail("object missing")
			c.hard = true
			continue
		}
		for _, k := range sortedKeys(h.objs[id].Cells) {
			v := h.objs[id].Cells[k]
			w, ok := ob.Cells[k]
			if !ok || !c.val(v, w, nil) {
				c.fail("cell %s", k)
				n := *h.objs[id]
				n.Cells = map[string]Val{}
				for kk, vv := range h.objs[id].Cells {
					if kk != k {
						n.Cells[kk] = vv
					}
				}
				h.objs[id] = &n
			}
		}
	}
	for k, hc := range h.ctr {
		bc := b.ctr[k]
		if bc == nil {
			c.fail("counter")
			continue
		}
		if bc.Kids > hc.Kids {
			c.fail("counter kids")
			hc.Kids = bc.Kids
		}
		if hc.Dec != nil && bc.Dec != nil {
			c.lin(D(*hc.Dec), D(*bc.Dec))
		}
	}
	var rs []int
	for r := range h.arrs {
		rs = append(rs, int(r))
	}
	sort.Ints(rs)
	// points bind positions and symbols
	for _, ri := range rs {
		r := RootID(ri)
		for _, e := range h.arr(r).Eq {
			p, ok := c.subst(e.Pos)
			if !ok {
				continue
			}
			if y, ok := b.lookup(r, p); ok {
				if _, bound := c.mapS(e.S); !bound {
					c.sym(e.S, y)
				}
			}
		}
	}
	for _, p := range c.late {
		l, ok := c.subst(p[0])
		if !ok || !b.eq(l, p[1]) {
			c.fail("numbers %v vs %v", p[0], p[1])
			c.hard = true
		}
	}
	for _, p := range c.lateS {
		x, ok := c.mapS(p[0])
		if !ok || x != p[1] {
			c.fail("symbols s%d vs s%d", p[0], p[1])
			c.hard = true
		}
	}
	for i, e := range h.poly.cs {
		l, ok := c.subst(e)
		if !ok || !b.poly.entails(l) {
			c.badC[i] = true
			c.fail("constraint %v<=0", e)
		}
	}
	for i, e := range h.ne {
		l, ok := c.subst(e)
		if !ok || !b.neq(l, K(0)) {
			c.badNE[i] = true
			c.fail("disequality %v", e)
		}
	}
	for k, st := range h.ord {
		x, ok1 := c.mapS(k[0])
		y, ok2 := c.mapS(k[1])
		if !ok1 || !ok2 || st && !b.ordLT(x, y) || !b.ordLE(x, y) {
			c.badO[k] = true
			c.fail("order s%d s%d", k[0], k[1])
		}
	}
	for x, v := range h.nan {
		y, ok := c.mapS(x)
		if !ok || b.nan[y] != v {
			c.badN[x] = true
			c.fail("nan s%d", x)
		}
	}
	for x, ts := range h.tags {
		y, ok := c.mapS(x)
		for _, t := range ts {
			l, ok1 := c.subst(t.Lo)
			u, ok2 := c.subst(t.Hi)
			if !ok || !ok1 || !ok2 || !b.inClass(t.R, Hole{l, u, false}, y) {
				c.badT[x] = true
				c.fail("tag s%d", x)
			}
		}
	}
	for i, d := range h.dis {
		p, o1 := c.subst(d.A)
		q, o2 := c.subst(d.B)
		x, o3 := c.subst(d.C)
		y, o4 := c.subst(d.D)
		if !o1 || !o2 || !o3 || !o4 || !b.disjoint(p, q, x, y) {
			c.badDis[i] = true
			c.fail("disjoint %v", d)
		}
	}
	for i, rk := range h.ranks {
		m := func(x Sym) Sym {
			y, ok := c.mapS(x)
			if !ok {
				return -1
			}
			return y
		}
		found := false
		for _, q := range b.ranks {
			if q.S != m(rk.S) || q.LE < rk.LE || q.GE < rk.GE || len(q.E) != len(rk.E) {
				continue
			}
			same := true
			for k := range q.E {
				if q.E[k] != m(rk.E[k]) {
					same = false
				}
			}
			if same {
				found = true
			}
		}
		if !found {
			c.badR[i] = true
			c.fail("rank")
		}
	}
	for _, ri := range rs {
		r := RootID(ri)
		ba := b.arrs[r]
		if ba == nil {
			ba = &Arr{}
		}
		for _, e := range h.arr(r).Eq {
			p, ok1 := c.subst(e.Pos)
			x, ok2 := c.mapS(e.S)
			ok := false
			if ok1 && ok2 {
				y, ok3 := b.lookup(r, p)
				ok = ok3 && x == y
			}
			if !ok {
				c.badE[fmt.Sprint(r, e.Pos)] = true
				c.fail("point %v", e.Pos)
			}
		}
		for _, f := range h.arr(r).Facts {
			g := *f
			var ok1, ok2, ok3 bool
			g.Lo, ok1 = c.subst(f.Lo)
			g.Hi, ok2 = c.subst(f.Hi)
			ok3 = true
			if f.K == fCmp {
				g.S, ok3 = c.mapS(f.S)
			}
			g.Holes = nil
			for _, hh := range f.Holes {
				l, o1 := c.subst(hh.Lo)
				u, o2 := c.subst(hh.Hi)
				if !o1 || !o2 {
					ok3 = false
				}
				g.Holes = append(g.Holes, Hole{l, u, hh.Excl})
			}
			if !ok1 || !ok2 || !ok3 || !b.holds(r, &g) {
				c.badF[f] = true
				c.fail("fact %v", f)
			}
		}
		for _, hb := range h.arr(r).Bags {
			if hb.Broken {
				continue
			}
			lo, ok1 := c.subst(hb.Lo)
			hi, ok2 := c.subst(hb.Hi)
			var m *Bag
			if ok1 && ok2 {
				for _, x := range ba.Bags {
					if x.Root == hb.Root && !x.Broken && b.eq(x.Lo, lo) && b.eq(x.Hi, hi) {
						m = x
					}
				}
			}
			ok := m != nil
			if ok {
				d := map[Sym]int64{}
				for x, n := range hb.D {
					y, o := c.mapS(x)
					if !o {
						ok = false
					}
					d[y] += n
				}
				for x, n := range m.D {
					d[x] -= n
				}
				for _, n := range d {
					if n != 0 {
						ok = false
					}
				}
			}
			if !ok {
				c.badB[hb] = true
				c.fail("multiset [%v,%v)", hb.Lo, hb.Hi)
				continue
			}
			left := map[SubV]int{}
			for _, x := range m.Sub {
				left[x]++
			}
			for _, x := range hb.Sub {
				y, o := c.mapS(x.S)
				z := SubV{y, x.Key}
				if left[z]--; !o || left[z] < 0 {
					if c.badSub == nil {
						c.badSub = map[*Bag]bool{}
					}
					c.badSub[hb] = true
					c.fail("values in [%v,%v)", hb.Lo, hb.Hi)
					break
				}
			}
			for i, q := range hb.Cnts {
				y, o := c.mapS(q.S)
				n := int64(0)
				if o {
					n = b.countRel(r, lo, hi, q.Key, q.GE, y)
				}
				if n < q.C {
					if c.badCnt[hb] == nil {
						c.badCnt[hb] = map[int]int64{}
					}
					c.badCnt[hb][i] = n
					c.fail("count")
				}
			}
		}
	}
	for d := range h.mg {
		if c.free(d) {
			delete(h.mg, d)
		}
	}
	return len(c.fails) == 0
}

// constraints of b in terms of h's names
func (c *inclusion) backCons() []Lin {
	p := c.b.poly
	ren := map[Dim]Dim{} // temporary -> h
	keep := map[Dim]bool{dimM: true, dimM64: true}
	var ds []Dim
	for d := range c.bd {
		ds = append(ds, d)
	}
	sort.Slice(ds, func(i, k int) bool { return ds[i] < ds[k] })
	for _, d := range ds {
		t := c.h.w.dim()
		ren[t] = d
		keep[t] = true
		p = p.add(D(t).Sub(c.bd[d])).add(c.bd[d].Sub(D(t)))
	}
	hd := map[Dim]bool{}
	for _, e := range c.h.poly.cs {
		for _, t := range e.T {
			hd[t.D] = true
		}
	}
	q := p.project(func(d Dim) bool { return keep[d] || d <= c.baseD && hd[d] })
	m := map[Dim]Lin{}
	for t, d := range ren {
		m[t] = D(d)
	}
	var out []Lin
	for _, e := range q.cs {
		out = append(out, normC(e.SubstAll(m)))
	}
	return out
}

// widenPoly keeps every template bound of h that b respects, including those
// h only implies; bounds that grow move to the next threshold or are dropped
func (c *inclusion) widenPoly() *Poly {
	h := c.h.poly
	var out []Lin
	done := map[string]bool{}
	expl := map[string]bool{}
	for _, e := range h.cs {
		expl[Lin{T: e.T}.String()] = true
	}
	try := func(e Lin) {
		t := Lin{T: e.T}
		if len(t.T) == 0 {
			return
		}
		k := t.String()
		if done[k] {
			return
		}
		done[k] = true
		m1, k1 := h.maxOf(t)
		if k1 != 0 {
			return
		}
		l, ok := c.subst(t)
		if !ok {
			return
		}
		m2, k2 := c.b.poly.maxOf(l)
		if len(t.T) > 1 && (m1 > 1<<31 || m1 < -1<<31) {
			return
		}
		if c.round >= 4 && !expl[k] {
			// bounds that are only implied: take small ones, others keep moving
			if m1 > 2 {
				return
			}
			if m1 < -2 {
				m1 = -2
			}
		}
		switch {
		case k2 == -1 || k2 == 0 && m2 <= m1:
			out = addCons(out, t.AddK(-m1))
		case k2 == 0 && c.round < 9 && (m1 < -2 || c.round < 4 || len(t.T) == 1):
			for _, th := range []int64{-2, -1, 0, 1, 2} {
				if m2 <= th {
					out = addCons(out, t.AddK(-th))
					break
				}
			}
		}
	}
	for _, e := range h.cs {
		try(e)
	}
	for _, e := range c.backCons() {
		if e.octagonal() {
			try(e)
		}
	}
	hd := map[Dim]bool{}
	for _, e := range h.cs {
		for _, t := range e.T {
			hd[t.D] = true
		}
	}
	for d := range c.bd {
		hd[d] = true
	}
	var ks []Dim
	for d := range hd {
		if d != dimM && d != dimM64 {
			ks = append(ks, d)
		}
	}
	sort.Slice(ks, func(i, k int) bool { return ks[i] < ks[k] })
	for i, d := range ks {
		fd := c.free(d)
		if fd {
			try(D(d))
			try(D(d).Neg())
		}
		for _, q := range ks[:i] {
			if !fd && !c.free(q) {
				continue
			}
			try(D(d).Sub(D(q)))
			try(D(q).Sub(D(d)))
			if fd && c.free(q) {
				try(D(d).Add(D(q)))
				try(D(d).Add(D(q)).Neg())
			}
		}
	}
	// differences of the numbers in use
	var vs []Lin
	if n := len(c.h.frames); n > 0 {
		env := c.h.top().Env
		var ks []ssa.Value
		for k := range env {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return vless(ks[i], ks[j]) })
		for _, k := range ks {
			if c.badV[k] {
				continue
			}
			switch v := env[k].(type) {
			case VInt:
				if !v.Raw {
					vs = append(vs, v.L)
				}
			case VSlice:
				vs = append(vs, v.Len)
			}
		}
	}
	if len(vs) <= 14 {
		for i, x := range vs {
			for _, y := range vs[:i] {
				d := x.Sub(y)
				if len(d.T) > 2 {
					try(Lin{T: d.T})
					try(Lin{T: d.T}.Neg())
				}
			}
		}
	}
	return newPoly(reduceCons(out))
}

func (l Lin) octagonal() bool {
	for _, t := range l.T {
		if t.C != 1 && t.C != -1 {
			return false
		}
	}
	return len(l.T) <= 2
}

// weaken h by what failed
func (c *inclusion) weaken() *State {
	h := c.h.clone()
	if c.hard {
		// names could not be matched: fall back to a join
		return joinStates(c.h, c.b, c.baseD, c.baseS).st
	}
	for k := range c.badV {
		h.setEnv(k, VUnk{"varies"})
	}
	if c.noExtra {
		var cs []Lin
		for i, e := range h.poly.cs {
			if !c.badC[i] {
				cs = append(cs, e)
			}
		}
		h.poly = newPoly(cs)
	} else {
		h.poly = c.widenPoly()
	}
	var ne []Lin
	for i, e := range h.ne {
		if !c.badNE[i] {
			ne = append(ne, e)
		}
	}
	h.ne = ne
	var ds []Dis
	for i, d := range h.dis {
		if !c.badDis[i] {
			ds = append(ds, d)
		}
	}
	h.dis = ds
	for k := range c.badO {
		delete(h.ord, k)
	}
	for k := range c.badN {
		delete(h.nan, k)
	}
	for k := range c.badT {
		delete(h.tags, k)
	}
	var rk []Rank
	for i, r := range h.ranks {
		if !c.badR[i] {
			rk = append(rk, r)
		}
	}
	h.ranks = rk
	for r, a := range c.h.arrs {
		n := h.arr(r)
		var eq []Eq
		for _, e := range a.Eq {
			if !c.badE[fmt.Sprint(r, e.Pos)] {
				eq = append(eq, e)
			}
		}
		n.Eq = eq
		var fs []*Fact
		for _, f := range a.Facts {
			if !c.badF[f] {
				fs = append(fs, f)
			}
		}
		n.Facts = fs
		var bags []*Bag
		for i, b := range a.Bags {
			nb := n.Bags[i]
			if c.badB[b] {
				if b.Root {
					nb.Broken = true
					bags = append(bags, nb)
				}
				continue
			}
			if c.badSub[b] {
				nb.Sub = nil
			}
			if m := c.badCnt[b]; m != nil {
				var cn []Cnt
				for k, q := range nb.Cnts {
					if v, bad := m[k]; bad {
						if v < 1 {
							continue
						}
						q.C = v
					}
					cn = append(cn, q)
				}
				nb.Cnts = cn
			}
			bags = append(bags, nb)
		}
		n.Bags = bags
	}
	return h
}

// replaces the value of k in the frame that holds it
func (s *State) setEnv(k ssa.Value, v Val) {
	for i := len(s.frames) - 1; i >= 0; i-- {
		if _, ok := s.frames[i].Env[k]; !ok {
			continue
		}
		if i == len(s.frames)-1 {
			s.top().Env[k] = v
			return
		}
		f := *s.frames[i]
		f.Env = make(map[ssa.Value]Val, len(f.Env))
		for x, y := range s.frames[i].Env {
			f.Env[x] = y
		}
		f.Env[k] = v
		s.frames = append([]*Frame(nil), s.frames...)
		s.frames[i] = &f
		return
	}
}
