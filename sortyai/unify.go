package main

import (
	"fmt"
	"golang.org/x/tools/go/ssa"
)

// two names for the value at one position become one
func (s *State) unify() {
	var rs []RootID
	for r := range s.arrs {
		rs = append(rs, r)
	}
	for _, r := range rs {
		for s.unifyOne(r) {
		}
	}
}

func (s *State) unifyOne(r RootID) bool {
	eqs := s.arrs[r].Eq
	for i, e := range eqs {
		for _, f := range eqs[:i] {
			if e.S == f.S || !s.eq(e.Pos, f.Pos) {
				continue
			}
			x, y := f.S, e.S
			if x > y {
				x, y = y, x
			}
			if s.renameSym(y, x) {
				return true
			}
		}
	}
	return false
}

// replace symbol y by the equal x everywhere
func (s *State) renameSym(y, x Sym) bool {
	for _, k := range s.kids {
		for _, o := range k.Outs {
			u := o.St.usedSyms()
			if u[x] || u[y] {
				if dbgBag {
					fmt.Println("NORENAME", x, y)
				}
				return false
			}
		}
	}
	m := map[Sym]Sym{y: x}
	if s.renamed != nil {
		s.renamed[y] = x
	}
	for k := range s.w.keys {
		dy, ok1 := s.w.derived[dkey{y, k}]
		dx, ok2 := s.w.derived[dkey{x, k}]
		if ok1 {
			if !ok2 {
				dx = s.w.key(x, k)
			}
			m[dy] = dx
		}
	}
	g := func(z Sym) Sym {
		if n, ok := m[z]; ok {
			return n
		}
		return z
	}
	for i, f := range s.frames {
		used := false
		for _, v := range f.Env {
			valSyms(v, func(z Sym) {
				if m[z] != 0 {
					used = true
				}
			})
		}
		if used {
			n := *f
			n.Env = make(map[ssa.Value]Val, len(f.Env))
			for k, v := range f.Env {
				n.Env[k] = mapSyms(v, g)
			}
			s.frames = append([]*Frame(nil), s.frames...)
			s.frames[i] = &n
		}
	}
	for id, o := range s.objs {
		used := false
		for _, v := range o.Cells {
			valSyms(v, func(z Sym) {
				if m[z] != 0 {
					used = true
				}
			})
		}
		if used {
			n := *o
			n.Cells = map[string]Val{}
			for k, v := range o.Cells {
				n.Cells[k] = mapSyms(v, g)
			}
			s.objs[id] = &n
		}
	}
	for r, a := range s.arrs {
		n := &Arr{}
		for _, e := range a.Eq {
			n.Eq = append(n.Eq, Eq{e.Pos, g(e.S)})
		}
		for _, f := range a.Facts {
			if m[f.S] != 0 && f.K == fCmp {
				h := *f
				h.S = g(f.S)
				f = &h
			}
			n.Facts = append(n.Facts, f)
		}
		for _, b := range a.Bags {
			c := *b
			c.D = map[Sym]int64{}
			for z, k := range b.D {
				c.D[g(z)] += k
				if c.D[g(z)] == 0 {
					delete(c.D, g(z))
				}
			}
			c.Sub = nil
			for _, x := range b.Sub {
				c.Sub = append(c.Sub, SubV{g(x.S), x.Key})
			}
			c.Cnts = nil
			for _, t := range b.Cnts {
				t.S = g(t.S)
				c.Cnts = append(c.Cnts, t)
			}
			n.Bags = append(n.Bags, &c)
		}
		s.arrs[r] = n
	}
	var add [][2]Sym
	var st []bool
	for k, v := range s.ord {
		if m[k[0]] != 0 || m[k[1]] != 0 {
			add = append(add, [2]Sym{g(k[0]), g(k[1])})
			st = append(st, v)
			delete(s.ord, k)
		}
	}
	for i, k := range add {
		s.addOrd(k[0], k[1], st[i])
	}
	for z, v := range s.nan {
		if m[z] != 0 {
			delete(s.nan, z)
			s.setNaN(g(z), v)
		}
	}
	for z, t := range s.tags {
		if m[z] != 0 {
			delete(s.tags, z)
			s.tags[g(z)] = append(append([]Tag(nil), s.tags[g(z)]...), t...)
		}
	}
	for i, r := range s.ranks {
		n := Rank{S: g(r.S), LE: r.LE, GE: r.GE}
		for _, e := range r.E {
			n.E = append(n.E, g(e))
		}
		s.ranks[i] = n
	}
	for _, v := range s.sentV {
		valSyms(v, func(z Sym) {})
	}
	return true
}

func mapSyms(v Val, g func(Sym) Sym) Val {
	switch x := v.(type) {
	case VSym:
		return VSym{g(x.S), x.T}
	case VBool:
		return VBool{mapCond(x.C, g)}
	case VTuple:
		var t VTuple
		for _, y := range x {
			t = append(t, mapSyms(y, g))
		}
		return t
	case VStruct:
		n := VStruct{map[string]Val{}}
		for k, y := range x.F {
			n.F[k] = mapSyms(y, g)
		}
		return n
	case VFunc:
		n := VFunc{Fn: x.Fn}
		for _, y := range x.Binds {
			n.Binds = append(n.Binds, mapSyms(y, g))
		}
		return n
	case VBit:
		x.X, x.Y = mapSyms(x.X, g), mapSyms(x.Y, g)
		return x
	case VAny:
		x.Inner = mapSyms(x.Inner, g)
		return x
	}
	return v
}

func mapCond(c *Cond, g func(Sym) Sym) *Cond {
	if c == nil {
		return nil
	}
	n := *c
	if n.A != 0 {
		n.A = g(n.A)
	}
	if n.B != 0 {
		n.B = g(n.B)
	}
	n.X = mapCond(c.X, g)
	return &n
}
