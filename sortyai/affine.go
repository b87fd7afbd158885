package main

// affine hull of two polyhedra: equalities entailed by both sides, also the
// ones that are no explicit constraint of either (Karr's join)

type eqRow struct{ l, r Lin }

const dimOne Dim = -7 // column of constants

func eqsOf(p *Poly) []Lin {
	idx := map[string][]Lin{}
	var b []byte
	var out []Lin
	for _, c := range p.cs {
		n := c.Neg()
		b = Lin{T: n.T}.termKey(b[:0])
		for _, o := range idx[string(b)] {
			if o.K == n.K {
				out = append(out, c)
				break
			}
		}
		b = Lin{T: c.T}.termKey(b[:0])
		idx[string(b)] = append(idx[string(b)], c)
	}
	return out
}

func withOne(e Lin) Lin {
	k := e.K
	e.K = 0
	if k != 0 {
		e = e.AddM(D(dimOne), k)
	}
	return e
}

func (r eqRow) norm() eqRow {
	var g int64
	for _, t := range r.l.T {
		g = gcd(g, abs64(t.C))
	}
	for _, t := range r.r.T {
		g = gcd(g, abs64(t.C))
	}
	if g > 1 {
		div := func(e Lin) Lin {
			o := Lin{T: make([]Term, len(e.T))}
			for i, t := range e.T {
				o.T[i] = Term{t.D, t.C / g}
			}
			return o
		}
		r.l, r.r = div(r.l), div(r.r)
	}
	return r
}

// affineHull returns equalities e = 0 holding in both
func affineHull(A, B *Poly) (res []Lin) {
	ea, eb := eqsOf(A), eqsOf(B)
	if len(ea) == 0 || len(eb) == 0 {
		return nil
	}
	defer func() {
		if recover() != nil { // coefficients too big
			res = nil
		}
	}()
	var rows []eqRow
	for _, e := range ea {
		e = withOne(e)
		rows = append(rows, eqRow{e, e})
	}
	for _, e := range eb {
		rows = append(rows, eqRow{withOne(e), K(0)})
	}
	for i := 0; i < len(rows); i++ {
		if len(rows[i].l.T) == 0 {
			if len(rows[i].r.T) > 0 {
				e := rows[i].r
				if k := e.Coef(dimOne); k != 0 {
					e = e.AddM(D(dimOne), -k)
					e.K = k
				}
				res = append(res, e)
			}
			continue
		}
		// pivot: smallest coefficient
		p := rows[i].l.T[0]
		for _, t := range rows[i].l.T {
			if t.D != dimOne && (p.D == dimOne || abs64(t.C) < abs64(p.C)) {
				p = t
			}
		}
		for k := i + 1; k < len(rows); k++ {
			c := rows[k].l.Coef(p.D)
			if c == 0 {
				continue
			}
			g := gcd(abs64(c), abs64(p.C))
			x, y := p.C/g, -c/g
			rows[k] = eqRow{rows[k].l.Scale(x).AddM(rows[i].l, y), rows[k].r.Scale(x).AddM(rows[i].r, y)}.norm()
		}
	}
	return
}

func inCons(cs []Lin, e Lin) bool {
	for _, c := range cs {
		if c.K == e.K && sameTerms(c, e) {
			return true
		}
	}
	return false
}

// independent explicit equalities of p
func eqBasis(p *Poly) (res []Lin) {
	eqs := eqsOf(p)
	if len(eqs) < 2 {
		return eqs
	}
	defer func() {
		if recover() != nil {
			res = nil
		}
	}()
	type piv struct {
		e Lin
		d Dim
		c int64
	}
	var ps []piv
	for _, c := range eqs {
		e := c
		for _, p := range ps {
			k := e.Coef(p.d)
			if k == 0 {
				continue
			}
			g := gcd(abs64(k), abs64(p.c))
			r := eqRow{e.Scale(p.c/g).AddM(p.e, -k/g), Lin{}}.norm0()
			e = r
		}
		if len(e.T) == 0 {
			continue
		}
		t := e.T[0]
		for _, x := range e.T {
			if abs64(x.C) < abs64(t.C) {
				t = x
			}
		}
		ps = append(ps, piv{e, t.D, t.C})
		res = append(res, c)
	}
	return
}

func (r eqRow) norm0() Lin {
	k := r.l.K
	r.l.K = 0
	g := abs64(k)
	for _, t := range r.l.T {
		g = gcd(g, abs64(t.C))
	}
	if g > 1 {
		r.l = Lin{T: append([]Term(nil), r.l.T...)}
		for i := range r.l.T {
			r.l.T[i].C /= g
		}
		k /= g
	}
	r.l.K = k
	return r.l
}
