package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"
)

// ---------- linear expressions over integer dimensions ----------

// Dim is an abstract integer unknown. Dim 0 is M, the largest value of type int.
type Dim int32

const dimM Dim = 0

type Term struct {
	D Dim
	C int64
}

// Lin is sum(C*D) + K
type Lin struct {
	T []Term
	K int64
}

type linOverflow struct{}

func chk(x int64) int64 {
	if x > 1<<56 || x < -(1<<56) {
		panic(linOverflow{})
	}
	return x
}

func mulc(a, b int64) int64 {
	hi, lo := bits.Mul64(uint64(abs64(a)), uint64(abs64(b)))
	if hi != 0 || lo > 1<<56 {
		panic(linOverflow{})
	}
	return a * b
}

func abs64(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

func K(k int64) Lin    { return Lin{K: k} }
func D(d Dim) Lin      { return Lin{T: []Term{{d, 1}}} }
func (a Lin) Neg() Lin { return K(0).AddM(a, -1) }

func (a Lin) AddM(b Lin, m int64) Lin {
	if m == 0 {
		return a
	}
	r := Lin{K: chk(a.K + mulc(m, b.K))}
	if len(b.T) == 0 {
		r.T = a.T
		return r
	}
	r.T = make([]Term, 0, len(a.T)+len(b.T))
	i, j := 0, 0
	for i < len(a.T) || j < len(b.T) {
		switch {
		case j >= len(b.T) || i < len(a.T) && a.T[i].D < b.T[j].D:
			r.T = append(r.T, a.T[i])
			i++
		case i >= len(a.T) || b.T[j].D < a.T[i].D:
			r.T = append(r.T, Term{b.T[j].D, mulc(m, b.T[j].C)})
			j++
		default:
			c := chk(a.T[i].C + mulc(m, b.T[j].C))
			if c != 0 {
				r.T = append(r.T, Term{a.T[i].D, c})
			}
			i++
			j++
		}
	}
	return r
}
func (a Lin) Add(b Lin) Lin     { return a.AddM(b, 1) }
func (a Lin) Sub(b Lin) Lin     { return a.AddM(b, -1) }
func (a Lin) AddK(k int64) Lin  { return Lin{a.T, chk(a.K + k)} }
func (a Lin) Scale(m int64) Lin { return K(0).AddM(a, m) }
func (a Lin) IsConst() bool     { return len(a.T) == 0 }

func (a Lin) Eq(b Lin) bool {
	if a.K != b.K || len(a.T) != len(b.T) {
		return false
	}
	for i := range a.T {
		if a.T[i] != b.T[i] {
			return false
		}
	}
	return true
}

func (a Lin) Coef(d Dim) int64 {
	for _, t := range a.T {
		if t.D == d {
			return t.C
		}
	}
	return 0
}

func (a Lin) Subst(d Dim, e Lin) Lin {
	c := a.Coef(d)
	if c == 0 {
		return a
	}
	return a.AddM(D(d), -c).AddM(e, c)
}

func (a Lin) SubstAll(m map[Dim]Lin) Lin {
	hit := false
	for _, t := range a.T {
		if _, ok := m[t.D]; ok {
			hit = true
			break
		}
	}
	if !hit {
		return a
	}
	r := K(a.K)
	for _, t := range a.T {
		if e, ok := m[t.D]; ok {
			r = r.AddM(e, t.C)
		} else {
			r = r.AddM(D(t.D), t.C)
		}
	}
	return r
}

func (a Lin) String() string {
	if len(a.T) == 0 {
		return fmt.Sprint(a.K)
	}
	var b strings.Builder
	for i, t := range a.T {
		switch {
		case t.C == 1 && i == 0:
		case t.C == 1:
			b.WriteByte('+')
		case t.C == -1:
			b.WriteByte('-')
		case t.C > 0 && i > 0:
			fmt.Fprintf(&b, "+%d", t.C)
		default:
			fmt.Fprintf(&b, "%d", t.C)
		}
		if t.D == dimM {
			b.WriteString("M")
		} else {
			fmt.Fprintf(&b, "d%d", t.D)
		}
	}
	if a.K > 0 {
		fmt.Fprintf(&b, "+%d", a.K)
	} else if a.K < 0 {
		fmt.Fprintf(&b, "%d", a.K)
	}
	return b.String()
}

func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 { // b > 0
	q := a / b
	if a%b < 0 {
		q--
	}
	return q
}

// normalize a constraint e <= 0 over integers (divide by gcd, tighten constant)
func normC(e Lin) Lin {
	g := int64(0)
	for _, t := range e.T {
		g = gcd(abs64(t.C), g)
	}
	if g <= 1 {
		return e
	}
	r := Lin{T: make([]Term, len(e.T))}
	for i, t := range e.T {
		r.T[i] = Term{t.D, t.C / g}
	}
	// sum/g + K/g <= 0  ->  sum/g <= floor(-K/g)
	r.K = -floorDiv(-e.K, g)
	return r
}

// ---------- polyhedra: conjunction of e <= 0 ----------

type Poly struct {
	cs    []Lin
	cache map[string]maxRes
	pts   []point
}

type maxRes struct {
	kind int8 // 0 finite, 1 unbounded, -1 empty, 2 unknown
	val  int64
}

func newPoly(cs []Lin) *Poly { return &Poly{cs: cs} }

func sameTerms(a, b Lin) bool {
	if len(a.T) != len(b.T) {
		return false
	}
	for i := range a.T {
		if a.T[i] != b.T[i] {
			return false
		}
	}
	return true
}

// add returns p with e<=0 added (no emptiness check)
func (p *Poly) add(e Lin) *Poly {
	e = normC(e)
	if len(e.T) == 0 && e.K <= 0 {
		return p
	}
	cs := make([]Lin, 0, len(p.cs)+1)
	done := false
	for _, c := range p.cs {
		if sameTerms(c, e) {
			if c.K >= e.K {
				return p // already implied
			}
			if !done {
				cs = append(cs, e)
				done = true
			}
			continue
		}
		cs = append(cs, c)
	}
	if !done {
		cs = append(cs, e)
	}
	q := newPoly(cs)
	q.pts = p.ptsWith(e)
	return q
}

var lpCount, lpHit, lpOver int64

// maxOf computes floor(max of e) over p
func (p *Poly) maxOf(e Lin) (int64, int8) {
	if len(e.T) == 0 {
		return e.K, 0
	}
	var kb [64]byte
	key := e.termKey(kb[:0])
	if r, ok := p.cache[string(key)]; ok {
		lpHit++
		return r.val + e.K, r.kind
	}
	v, kind := p.lp(Lin{T: e.T})
	if p.cache == nil {
		p.cache = map[string]maxRes{}
	}
	p.cache[string(key)] = maxRes{kind, v}
	return v + e.K, kind
}

func (e Lin) termKey(b []byte) []byte {
	for _, t := range e.T {
		b = binary.AppendVarint(b, int64(t.D))
		b = binary.AppendVarint(b, t.C)
	}
	return b
}

// points known to be in a poly (for the names they have values for): something that
// fails at one of them is not entailed
type point map[Dim]float64

func (x point) at(e Lin) (float64, bool) {
	v := float64(e.K)
	for _, t := range e.T {
		y, ok := x[t.D]
		if !ok {
			return 0, false
		}
		v += float64(t.C) * y
	}
	return v, true
}

const maxPts = 12

// e cannot be entailed to be non-positive
func (p *Poly) refuted(e Lin) bool {
	for _, x := range p.pts {
		if v, ok := x.at(e); ok && v > 0.99 && v < 1<<50 {
			return true
		}
	}
	return false
}

func (p *Poly) varies(e Lin) bool {
	var lo, hi float64
	n := 0
	for _, x := range p.pts {
		v, ok := x.at(e)
		if !ok || v > 1<<50 || v < -1<<50 {
			continue
		}
		if n == 0 || v < lo {
			lo = v
		}
		if n == 0 || v > hi {
			hi = v
		}
		n++
	}
	return n > 1 && hi-lo > 1.99
}

func (p *Poly) addPt(x point) {
	if len(p.pts) < maxPts {
		p.pts = append(p.pts, x)
		return
	}
	p.pts = append(append([]point(nil), p.pts[1:]...), x)
}

// points that also satisfy e
func (p *Poly) ptsWith(e Lin) (r []point) {
	for _, x := range p.pts {
		if v, ok := x.at(e); ok && v <= 1e-3 {
			r = append(r, x)
		}
	}
	return
}

// entails: p |= e <= 0
func (p *Poly) entails(e Lin) bool {
	if len(e.T) == 0 {
		if e.K <= 0 {
			return true
		}
		return false
	}
	n := normC(e)
	for _, c := range p.cs {
		if sameTerms(c, n) && c.K >= n.K {
			return true
		}
	}
	if p.refuted(n) {
		return false
	}
	v, k := p.maxOf(n)
	switch k {
	case -1:
		return true
	case 0:
		return v <= 0
	}
	return false
}

func (p *Poly) entailsEq(e Lin) bool {
	if len(e.T) == 0 {
		return e.K == 0
	}
	return p.entails(e) && p.entails(e.Neg())
}

func (p *Poly) empty() bool {
	for _, c := range p.cs {
		if len(c.T) == 0 && c.K > 0 {
			return true
		}
	}
	// min b.l s.t. lA = 0 unbounded?
	_, k := p.lp(Lin{})
	return k == -1
}

// lp maximizes e (no constant) over p: dual simplex form
//
//	max e.x s.t. a_i x <= b_i   ==   min b.l s.t. sum l_i a_i = e, l >= 0
//
// exact integer (fraction free) pivoting.
func (p *Poly) lp(e Lin) (val int64, kind int8) {
	var rel []int
	dimRow := map[Dim]int{}
	val, kind = p.lp64(e, &rel, dimRow)
	if kind == 2 {
		lpOver++
		return p.lpBig(e, rel, dimRow)
	}
	return
}

func (p *Poly) lp64(e Lin, relp *[]int, dimRow map[Dim]int) (val int64, kind int8) {
	lpCount++
	// relevant dims: connected component
	var rel []int
	used := make([]bool, len(p.cs))
	for _, t := range e.T {
		dimRow[t.D] = len(dimRow)
	}
	if len(e.T) == 0 { // emptiness: all constraints
		for i, c := range p.cs {
			used[i] = true
			rel = append(rel, i)
			for _, t := range c.T {
				if _, ok := dimRow[t.D]; !ok {
					dimRow[t.D] = len(dimRow)
				}
			}
		}
	} else {
		for ch := true; ch; {
			ch = false
			for i, c := range p.cs {
				if used[i] {
					continue
				}
				hit := false
				for _, t := range c.T {
					if _, ok := dimRow[t.D]; ok && t.D != dimM {
						hit = true
						break
					}
					if t.D == dimM && len(c.T) == 1 {
						hit = true
						break
					}
				}
				if !hit {
					continue
				}
				used[i] = true
				ch = true
				rel = append(rel, i)
				for _, t := range c.T {
					if _, ok := dimRow[t.D]; !ok {
						dimRow[t.D] = len(dimRow)
					}
				}
			}
		}
	}
	sort.Ints(rel)
	*relp = rel
	m := len(dimRow)
	n := len(rel)
	// tableau: m rows, columns: n lambdas, rhs; the columns of the m artificials,
	// which never enter the basis, are not needed
	w := n + 1
	tb := make([][]int64, m+1)
	back := make([]int64, (m+1)*w)
	for i := range tb {
		tb[i] = back[i*w : (i+1)*w : (i+1)*w]
	}
	for j, ci := range rel {
		for _, t := range p.cs[ci].T {
			tb[dimRow[t.D]][j] = t.C
		}
	}
	for _, t := range e.T {
		tb[dimRow[t.D]][w-1] = t.C
	}
	basis := make([]int, m)
	for i := 0; i < m; i++ {
		if tb[i][w-1] < 0 {
			for j := 0; j < w; j++ {
				tb[i][j] = -tb[i][j]
			}
		}
		basis[i] = n + i
	}
	den := int64(1) // common denominator
	obj := tb[m]
	// phase 1: minimize sum artificials: reduced costs = -(sum of rows) for non-artificial
	for j := 0; j < n; j++ {
		s := int64(0)
		for i := 0; i < m; i++ {
			s += tb[i][j]
		}
		obj[j] = -s
	}
	s := int64(0)
	for i := 0; i < m; i++ {
		s += tb[i][w-1]
	}
	obj[w-1] = -s

	overflow := false
	pivot := func(r, c int) {
		pv := tb[r][c]
		for i := 0; i <= m; i++ {
			if i == r {
				continue
			}
			row, pr := tb[i], tb[r]
			f := row[c]
			if f == 0 && pv == den {
				continue
			}
			if pv == 1 && den == 1 && f < 1<<20 && f > -1<<20 {
				for j, y := range pr {
					if y == 0 {
						continue
					}
					x := row[j]
					if y >= 1<<40 || y <= -1<<40 || x >= 1<<61 || x <= -1<<61 {
						overflow = true
						return
					}
					row[j] = x - f*y
				}
				continue
			}
			for j := 0; j < w; j++ {
				x, ok1 := mul64(row[j], pv)
				y, ok2 := mul64(f, pr[j])
				if !ok1 || !ok2 {
					overflow = true
					return
				}
				d := x - y
				if (x >= 0) != (y >= 0) && abs64(d) < abs64(x) {
					overflow = true
					return
				}
				row[j] = d / den
			}
		}
		den = pv
		if den < 0 {
			panic("neg den")
		}
		basis[r] = c
	}
	simplex := func(ncols int) int { // 0 optimal, 1 unbounded, 2 overflow
		for iter := 0; ; iter++ {
			if iter > 500 {
				return 2
			}
			c := -1
			if iter < 60 { // Dantzig first
				best := int64(0)
				for j := 0; j < ncols; j++ {
					if obj[j] < best {
						best, c = obj[j], j
					}
				}
			} else {
				for j := 0; j < ncols; j++ {
					if obj[j] < 0 {
						c = j
						break
					}
				}
			}
			if c < 0 {
				return 0
			}
			r := -1
			for i := 0; i < m; i++ {
				if tb[i][c] > 0 {
					if r < 0 {
						r = i
						continue
					}
					// compare tb[i][rhs]/tb[i][c] < tb[r][rhs]/tb[r][c]
					x, ok1 := mul64(tb[i][w-1], tb[r][c])
					y, ok2 := mul64(tb[r][w-1], tb[i][c])
					if !ok1 || !ok2 {
						return 2
					}
					if x < y || x == y && basis[i] < basis[r] {
						r = i
					}
				}
			}
			if r < 0 {
				return 1
			}
			pivot(r, c)
			if overflow {
				return 2
			}
		}
	}
	switch simplex(n) {
	case 2:
		return 0, 2
	}
	if obj[w-1] != 0 { // sum of artificials > 0: dual infeasible -> primal unbounded or empty
		return 0, 1
	}
	// drive artificials out of basis where possible
	for i := 0; i < m; i++ {
		if basis[i] >= n {
			for j := 0; j < n; j++ {
				if tb[i][j] != 0 {
					if tb[i][j] < 0 { // rhs is 0, negate row
						for q := 0; q < w; q++ {
							tb[i][q] = -tb[i][q]
						}
					}
					pivot(i, j)
					if overflow {
						return 0, 2
					}
					break
				}
			}
		}
	}
	// phase 2 objective: min sum b_j l_j, b_j = -K
	for j := 0; j < w; j++ {
		obj[j] = 0
	}
	for j, ci := range rel {
		v, ok := mul64(-p.cs[ci].K, den)
		if !ok {
			return 0, 2
		}
		obj[j] = v
	}
	for i := 0; i < m; i++ {
		if basis[i] < n {
			b := -p.cs[rel[basis[i]]].K
			if b == 0 {
				continue
			}
			for j := 0; j < w; j++ {
				x, ok := mul64(b, tb[i][j])
				if !ok {
					return 0, 2
				}
				obj[j] -= x
			}
		}
	}
	switch simplex(n) {
	case 1:
		return 0, -1 // dual unbounded: primal empty
	case 2:
		return 0, 2
	}
	p.notePt(e, rel, dimRow, basis, n)
	// objective value = -obj[rhs]/den
	return floorDiv(-obj[w-1], den), 0
}

// the point at which the maximum is taken: all constraints of the basis are tight
func (p *Poly) notePt(e Lin, rel []int, dimRow map[Dim]int, basis []int, n int) {
	m := len(basis)
	if m > 60 {
		return
	}
	w := m + 1
	a := make([]float64, m*w)
	k := 0
	for _, b := range basis {
		if b >= n {
			continue
		}
		c := p.cs[rel[b]]
		for _, t := range c.T {
			a[k*w+dimRow[t.D]] = float64(t.C)
		}
		a[k*w+m] = -float64(c.K)
		k++
	}
	x := make([]float64, m)
	piv := make([]int, 0, k)
	r := 0
	for c := 0; c < m && r < k; c++ {
		best := -1
		for i := r; i < k; i++ {
			if v := math.Abs(a[i*w+c]); v > 1e-7 && (best < 0 || v > math.Abs(a[best*w+c])) {
				best = i
			}
		}
		if best < 0 {
			continue
		}
		if best != r {
			for j := 0; j < w; j++ {
				a[r*w+j], a[best*w+j] = a[best*w+j], a[r*w+j]
			}
		}
		for i := 0; i < k; i++ {
			f := a[i*w+c]
			if i == r || f == 0 {
				continue
			}
			f /= a[r*w+c]
			for j := c; j < w; j++ {
				a[i*w+j] -= f * a[r*w+j]
			}
		}
		piv = append(piv, c)
		r++
	}
	for i, c := range piv {
		x[c] = a[i*w+m] / a[i*w+c]
	}
	pt := make(point, m)
	for d, i := range dimRow {
		pt[d] = x[i]
	}
	for _, ci := range rel {
		if v, ok := pt.at(p.cs[ci]); !ok || v > 1e-3 {
			return
		}
	}
	p.addPt(pt)
}

func mul64(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	hi, lo := bits.Mul64(uint64(abs64(a)), uint64(abs64(b)))
	if hi != 0 || lo > 1<<62 {
		return 0, false
	}
	return a * b, true
}

// eliminate dims not in keep (Fourier-Motzkin with equality substitution)
func (p *Poly) project(keep func(Dim) bool) *Poly {
	cs := append([]Lin(nil), p.cs...)
	for {
		cnt := map[Dim][2]int{}
		for _, c := range cs {
			for _, t := range c.T {
				if !keep(t.D) {
					x := cnt[t.D]
					if t.C > 0 {
						x[0]++
					} else {
						x[1]++
					}
					cnt[t.D] = x
				}
			}
		}
		if len(cnt) == 0 {
			break
		}
		// choose: equality with unit coef first, else cheapest
		var best Dim = -1
		var eqE Lin
		haveEq := false
		bc := 1 << 30
		ds := make([]Dim, 0, len(cnt))
		for d := range cnt {
			ds = append(ds, d)
		}
		sort.Slice(ds, func(i, j int) bool { return ds[i] < ds[j] })
		for _, d := range ds {
			x := cnt[d]
			c := x[0]*x[1] - x[0] - x[1]
			if c < bc {
				bc, best = c, d
			}
		}
		for _, d := range ds {
			if e, ok := findEq(cs, d); ok {
				best, eqE, haveEq = d, e, true
				break
			}
		}
		var out []Lin
		if haveEq {
			// best = eqE
			for _, c := range cs {
				out = addCons(out, c.Subst(best, eqE))
			}
		} else {
			var pos, neg []Lin
			for _, c := range cs {
				k := c.Coef(best)
				if k > 0 {
					pos = append(pos, c)
				} else if k < 0 {
					neg = append(neg, c)
				} else {
					out = addCons(out, c)
				}
			}
			if len(pos)*len(neg) <= 150 {
				for _, a := range pos {
					for _, b := range neg {
						ka, kb := a.Coef(best), -b.Coef(best)
						g := gcd(ka, kb)
						out = addCons(out, a.Scale(kb/g).AddM(b, ka/g))
					}
				}
			}
		}
		cs = out
		if len(cs) > 40 {
			cs = reduceCons(cs)
		}
	}
	return newPoly(cs)
}

func addCons(cs []Lin, e Lin) []Lin {
	e = normC(e)
	if len(e.T) == 0 && e.K <= 0 {
		return cs
	}
	for i, c := range cs {
		if sameTerms(c, e) {
			if c.K < e.K {
				cs[i] = e
			}
			return cs
		}
	}
	return append(cs, e)
}

// find unit-coefficient equality for d: returns expression for d
func findEq(cs []Lin, d Dim) (Lin, bool) {
	for i, c := range cs {
		k := c.Coef(d)
		if k != 1 && k != -1 {
			continue
		}
		for j := i + 1; j < len(cs); j++ {
			o := cs[j]
			if len(o.T) != len(c.T) || o.K != -c.K {
				continue
			}
			ok := true
			for q := range o.T {
				if o.T[q].D != c.T[q].D || o.T[q].C != -c.T[q].C {
					ok = false
					break
				}
			}
			if ok {
				// c: k*d + rest = 0 -> d = -rest/k
				rest := c.AddM(D(d), -k)
				return rest.Scale(-k), true
			}
		}
	}
	return Lin{}, false
}

// reduceCons drops what the rest entails. Bounds of single names are kept:
// what they are derived from may be forgotten when states are joined.
func reduceCons(cs []Lin) []Lin {
	out := append([]Lin(nil), cs...)
	basis := eqBasis(&Poly{cs: cs})
	for _, c := range cs {
		if len(c.T) == 1 {
			continue
		}
		if basis != nil && (inCons(basis, c) || inCons(basis, c.Neg())) {
			continue // an equality, not only after rounding to integers
		}
		rest := make([]Lin, 0, len(out))
		gone := false
		for _, o := range out {
			if !gone && o.K == c.K && sameTerms(o, c) {
				gone = true
				continue
			}
			rest = append(rest, o)
		}
		if gone && newPoly(rest).entails(c) {
			out = rest
		}
	}
	return out
}

func (p *Poly) String() string {
	var s []string
	for _, c := range p.cs {
		s = append(s, c.String()+"<=0")
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}
