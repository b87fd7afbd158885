package main

import "math/big"

// the same linear program over big integers, when 64 bits are not enough
func (p *Poly) lpBig(e Lin, rel []int, dimRow map[Dim]int) (int64, int8) {
	m, n := len(dimRow), len(rel)
	w := n + 1
	tb := make([][]*big.Int, m+1)
	for i := range tb {
		tb[i] = make([]*big.Int, w)
		for j := range tb[i] {
			tb[i][j] = new(big.Int)
		}
	}
	for j, ci := range rel {
		for _, t := range p.cs[ci].T {
			tb[dimRow[t.D]][j].SetInt64(t.C)
		}
	}
	for _, t := range e.T {
		tb[dimRow[t.D]][w-1].SetInt64(t.C)
	}
	basis := make([]int, m)
	for i := 0; i < m; i++ {
		if tb[i][w-1].Sign() < 0 {
			for _, x := range tb[i] {
				x.Neg(x)
			}
		}
		basis[i] = n + i
	}
	den := big.NewInt(1)
	obj := tb[m]
	for j := 0; j < w; j++ {
		for i := 0; i < m; i++ {
			obj[j].Sub(obj[j], tb[i][j])
		}
	}
	var x, y big.Int
	pivot := func(r, c int) {
		pv := new(big.Int).Set(tb[r][c])
		for i := 0; i <= m; i++ {
			if i == r {
				continue
			}
			f := new(big.Int).Set(tb[i][c])
			if f.Sign() == 0 && pv.Cmp(den) == 0 {
				continue
			}
			for j := 0; j < w; j++ {
				v := tb[i][j]
				if v.Sign() == 0 && (f.Sign() == 0 || tb[r][j].Sign() == 0) {
					continue
				}
				x.Mul(v, pv)
				if f.Sign() != 0 && tb[r][j].Sign() != 0 {
					y.Mul(f, tb[r][j])
					x.Sub(&x, &y)
				}
				v.Quo(&x, den)
			}
		}
		den = pv
		basis[r] = c
	}
	simplex := func() int {
		for iter := 0; iter < 3000; iter++ {
			c := -1
			for j := 0; j < n; j++ {
				if obj[j].Sign() < 0 && (c < 0 || iter < 100 && obj[j].Cmp(obj[c]) < 0) {
					c = j
				}
			}
			if c < 0 {
				return 0
			}
			r := -1
			for i := 0; i < m; i++ {
				if tb[i][c].Sign() <= 0 {
					continue
				}
				if r < 0 {
					r = i
					continue
				}
				x.Mul(tb[i][w-1], tb[r][c])
				y.Mul(tb[r][w-1], tb[i][c])
				if k := x.Cmp(&y); k < 0 || k == 0 && basis[i] < basis[r] {
					r = i
				}
			}
			if r < 0 {
				return 1
			}
			pivot(r, c)
		}
		return 2
	}
	if simplex() == 2 {
		return 0, 2
	}
	if obj[w-1].Sign() != 0 {
		return 0, 1
	}
	for i := 0; i < m; i++ {
		if basis[i] < n {
			continue
		}
		for j := 0; j < n; j++ {
			if s := tb[i][j].Sign(); s != 0 {
				if s < 0 {
					for _, v := range tb[i] {
						v.Neg(v)
					}
				}
				pivot(i, j)
				break
			}
		}
	}
	for j := 0; j < w; j++ {
		obj[j].SetInt64(0)
	}
	for j, ci := range rel {
		x.SetInt64(-p.cs[ci].K)
		obj[j].Mul(&x, den)
	}
	for i := 0; i < m; i++ {
		if basis[i] < n {
			b := big.NewInt(-p.cs[rel[basis[i]]].K)
			if b.Sign() == 0 {
				continue
			}
			for j := 0; j < w; j++ {
				x.Mul(b, tb[i][j])
				obj[j].Sub(obj[j], &x)
			}
		}
	}
	switch simplex() {
	case 1:
		return 0, -1
	case 2:
		return 0, 2
	}
	x.Neg(obj[w-1])
	var q big.Int
	q.Div(&x, den) // den > 0: floor
	if !q.IsInt64() {
		return 0, 2
	}
	return q.Int64(), 0
}
