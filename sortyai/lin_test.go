package main

import "testing"

func TestLP(t *testing.T) {
	p := newPoly(nil)
	x, y, z := D(1), D(2), D(3)
	p = p.add(x.Sub(y)).add(y.Sub(z).AddK(1)).add(z.AddK(-10)).add(x.Neg())
	if v, k := p.maxOf(x); k != 0 || v != 9 {
		t.Fatal(v, k)
	}
	if v, k := p.maxOf(x.Neg()); k != 0 || v != 0 {
		t.Fatal(v, k)
	}
	if _, k := p.maxOf(x.Add(D(7))); k != 1 {
		t.Fatal(k)
	}
	if p.empty() {
		t.Fatal()
	}
	if !p.add(z.Neg().AddK(11)).empty() {
		t.Fatal()
	}
	if !p.entails(x.Sub(z).AddK(1)) {
		t.Fatal()
	}
	if p.entails(x.Sub(z).AddK(2)) {
		t.Fatal()
	}
	q := p.project(func(d Dim) bool { return d != 2 })
	if !q.entails(x.Sub(z).AddK(1)) {
		t.Fatal(q)
	}
	p = newPoly(nil).add(x.Scale(2).AddK(-7)).add(x.Neg())
	if v, _ := p.maxOf(x); v != 3 {
		t.Fatal(v)
	}
}
