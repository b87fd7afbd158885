package main

import (
	"fmt"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// analyse one function with the given bounds on its length (development aid)
func (e *Engine) runUnit(name string, nan, min, max int, sv bool) *Result {
	fn := e.pkg.Func(name)
	res := &Result{Entry: name, Nan: nan, Bad: map[OblKey]string{}, OK: map[OblKey]bool{}}
	e.memo = map[string]bool{}
	if strings.Contains(name, "Len") {
		e.memo["bylen"] = true
	}
	e.nan = nan
	e.reset()
	t0 := time.Now()
	defer func() { res.Time = time.Since(t0) }()
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(undecided); ok {
				res.Undecided = u.msg
				res.UndPos = e.posStr(u.pos)
				return
			}
			panic(r)
		}
	}()
	st := e.baseState()
	var args []Val
	n := D(e.w.dim())
	var rt RootID
	for _, p := range fn.Params {
		switch u := p.Type().Underlying().(type) {
		case *types.Slice:
			r := e.newRoot("x", n, u.Elem())
			rt = r.ID
			args = append(args, VSlice{r.ID, K(0), n, n, u.Elem()})
		case *types.Signature:
			r := e.newRoot("coll", n, types.Typ[types.UnsafePointer])
			e.setOracle(r)
			rt = r.ID
			args = append(args, VOracle{r.ID, ""})
		case *types.Pointer:
			if sv {
				args = append(args, VPtr{e.w.id(), ""})
			} else {
				args = append(args, VNil{})
			}
		case *types.Basic:
			if e.itype(p.Type()) != nil && !strings.HasPrefix(p.Name(), "pv") {
				args = append(args, VInt{D(e.w.dim()), e.itype(p.Type()), false})
			} else {
				args = append(args, VSym{e.w.sym(), p.Type()})
			}
		}
	}
	si, li, lo, hi, ok := e.sorterShape(fn)
	if sum := ok; sum {
		s := e.newSummary("U "+name, fn, args, si, li, lo, hi, false, st)
		s.pre = newPoly([]Lin{K(int64(min)).Sub(s.n), s.n.AddK(-int64(max)), K(1 << 33).Sub(D(dimM))})
		e.sums[s.key] = s
		e.runSummary(s)
		for k := range s.obl.ok {
			res.OK[k] = true
		}
		for k, v := range s.obl.bad {
			res.Bad[k] = v
		}
		return res
	}
	st.assume(K(int64(min)).Sub(n))
	st.assume(n.AddK(-int64(max)))
	st.assume(n.Sub(D(dimM)))
	env := map[ssa.Value]Val{}
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	a := st.arr(rt)
	a.Facts = append(a.Facts, &Fact{K: fW, Lo: K(0), Hi: n}, &Fact{K: fSorted, Lo: K(0), Hi: n, Key: e.sortKeys(e.roots[rt])[0], Holes: []Hole{{K(0), n, false}}})
	a.Bags = append(a.Bags, &Bag{Lo: K(0), Hi: n, Root: true, D: map[Sym]int64{}})
	st.frames = []*Frame{{Fn: fn, Env: env}}
	outs := e.runBody(st)
	for _, o := range outs {
		o.st.prepRet()
		fmt.Println("OUT ret", vstr(o.ret))
		fmt.Println(o.st)
	}
	b := e.obl.st[0]
	res.Bad, res.OK = b.bad, b.ok
	return res
}
