package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---------- engine ----------

type Engine struct {
	prog    *ssa.Program
	fset    *token.FileSet
	pkg     *ssa.Package // sorty
	shallow bool         // only analyse how input reaches sorters
	noOrd   bool         // order of elements is not tracked
	dispd   map[string]bool
	query   bool // analysing IsSorted*() or Search()
	w       *World
	is64    bool
	sizes   types.Sizes
	its     map[string]*itype
	roots   map[RootID]*Root
	rootAt  map[string]RootID
	objAt   map[string]int
	cfgs    map[*ssa.Function]*CFG
	obl     *Obls
	sums    map[string]*Summary
	parts   map[string]*partSum
	queue   []string
	nan     int // value of NaNoption in this run
	depth   int
	steps   int
	cur     *Summary // context being analysed
	inGo    int
	loops   []*loopCtx
	curIn   ssa.Instruction
	debug   bool
	cmpOut  map[ssa.Instruction]*cmpStat
	memo    map[string]bool
	limit   int
	foot    *footprint
	stored  map[*ssa.Global]bool
	fatal   bool
	tent    map[OblKey]string // contracts that do not hold: findings, unless inlining shows otherwise
	stopAt  time.Time
	stop    *atomic.Bool // set when another analysis of the same check has a finding
}

type undecided struct {
	msg string
	pos token.Pos
}

func (e *Engine) giveUp(msg string) {
	var p token.Pos
	if e.curIn != nil {
		p = e.curIn.Pos()
	}
	panic(undecided{msg, p})
}

type Out struct {
	st  *State
	ret Val
}

// ---------- obligations ----------

type OblKey struct{ Cat, Fn, Pos, Msg string }

type oblBuf struct {
	ok   map[OblKey]bool
	bad  map[OblKey]string
	list []OblKey
}

type Obls struct {
	st []*oblBuf
}

func newObls() *Obls { return &Obls{st: []*oblBuf{{ok: map[OblKey]bool{}, bad: map[OblKey]string{}}}} }
func (o *Obls) push() {
	o.st = append(o.st, &oblBuf{ok: map[OblKey]bool{}, bad: map[OblKey]string{}})
}
func (o *Obls) pop(commit bool) {
	b := o.st[len(o.st)-1]
	o.st = o.st[:len(o.st)-1]
	if commit {
		t := o.st[len(o.st)-1]
		for k := range b.ok {
			t.ok[k] = true
		}
		for _, k := range b.list {
			if _, ok := t.bad[k]; !ok {
				t.bad[k] = b.bad[k]
				t.list = append(t.list, k)
			}
		}
	}
}
func (o *Obls) add(k OblKey, ok bool, detail string) {
	b := o.st[len(o.st)-1]
	if ok {
		b.ok[k] = true
		return
	}
	if _, dup := b.bad[k]; !dup {
		b.bad[k] = detail
		b.list = append(b.list, k)
	}
}

func (e *Engine) posStr(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := e.fset.Position(p)
	f := q.Filename
	if i := strings.LastIndexByte(f, '/'); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (e *Engine) here(st *State) (fn, pos string) {
	fn = st.top().Fn.Name()
	if e.curIn != nil {
		p := e.curIn.Pos()
		if !p.IsValid() { // nearest instruction with a position
			for _, in := range e.curIn.Block().Instrs {
				if in.Pos().IsValid() {
					p = in.Pos()
				}
			}
		}
		pos = e.posStr(p)
	}
	return
}

// check records an obligation; a failing one in an impossible state kills the state.
func (e *Engine) check(st *State, cat string, ok bool, msg string) bool {
	if st.dead {
		return true
	}
	if !ok && (!st.feasible() || st.countConflict()) {
		st.dead = true
		return true
	}
	fn, pos := e.here(st)
	d := ""
	if !ok {
		d = st.path()
		if e.debug {
			fmt.Printf("FAIL %s %s %s %s\n%s\n", cat, fn, pos, msg, st)
		}
	}
	e.obl.add(OblKey{cat, fn, pos, msg}, ok, d)
	return ok
}

func (s *State) path() string {
	var p []string
	for _, f := range s.frames {
		p = append(p, f.Fn.Name())
	}
	return strings.Join(p, " > ")
}

// ---------- integer types ----------

func (e *Engine) initTypes() {
	M := D(dimM)
	M64 := D(dimM)
	if !e.is64 {
		M64 = D(dimM64)
	}
	k := func(name string, bits uint, signed bool) {
		t := &itype{name: name, signed: signed, bits: int(bits)}
		if signed {
			t.lo, t.hi = K(-(1 << (bits - 1))), K(1<<(bits-1)-1)
		} else {
			t.lo, t.hi = K(0), K(1<<bits-1)
		}
		e.its[name] = t
	}
	e.its = map[string]*itype{}
	for _, b := range []uint{8, 16, 32} {
		k(fmt.Sprint("int", b), b, true)
		k(fmt.Sprint("uint", b), b, false)
	}
	e.its["int64"] = &itype{"int64", M64.Neg().AddK(-1), M64, true, 64}
	e.its["uint64"] = &itype{"uint64", K(0), M64.Scale(2).AddK(1), false, 64}
	if e.is64 {
		e.its["int"], e.its["uint"] = e.its["int64"], e.its["uint64"]
	} else {
		e.its["int"] = &itype{"int", M.Neg().AddK(-1), M, true, 32}
		e.its["uint"] = &itype{"uint", K(0), M.Scale(2).AddK(1), false, 32}
	}
	e.its["uintptr"] = e.its["uint"]
}

func (e *Engine) baseState() *State {
	s := &State{w: e.w, ord: map[[2]Sym]bool{}, nan: map[Sym]int8{}, objs: map[int]*Obj{}, arrs: map[RootID]*Arr{},
		tags: map[Sym][]Tag{}, ctr: map[string]*CtrState{}, mg: map[Dim]bool{}}
	var cs []Lin
	if e.is64 {
		cs = []Lin{K(1 << 33).Sub(D(dimM))}
	} else {
		cs = []Lin{K(1<<31 - 1).Sub(D(dimM)), D(dimM).AddK(-(1<<31 - 1)), K(1 << 33).Sub(D(dimM64))}
	}
	s.poly = newPoly(cs)
	return s
}

func (e *Engine) itype(t types.Type) *itype {
	if tp, ok := t.Underlying().(*types.Basic); ok {
		n := tp.Name()
		switch n {
		case "byte":
			n = "uint8"
		case "rune", "untyped rune":
			n = "int32"
		case "untyped int":
			n = "int"
		}
		return e.its[n]
	}
	return nil
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// ---------- integers ----------

func (s *State) normInt(v VInt) VInt {
	if !v.Raw || v.T == nil {
		return v
	}
	in := func(l Lin) bool { return s.le(v.T.lo, l) && s.le(l, v.T.hi) }
	if in(v.L) {
		return VInt{v.L, v.T, false}
	}
	size := v.T.hi.Sub(v.T.lo).AddK(1)
	for _, l := range []Lin{v.L.Add(size), v.L.Sub(size)} {
		if in(l) {
			return VInt{l, v.T, false}
		}
	}
	if dbgBag {
		fmt.Println("WRAP", v.L, s.poly)
	}
	d := s.w.dim()
	s.poly = s.poly.add(v.T.lo.Sub(D(d))).add(D(d).Sub(v.T.hi))
	return VInt{D(d), v.T, false}
}

// normalized integer and write back of the value when it came from the environment
func (e *Engine) intOf(st *State, v Val) (VInt, bool) {
	switch x := v.(type) {
	case VInt:
		return st.normInt(x), true
	case VSym:
		if i, ok := e.w.symInt[x.S]; ok {
			return st.normInt(i), true
		}
	}
	return VInt{}, false
}

// integer value of an operand, remembered
func (e *Engine) intArg(st *State, v ssa.Value) (VInt, bool) {
	x := e.val(st, v)
	i, ok := e.intOf(st, x)
	if ok {
		if o, was := x.(VInt); was && o.Raw {
			if _, isC := v.(*ssa.Const); !isC {
				st.top().Env[v] = i
			}
		}
	}
	return i, ok
}

func (e *Engine) freshInt(st *State, t *itype) VInt {
	d := e.w.dim()
	if t != nil {
		st.poly = st.poly.add(t.lo.Sub(D(d))).add(D(d).Sub(t.hi))
	}
	return VInt{D(d), t, false}
}

func (e *Engine) unknownOf(st *State, t types.Type) Val {
	if it := e.itype(t); it != nil {
		return e.freshInt(st, it)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return VBool{condU}
		}
		if u.Info()&(types.IsFloat|types.IsString) != 0 || u.Kind() == types.UnsafePointer {
			return VSym{e.w.sym(), t}
		}
	case *types.Tuple:
		var r VTuple
		for i := 0; i < u.Len(); i++ {
			r = append(r, e.unknownOf(st, u.At(i).Type()))
		}
		return r
	}
	return VUnk{"value"}
}

// divide by positive constant, rounding down (floor) or toward zero
func (e *Engine) divK(st *State, l Lin, c int64, floor bool) Lin {
	if l.IsConst() {
		if floor || l.K >= 0 {
			return K(floorDiv(l.K, c))
		}
		return K(-floorDiv(-l.K, c))
	}
	ok := l.K%c == 0
	for _, t := range l.T {
		if t.C%c != 0 {
			ok = false
		}
	}
	if ok {
		r := Lin{K: l.K / c}
		for _, t := range l.T {
			r.T = append(r.T, Term{t.D, t.C / c})
		}
		return r
	}
	// one name per quotient: states that computed it separately agree on it
	q := K(0)
	fl := floor || st.le(K(0), l)
	mk := fmt.Sprint(l, "/", c, fl)
	if d, ok := e.w.quot[mk]; ok {
		q = D(d)
	} else {
		d = e.w.dim()
		e.w.quot[mk] = d
		q = D(d)
	}
	switch {
	case fl:
		st.poly = st.poly.add(q.Scale(c).Sub(l)).add(l.Sub(q.Scale(c)).AddK(1 - c))
	case st.le(l, K(0)):
		st.poly = st.poly.add(l.Sub(q.Scale(c))).add(q.Scale(c).Sub(l).AddK(1 - c))
	default:
		st.poly = st.poly.add(q.Scale(c).Sub(l).AddK(1 - c)).add(l.Sub(q.Scale(c)).AddK(1 - c))
	}
	return q
}

func (e *Engine) constInt(v VInt) (int64, bool) {
	if v.L.IsConst() {
		return v.L.K, true
	}
	return 0, false
}

func (e *Engine) binop(st *State, op token.Token, xv, yv Val, t types.Type, xs, ys ssa.Value) Val {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return VBool{e.compare(st, op, xv, yv)}
	}
	if op == token.OR || op == token.AND || op == token.XOR || op == token.AND_NOT {
		if bx, ok := xv.(VBool); ok {
			if by, ok := yv.(VBool); ok {
				if c := boolOp(op, bx.C, by.C); c != nil {
					return VBool{c}
				}
				return VBool{condU}
			}
		}
	}
	// bit tricks on abstract operands
	if bx, ok := xv.(VBit); ok {
		if r := e.bitop(st, op, bx, yv, t); r != nil {
			return r
		}
		return e.unknownOf(st, t)
	}
	if by, ok := yv.(VBit); ok && op == token.ADD {
		if r := e.bitop(st, op, by, xv, t); r != nil {
			return r
		}
		return e.unknownOf(st, t)
	}
	_, sx := xv.(VSym)
	_, sy := yv.(VSym)
	x, ok1 := e.intOf(st, xv)
	y, ok2 := e.intOf(st, yv)
	if op == token.ADD || op == token.SUB || op == token.MUL { // work modulo the range
		if xi, ok := xv.(VInt); ok {
			x = xi
		}
		if yi, ok := yv.(VInt); ok {
			y = yi
		}
	}
	if !ok1 || !ok2 {
		if (sx || ok1) && (sy || ok2) {
			switch op {
			case token.AND:
				return VBit{"and", xv, yv, t}
			case token.XOR:
				return VBit{"xor", xv, yv, t}
			case token.SUB:
				return VBit{"sub", xv, yv, t}
			case token.OR:
				return VBit{"or", xv, yv, t}
			}
		}
		return e.unknownOf(st, t)
	}
	it := e.itype(t)
	if it == nil {
		return e.unknownOf(st, t)
	}
	raw := func(l Lin) Val { return VInt{l, it, true} }
	if xs != nil && xs.Type() != nil {
	}
	switch op {
	case token.ADD:
		return raw(x.L.Add(y.L))
	case token.SUB:
		return raw(x.L.Sub(y.L))
	case token.MUL:
		if c, ok := e.constInt(y); ok && abs64(c) < 1<<20 {
			return raw(x.L.Scale(c))
		}
		if c, ok := e.constInt(x); ok && abs64(c) < 1<<20 {
			return raw(y.L.Scale(c))
		}
		x, y = st.normInt(x), st.normInt(y)
		if c, ok := st.constOf(x.L); ok && abs64(c) < 1<<20 {
			return raw(y.L.Scale(c))
		}
		if c, ok := st.constOf(y.L); ok && abs64(c) < 1<<20 {
			return raw(x.L.Scale(c))
		}
		return e.freshInt(st, it)
	case token.QUO, token.REM:
		c, isC := st.constOf(y.L)
		e.check(st, "panic", st.neq(y.L, K(0)), "division by zero")
		if st.dead {
			return e.freshInt(st, it)
		}
		if isC && c > 0 {
			q := e.divK(st, x.L, c, false)
			if op == token.QUO {
				return VInt{q, it, false}
			}
			return VInt{x.L.Sub(q.Scale(c)), it, false}
		}
		r := e.freshInt(st, it)
		if st.le(K(0), x.L) && st.le(K(1), y.L) {
			st.poly = st.poly.add(r.L.Neg())
			if op == token.QUO {
				st.poly = st.poly.add(r.L.Sub(x.L))
			} else {
				st.poly = st.poly.add(r.L.Sub(y.L).AddK(1)).add(r.L.Sub(x.L))
			}
		}
		return r
	case token.SHR:
		if c, ok := st.constOf(y.L); ok && c >= 0 && c < 40 {
			return VInt{e.divK(st, x.L, 1<<uint(c), true), it, false}
		}
		r := e.freshInt(st, it)
		if st.le(K(0), x.L) {
			st.poly = st.poly.add(r.L.Neg()).add(r.L.Sub(x.L))
		}
		return r
	case token.SHL:
		if c, ok := st.constOf(y.L); ok && c >= 0 && c < 20 {
			return raw(x.L.Scale(1 << uint(c)))
		}
		return e.freshInt(st, it)
	case token.AND:
		for i := 0; i < 2; i++ {
			if c, ok := st.constOf(y.L); ok && c >= 0 && c&(c+1) == 0 && (st.le(K(0), x.L) || it.signed) {
				if c == 0 {
					return VInt{K(0), it, false}
				}
				q := e.divK(st, x.L, c+1, true)
				return VInt{x.L.Sub(q.Scale(c + 1)), it, false}
			}
			x, y = y, x
		}
		return VBit{"and", xv, yv, t}
	case token.XOR:
		if c, ok := st.constOf(y.L); ok && c == 0 {
			return VInt{x.L, it, false}
		}
		if c, ok := st.constOf(x.L); ok && c == 0 {
			return VInt{y.L, it, false}
		}
		for i := 0; i < 2; i++ { // x^1 = x + 1 - 2*(x mod 2)
			if c, ok := st.constOf(y.L); ok && c == 1 && (st.le(K(0), x.L) || it.signed) {
				q := e.divK(st, x.L, 2, true)
				return VInt{q.Scale(4).Sub(x.L).AddK(1), it, false}
			}
			x, y = y, x
		}
		return VBit{"xor", xv, yv, t}
	case token.OR:
		if c, ok := st.constOf(y.L); ok && c == 0 {
			return VInt{x.L, it, false}
		}
		if c, ok := st.constOf(x.L); ok && c == 0 {
			return VInt{y.L, it, false}
		}
		return VBit{"or", xv, yv, t}
	case token.AND_NOT: // x &^ (2^k-1)
		if c, ok := st.constOf(y.L); ok && c > 0 && c&(c+1) == 0 {
			q := e.divK(st, x.L, c+1, true)
			return VInt{q.Scale(c + 1), it, false}
		}
	}
	return e.freshInt(st, it)
}

func sameVal(st *State, a, b Val) bool {
	switch x := a.(type) {
	case VSym:
		y, ok := b.(VSym)
		return ok && x.S == y.S
	case VInt:
		y, ok := b.(VInt)
		return ok && x.T == y.T && st.eq(x.L, y.L)
	}
	return false
}

func samePair(st *State, a, b VBit) bool {
	return sameVal(st, a.X, b.X) && sameVal(st, a.Y, b.Y) || sameVal(st, a.X, b.Y) && sameVal(st, a.Y, b.X)
}

// x&y + (x^y)>>1,  x|y - (x^y)>>1,  x + (y-x)>>1
func (e *Engine) bitop(st *State, op token.Token, b VBit, y Val, t types.Type) Val {
	switch op {
	case token.SHR, token.QUO:
		yi, ok := e.intOf(st, y)
		if !ok {
			return nil
		}
		c, ok := e.constInt(yi)
		if !ok || !(op == token.SHR && c == 1 || op == token.QUO && c == 2) {
			return nil
		}
		if b.Op == "xor" && op == token.SHR {
			return VBit{"xorh", b.X, b.Y, t}
		}
	case token.ADD:
		if b2, ok := y.(VBit); ok {
			if b.Op == "xorh" {
				b, b2 = b2, b
			}
			if b.Op == "and" && b2.Op == "xorh" && samePair(st, b, b2) {
				return e.meanOf(st, b.X, b.Y, t, true)
			}
		}
	case token.SUB:
		if b2, ok := y.(VBit); ok && b.Op == "or" && b2.Op == "xorh" && samePair(st, b, b2) {
			return e.meanOf(st, b.X, b.Y, t, false)
		}
	}
	return nil
}

// floor (or ceiling) mean of two values of one type
func (e *Engine) meanOf(st *State, x, y Val, t types.Type, floor bool) Val {
	a, ok1 := x.(VInt)
	b, ok2 := y.(VInt)
	if ok1 && ok2 {
		a, b = st.normInt(a), st.normInt(b)
		l := a.L.Add(b.L)
		if !floor {
			l = l.AddK(1)
		}
		return VInt{e.divK(st, l, 2, true), e.itype(t), false}
	}
	p, ok1 := x.(VSym)
	q, ok2 := y.(VSym)
	if !ok1 || !ok2 {
		return nil
	}
	if p.S == q.S {
		return p
	}
	m := e.w.sym()
	switch {
	case st.ordLE(p.S, q.S):
		st.addOrd(p.S, m, false)
		st.addOrd(m, q.S, false)
	case st.ordLE(q.S, p.S):
		st.addOrd(q.S, m, false)
		st.addOrd(m, p.S, false)
	default: // resolved by the caller splitting on the order
		return VBit{"mean", x, y, t}
	}
	return VSym{m, t}
}

func boolOp(op token.Token, a, b *Cond) *Cond {
	switch op {
	case token.AND:
		if a.K == cFalse || b.K == cFalse {
			return condF
		}
		if a.K == cTrue {
			return b
		}
		if b.K == cTrue {
			return a
		}
	case token.OR:
		if a.K == cTrue || b.K == cTrue {
			return condT
		}
		if a.K == cFalse {
			return b
		}
		if b.K == cFalse {
			return a
		}
	}
	return nil
}

func (e *Engine) compare(st *State, op token.Token, xv, yv Val) *Cond {
	switch op {
	case token.NEQ:
		return notC(e.compare(st, token.EQL, xv, yv))
	case token.GTR:
		return e.compare(st, token.LSS, yv, xv)
	case token.GEQ:
		return e.compare(st, token.LEQ, yv, xv)
	}
	if b, ok := xv.(VBit); ok {
		if c, ok := e.signIs(st, op, b, yv); ok {
			return c
		}
	} else if b, ok := yv.(VBit); ok {
		rev := token.LEQ // c < d unless d <= c
		if op == token.LEQ {
			rev = token.LSS
		} else if op == token.EQL {
			rev = op
		}
		if c, ok := e.signIs(st, rev, b, xv); ok {
			if rev == token.EQL {
				return c
			}
			return notC(c)
		}
	}
	switch x := xv.(type) {
	case VBool:
		if y, ok := yv.(VBool); ok && op == token.EQL {
			switch {
			case y.C.K == cTrue:
				return x.C
			case y.C.K == cFalse:
				return notC(x.C)
			case x.C.K == cTrue:
				return y.C
			case x.C.K == cFalse:
				return notC(y.C)
			}
		}
		return condU
	case VNil:
		if isNilable(yv) {
			if _, ok := yv.(VNil); ok {
				return condT
			}
			if s, ok := yv.(VSlice); ok && s.R == 0 {
				return condT
			}
			if _, ok := yv.(VSlice); ok {
				return condU
			}
			return condF
		}
		return condU
	case VPtr:
		if y, ok := yv.(VPtr); ok && op == token.EQL {
			if x.O == y.O && x.Path == y.Path {
				return condT
			}
			return condF
		}
		if _, ok := yv.(VNil); ok {
			return condF
		}
		return condU
	case VElemPtr:
		if y, ok := yv.(VElemPtr); ok && op == token.EQL {
			if x.R != y.R {
				return condF
			}
			return &Cond{K: cEq, L: x.Pos.Sub(y.Pos)}
		}
		if _, ok := yv.(VNil); ok {
			return condF
		}
		return condU
	case VSlice, VFunc, VChan, VOracle, VPred:
		if _, ok := yv.(VNil); ok {
			return e.compare(st, op, yv, xv)
		}
		return condU
	case VType:
		return condU
	case VStr:
		if y, ok := yv.(VStr); ok {
			r := false
			switch op {
			case token.EQL:
				r = x.S == y.S
			case token.LSS:
				r = x.S < y.S
			case token.LEQ:
				r = x.S <= y.S
			}
			if r {
				return condT
			}
			return condF
		}
		return condU
	}
	if x, ok := e.intOf(st, xv); ok {
		if y, ok := e.intOf(st, yv); ok {
			switch op {
			case token.EQL:
				return &Cond{K: cEq, L: x.L.Sub(y.L)}
			case token.LSS:
				return &Cond{K: cLe, L: x.L.Sub(y.L).AddK(1)}
			default:
				return &Cond{K: cLe, L: x.L.Sub(y.L)}
			}
		}
	}
	x, ok1 := xv.(VSym)
	y, ok2 := yv.(VSym)
	if ok1 && ok2 {
		f := isFloat(x.T)
		if x.S == y.S {
			if op == token.LSS {
				return condF
			}
			if !f {
				return condT
			}
			return notC(&Cond{K: cNaN, A: x.S})
		}
		switch op {
		case token.EQL:
			return &Cond{K: cSEq, A: x.S, B: y.S, F: f}
		case token.LSS:
			return &Cond{K: cLT, A: x.S, B: y.S, F: f}
		default:
			return &Cond{K: cLE, A: x.S, B: y.S, F: f}
		}
	}
	return condU
}

// comparison of a number, whose sign tells the order of two keys, with a constant
func (e *Engine) signIs(st *State, op token.Token, b VBit, y Val) (*Cond, bool) {
	p, ok1 := b.X.(VSym)
	q, ok2 := b.Y.(VSym)
	yi, ok3 := e.intOf(st, y)
	if !ok1 || !ok2 || !ok3 || b.Op != "cmp" && !(b.Op == "sub" && e.isLen(p.S) && e.isLen(q.S)) {
		return nil, false
	}
	d, ok := e.constInt(yi)
	if !ok {
		return nil, false
	}
	sym := func(op token.Token, p, q VSym) (*Cond, bool) { return e.compare(st, op, p, q), true }
	unit := b.Op == "cmp"
	switch {
	case d == 0:
		return sym(op, p, q)
	case d == -1 && (op == token.LEQ || op == token.EQL && unit):
		return sym(token.LSS, p, q)
	case d == 1 && op == token.LSS:
		return sym(token.LEQ, p, q)
	case d == 1 && op == token.EQL && unit:
		return sym(token.LSS, q, p)
	case d == 1 && op == token.LEQ && unit:
		return condT, true
	case d == -1 && op == token.LSS && unit:
		return condF, true
	}
	return nil, false
}

func isNilable(v Val) bool {
	switch v.(type) {
	case VNil, VPtr, VSlice, VFunc, VChan, VOracle, VPred, VElemPtr, VGlob, VAny:
		return true
	}
	return false
}

// ---------- branching ----------

// split st on c: states where c holds, states where it does not
func (e *Engine) split(st *State, c *Cond) (t, f []*State) {
	live := func(s ...*State) []*State {
		var r []*State
		for _, x := range s {
			if !x.dead {
				r = append(r, x)
			}
		}
		return r
	}
	switch c.K {
	case cTrue:
		return []*State{st}, nil
	case cFalse:
		return nil, []*State{st}
	case cUnk:
		return []*State{st}, []*State{st.clone()}
	case cNot:
		f, t = e.split(st, c.X)
		return t, f
	case cLe:
		if st.poly.entails(c.L) {
			return []*State{st}, nil
		}
		if st.poly.entails(c.L.Neg().AddK(1)) {
			return nil, []*State{st}
		}
		a, b := st, st.clone()
		a.assume(c.L)
		b.assume(c.L.Neg().AddK(1))
		return live(a), live(b)
	case cEq:
		if st.eq(c.L, K(0)) {
			return []*State{st}, nil
		}
		if st.neq(c.L, K(0)) {
			return nil, []*State{st}
		}
		a, b := st, st.clone()
		a.assumeEq(c.L)
		b.assumeNE(c.L)
		return live(a), live(b)
	case cNaN:
		switch st.nan[c.A] {
		case 1:
			return nil, []*State{st}
		case -1:
			return []*State{st}, nil
		}
		a, b := st, st.clone()
		a.setNaN(c.A, -1)
		b.setNaN(c.A, 1)
		return live(a), live(b)
	case cLT, cLE:
		if c.F {
			return e.splitFloat(st, c)
		}
		strict := c.K == cLT
		if strict && st.ordLT(c.A, c.B) || !strict && st.ordLE(c.A, c.B) {
			return []*State{st}, nil
		}
		if strict && st.ordLE(c.B, c.A) || !strict && st.ordLT(c.B, c.A) {
			return nil, []*State{st}
		}
		a, b := st, st.clone()
		a.addOrd(c.A, c.B, strict)
		b.addOrd(c.B, c.A, !strict)
		return live(a), live(b)
	case cSEq:
		if st.symDiffer(c.A, c.B) && !(c.F && st.nan[c.A] != 1) {
			return nil, []*State{st}
		}
		a, b := st, st.clone()
		if c.F {
			a.setNaN(c.A, 1)
			a.setNaN(c.B, 1)
		}
		a.addOrd(c.A, c.B, false)
		a.addOrd(c.B, c.A, false)
		return live(a), live(b)
	}
	return []*State{st}, []*State{st.clone()}
}

func (e *Engine) splitFloat(st *State, c *Cond) (t, f []*State) {
	na, nb := st.nan[c.A], st.nan[c.B]
	if na == -1 || nb == -1 {
		return nil, []*State{st}
	}
	cc := *c
	cc.F = false
	if na == 1 && nb == 1 {
		return e.split(st, &cc)
	}
	s := st.clone()
	s.setNaN(c.A, 1)
	s.setNaN(c.B, 1)
	if !s.dead {
		t, f = e.split(s, &cc)
	}
	if na == 0 {
		s := st.clone()
		s.setNaN(c.A, -1)
		f = append(f, s)
	}
	if nb == 0 {
		s := st.clone()
		s.setNaN(c.A, 1)
		s.setNaN(c.B, -1)
		if !s.dead {
			f = append(f, s)
		}
	}
	return
}

// ---------- values ----------

func (e *Engine) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return e.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return VBool{condT}
		}
		return VBool{condF}
	case constant.Int:
		it := e.itype(c.Type())
		if it == nil {
			return VUnk{"const"}
		}
		if i, ok := constant.Int64Val(c.Value); ok && abs64(i) < 1<<50 {
			return VInt{K(i), it, false}
		}
		b, ok := new(big.Int).SetString(c.Value.ExactString(), 10)
		if ok && it.bits == 64 { // as M expression or modulo 2^64
			two := new(big.Int).Lsh(big.NewInt(1), 64)
			n := new(big.Int).Sub(b, two)
			if n.IsInt64() && abs64(n.Int64()) < 1<<50 {
				return VInt{K(n.Int64()), it, true}
			}
			max := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 63), big.NewInt(1))
			d := new(big.Int).Sub(b, max)
			if d.IsInt64() && abs64(d.Int64()) < 1<<50 {
				return VInt{it.hiM().AddK(d.Int64()), it, true}
			}
		}
		return VUnk{"const"}
	case constant.String:
		return VStr{constant.StringVal(c.Value)}
	}
	return VUnk{"const"}
}

func (t *itype) hiM() Lin { // 2^63-1
	if t.signed {
		return t.hi
	}
	return Lin{T: []Term{{t.hi.T[0].D, 1}}}
}

func (e *Engine) zero(t types.Type) Val {
	if it := e.itype(t); it != nil {
		return VInt{K(0), it, false}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return VBool{condF}
		}
		if u.Info()&types.IsString != 0 {
			return VStr{""}
		}
		if u.Info()&types.IsFloat != 0 {
			return VStr{"0.0"}
		}
		return VNil{}
	case *types.Slice:
		return VSlice{0, K(0), K(0), K(0), u.Elem()}
	case *types.Struct:
		r := VStruct{map[string]Val{}}
		for i := 0; i < u.NumFields(); i++ {
			r.F[u.Field(i).Name()] = e.zero(u.Field(i).Type())
		}
		return r
	case *types.Pointer, *types.Signature, *types.Chan, *types.Interface, *types.Map:
		return VNil{}
	case *types.Tuple:
		var r VTuple
		for i := 0; i < u.Len(); i++ {
			r = append(r, e.zero(u.At(i).Type()))
		}
		return r
	}
	return VUnk{"zero"}
}

func (e *Engine) val(st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Global:
		return VGlob{G: x}
	case *ssa.Function:
		return VFunc{Fn: x}
	case *ssa.Builtin:
		return VBuiltin{x.Name()}
	}
	if r, ok := st.top().Env[v]; ok {
		return r
	}
	return VUnk{"undefined " + v.Name()}
}

// element symbol of a value to be stored in an array
func (e *Engine) symOf(st *State, v Val, t types.Type) Sym {
	switch x := v.(type) {
	case VSym:
		return x.S
	case VInt:
		s := e.w.sym()
		e.w.symInt[s] = x
		return s
	}
	return e.w.sym()
}

// class of element representation: views with equal class are interchangeable
func (e *Engine) class(t types.Type) string {
	if it := e.itype(t); it != nil {
		s := "u"
		if it.signed {
			s = "i"
		}
		return fmt.Sprint(s, it.bits)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Float32:
			return "f32"
		case types.Float64:
			return "f64"
		case types.String:
			return "string"
		case types.UnsafePointer:
			return "ptr"
		}
	case *types.Pointer:
		return "ptr"
	case *types.Slice:
		return "slice"
	}
	return "?" + t.String()
}

// value x, whose representation is of type from, seen as type to
func (e *Engine) view(st *State, x Sym, from, to types.Type) Val {
	a, b := e.class(from), e.class(to)
	if a == b {
		if i, ok := e.w.symInt[x]; ok {
			return i
		}
		return VSym{x, to}
	}
	if a == "slice" && b == "string" {
		return VSym{e.w.key(x, "str"), to}
	}
	return VSym{e.w.key(x, "view:"+b), to}
}

func (e *Engine) elemType(r RootID) types.Type { return e.roots[r].Elem }

func (e *Engine) newRoot(name string, n Lin, elem types.Type) *Root {
	e.w.nroot++
	r := &Root{ID: e.w.nroot, Name: name, Len: n, Elem: elem}
	e.roots[r.ID] = r
	return r
}

// ---------- memory ----------

func sizeOf(e *Engine, t types.Type) int64 { return e.sizes.Sizeof(t) }

func (e *Engine) perm(st *State, r RootID, pos Lin, write bool) {
	ro := e.roots[r]
	if ro == nil || ro.Local && !e.sharedRoot(st, r) {
		return
	}
	k, m := fR, "read"
	if write {
		k, m = fW, "write"
	}
	e.touch(st, r, pos, write)
	ok := st.coverKind(r, pos, pos.AddK(1), k)
	if !ok && write { // on either side of a shared point
		for _, f := range st.arr(r).Facts {
			if f.K != fR || !f.Hi.Eq(f.Lo.AddK(1)) || !st.neq(pos, f.Lo) {
				continue
			}
			ok = true
			for _, c := range []Lin{pos.Sub(f.Lo).AddK(1), f.Lo.Sub(pos).AddK(1)} {
				q := st.clone()
				q.assume(c)
				if !q.dead && q.feasible() && !q.coverKind(r, pos, pos.AddK(1), k) {
					ok = false
				}
			}
			break
		}
	}
	e.check(st, "race", ok, fmt.Sprintf("%s of %s element while another goroutine may use it", m, ro.Name))
}

func (e *Engine) sharedRoot(st *State, r RootID) bool { return false }

func (e *Engine) load(st *State, p Val, t types.Type) []Out {
	one := func(v Val) []Out { return []Out{{st, v}} }
	switch x := p.(type) {
	case VElemPtr:
		if x.R == 0 {
			break
		}
		ro := e.roots[x.R]
		e.perm(st, x.R, x.Pos, false)
		if st.dead {
			return nil
		}
		if e.class(ro.Elem) != e.class(t) && sizeOf(e, ro.Elem) != sizeOf(e, t) && !(e.class(ro.Elem) == "slice" && e.class(t) == "string") {
			e.check(st, "bounds", false, fmt.Sprintf("load of %v from %v elements", t, ro.Elem))
			return one(e.unknownOf(st, t))
		}
		s := st.valueAt(x.R, x.Pos)
		if st.dead {
			return nil
		}
		return one(e.view(st, s, ro.Elem, t))
	case VPtr:
		o := st.objs[x.O]
		if o == nil {
			break
		}
		if o.Shared || o.Extern {
			if c := st.ctrOf(x); c != "" {
				return one(e.atomicLoadPlain(st, x, t))
			}
		}
		return one(e.loadObj(st, o, x.Path, t))
	case VGlob:
		return e.loadGlobal(st, x, t)
	case VNil:
		e.check(st, "panic", false, "nil pointer dereference")
		return nil
	}
	e.check(st, "bounds", false, "load through an unknown pointer")
	return one(e.unknownOf(st, t))
}

func (e *Engine) loadObj(st *State, o *Obj, path string, t types.Type) Val {
	if v, ok := o.Cells[path]; ok {
		return e.reinterpret(st, v, t)
	}
	// whole struct?
	any := false
	r := VStruct{map[string]Val{}}
	for k, v := range o.Cells {
		if strings.HasPrefix(k, path+".") {
			rest := k[len(path)+1:]
			if !strings.Contains(rest, ".") {
				r.F[rest] = v
				any = true
			}
		}
	}
	if any {
		return e.reinterpret(st, r, t)
	}
	return e.unknownOf(st, t)
}

// v seen as a value of type t
func (e *Engine) reinterpret(st *State, v Val, t types.Type) Val {
	switch x := v.(type) {
	case VSlice:
		if s, ok := t.Underlying().(*types.Slice); ok {
			n := x
			if x.R != 0 && e.roots[x.R] != nil && e.class(s.Elem()) != e.class(e.roots[x.R].Elem) &&
				e.sizes.Sizeof(s.Elem()) != e.sizes.Sizeof(e.roots[x.R].Elem) {
				return VUnk{"slice of different element size"}
			}
			n.Elem = s.Elem()
			return n
		}
		if st2, ok := t.Underlying().(*types.Struct); ok && st2.NumFields() == 3 {
			return VStruct{map[string]Val{
				st2.Field(0).Name(): VElemPtr{x.R, x.Off, x.Elem},
				st2.Field(1).Name(): VInt{x.Len, e.its["int"], false},
				st2.Field(2).Name(): VInt{x.Cap, e.its["int"], false}}}
		}
		return VUnk{"slice as " + t.String()}
	case VStruct:
		if s, ok := t.Underlying().(*types.Slice); ok {
			d, ok1 := x.F["Data"]
			l, ok2 := x.F["Len"]
			c, ok3 := x.F["Cap"]
			if ok1 && ok2 && ok3 {
				li, o1 := e.intOf(st, l)
				ci, o2 := e.intOf(st, c)
				if o1 && o2 {
					switch p := d.(type) {
					case VElemPtr:
						sl := VSlice{p.R, p.Pos, li.L, ci.L, s.Elem()}
						return e.reinterpret(st, sl, t)
					case VNil:
						if st.eq(li.L, K(0)) {
							return VSlice{0, K(0), K(0), K(0), s.Elem()}
						}
					}
				}
			}
			return VUnk{"struct as slice"}
		}
		return x
	case VSym:
		if e.class(x.T) != e.class(t) {
			return e.view(st, x.S, x.T, t)
		}
		return VSym{x.S, t}
	case VInt:
		if it := e.itype(t); it != nil && it != x.T {
			if it.bits == x.T.bits {
				return VInt{x.L, it, true}
			}
			return e.unknownOf(st, t)
		}
		return x
	}
	return v
}

func (e *Engine) store(st *State, p Val, v Val, t types.Type) []*State {
	switch x := p.(type) {
	case VElemPtr:
		if x.R == 0 {
			break
		}
		ro := e.roots[x.R]
		e.perm(st, x.R, x.Pos, true)
		if st.dead {
			return nil
		}
		s := e.symOf(st, v, t)
		if e.class(ro.Elem) != e.class(t) {
			if sv, ok := v.(VSym); ok {
				if b, k := e.w.baseOf(sv.S); k == "view:"+e.class(t) {
					s = b
				} else {
					s = e.w.sym()
				}
			} else {
				s = e.w.sym()
			}
			if sizeOf(e, ro.Elem) != sizeOf(e, t) {
				e.check(st, "bounds", false, fmt.Sprintf("store of %v into %v elements", t, ro.Elem))
			}
		}
		return e.storeElem(st, x.R, x.Pos, s)
	case VPtr:
		o := st.objs[x.O]
		if o == nil {
			break
		}
		if c := st.ctrOf(x); c != "" {
			e.check(st, "race", false, "plain store to the goroutine counter")
			return []*State{st}
		}
		if o.Shared {
			e.check(st, "race", false, "plain store to memory shared between goroutines")
		}
		n := &Obj{T: o.T, Cells: map[string]Val{}, Shared: o.Shared, Extern: o.Extern, Fresh: o.Fresh}
		for k, c := range o.Cells {
			if k == x.Path || strings.HasPrefix(k, x.Path+".") {
				continue
			}
			n.Cells[k] = c
		}
		if s, ok := v.(VStruct); ok {
			for k, c := range s.F {
				flatten(n.Cells, x.Path+"."+k, c)
			}
		} else {
			n.Cells[x.Path] = v
		}
		st.objs[x.O] = n
		return []*State{st}
	case VGlob:
		e.check(st, "global", false, "store to package variable "+x.G.Name())
		return []*State{st}
	case VNil:
		e.check(st, "panic", false, "nil pointer dereference")
		return nil
	}
	e.check(st, "bounds", false, "store through an unknown pointer")
	return []*State{st}
}

func flatten(m map[string]Val, path string, v Val) {
	if s, ok := v.(VStruct); ok {
		for k, c := range s.F {
			flatten(m, path+"."+k, c)
		}
		return
	}
	m[path] = v
}

// store into an array; splits on aliasing where facts would be lost
func (e *Engine) storeElem(st *State, r RootID, pos Lin, s Sym) []*State {
	a := st.arr(r)
	for _, q := range a.Eq {
		if st.eq(q.Pos, pos) || st.neq(q.Pos, pos) || st.symDiffer(q.S, s) && false {
			continue
		}
		// only points that matter: same index expression family
		if e.aliasMatters(st, r, q, pos) {
			t, f := e.split(st, &Cond{K: cEq, L: q.Pos.Sub(pos)})
			var out []*State
			for _, x := range t {
				v := s
				x.renamed = map[Sym]Sym{}
				x.unify()
				for y, ok := x.renamed[v]; ok; y, ok = x.renamed[v] {
					v = y
				}
				x.renamed = nil
				x.reinstantiate(r)
				if x.dead {
					continue
				}
				out = append(out, e.storeElem(x, r, pos, v)...)
			}
			for _, x := range f {
				x.reinstantiate(r)
				if x.dead {
					continue
				}
				out = append(out, e.storeElem(x, r, pos, s)...)
			}
			return out
		}
	}
	st.store(r, pos, s)
	if st.dead {
		return nil
	}
	return []*State{st}
}

// positions were related by a case split: facts may decide more about the values there
func (s *State) reinstantiate(r RootID) {
	for _, p := range s.arr(r).Eq {
		s.instantiate(r, p.Pos, p.S)
		s.minTags(p.S)
	}
}

func (e *Engine) aliasMatters(st *State, r RootID, q Eq, pos Lin) bool {
	if e.roots[r].Oracle {
		return true
	}
	d := q.Pos.Sub(pos)
	if len(d.T) > 0 && len(d.T) <= 2 {
		return true
	}
	// a value held in a register: where it came from must not be forgotten
	for _, v := range st.top().Env {
		if y, ok := v.(VSym); ok && y.S == q.S {
			return true
		}
	}
	return false
}

func (e *Engine) loadGlobal(st *State, g VGlob, t types.Type) []Out {
	one := func(v Val) []Out { return []Out{{st, v}} }
	if g.G.Pkg == e.pkg {
		switch g.G.Name() {
		case "MaxGor":
			v := e.freshInt(st, e.its["uint64"])
			st.mg[v.L.T[0].D] = true
			return one(v)
		case "NaNoption":
			return one(VInt{K(int64(e.nan)), e.itype(t), false})
		}
	}
	if e.stored[g.G] {
		// mutable package variable: value unknown, reads may race with anything
		return one(e.unknownOf(st, t))
	}
	tab := e.globalInit(g.G)
	if tab == nil {
		return one(e.unknownOf(st, t))
	}
	it := e.itype(t)
	if it == nil {
		return one(e.unknownOf(st, t))
	}
	if g.Idx == nil {
		if v, ok := tab[-1]; ok {
			return one(VInt{K(v), it, false})
		}
		return one(e.unknownOf(st, t))
	}
	n := int64(1)
	if at, ok := g.G.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
		n = at.Len()
	}
	if n > 64 {
		return one(e.unknownOf(st, t))
	}
	var outs []Out
	for i := int64(0); i < n; i++ {
		s := st.clone()
		s.assumeEq(g.Idx.AddK(-i))
		if s.dead || !s.feasible() {
			continue
		}
		v := tab[i]
		if it.bits == 32 && !it.signed && v >= 1<<31 {
			v -= 1 << 32 // small negative, modulo
			outs = append(outs, Out{s, VInt{K(v), it, true}})
			continue
		}
		outs = append(outs, Out{s, VInt{K(v), it, false}})
	}
	return outs
}

// constant contents of a package variable that is only written by the package initializer
func (e *Engine) globalInit(g *ssa.Global) map[int64]int64 {
	if g.Pkg == nil {
		return nil
	}
	init := g.Pkg.Func("init")
	if init == nil {
		return nil
	}
	tab := map[int64]int64{}
	if _, ok := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); !ok {
		tab[-1] = 0
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			idx := int64(-2)
			if s.Addr == ssa.Value(g) {
				idx = -1
			} else if ia, ok := s.Addr.(*ssa.IndexAddr); ok && ia.X == ssa.Value(g) {
				c, ok := ia.Index.(*ssa.Const)
				if !ok {
					return nil
				}
				idx = c.Int64()
			}
			if idx == -2 {
				continue
			}
			if idx == -1 {
				if ld, ok := s.Val.(*ssa.UnOp); ok && ld.Op == token.MUL {
					al, ok := ld.X.(*ssa.Alloc)
					if !ok || !compositeInit(al, ld, tab) {
						return nil
					}
					continue
				}
			}
			c, ok := s.Val.(*ssa.Const)
			if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
				return nil
			}
			tab[idx], _ = constant.Int64Val(constant.ToInt(c.Value))
		}
	}
	return tab
}

// contents of an array built by constant stores to its elements, then loaded whole once
func compositeInit(al *ssa.Alloc, ld *ssa.UnOp, tab map[int64]int64) bool {
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.IndexAddr:
			i, ok := x.Index.(*ssa.Const)
			if !ok || x.Block() != ld.Block() {
				return false
			}
			for _, q := range *x.Referrers() {
				st, ok := q.(*ssa.Store)
				if !ok || st.Addr != ssa.Value(x) || st.Block() != ld.Block() {
					return false
				}
				c, ok := st.Val.(*ssa.Const)
				if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
					return false
				}
				// stores come in program order within the block
				tab[i.Int64()], _ = constant.Int64Val(constant.ToInt(c.Value))
			}
		case *ssa.UnOp:
			if x != ld {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// package variables stored to outside initializers
func (e *Engine) scanGlobals(fns map[*ssa.Function]bool) {
	e.stored = map[*ssa.Global]bool{}
	for fn := range fns {
		if fn.Synthetic != "" && fn.Name() == "init" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
						continue // load
					case *ssa.IndexAddr:
						if !onlyLoaded(x) {
							e.stored[g] = true
						}
					case *ssa.FieldAddr:
						if !onlyLoaded(x) {
							e.stored[g] = true
						}
					default:
						e.stored[g] = true
					}
				}
			}
		}
	}
}

func onlyLoaded(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
		case *ssa.DebugRef:
		case *ssa.IndexAddr:
			if !onlyLoaded(x) {
				return false
			}
		case *ssa.FieldAddr:
			if !onlyLoaded(x) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// ---------- instructions ----------

func (e *Engine) setv(st *State, v ssa.Value, x Val) { st.top().Env[v] = x }

func (e *Engine) execInstr(st *State, in ssa.Instruction) []*State {
	e.curIn = in
	e.steps++
	if e.stop != nil && e.stop.Load() {
		e.giveUp("stopped")
	}
	if e.limit > 0 && e.steps > e.limit || !e.stopAt.IsZero() && time.Now().After(e.stopAt) {
		e.giveUp("analysis budget exhausted")
	}
	one := []*State{st}
	bindOuts := func(v ssa.Value, outs []Out) []*State {
		var r []*State
		for _, o := range outs {
			if o.st.dead {
				continue
			}
			e.setv(o.st, v, o.ret)
			r = append(r, o.st)
		}
		return r
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		return one
	case *ssa.BinOp:
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			e.intArg(st, x.X)
			e.intArg(st, x.Y)
		case token.QUO, token.REM, token.SHR, token.AND, token.XOR, token.OR:
			e.intArg(st, x.X)
		}
		r := e.binop(st, x.Op, e.val(st, x.X), e.val(st, x.Y), x.Type(), x.X, x.Y)
		if st.dead {
			return nil
		}
		if b, ok := r.(VBit); ok && b.Op == "mean" {
			p, q := b.X.(VSym), b.Y.(VSym)
			t, f := e.split(st, &Cond{K: cLE, A: p.S, B: q.S, F: isFloat(b.T)})
			var res []*State
			for _, s := range append(t, f...) {
				e.setv(s, x, e.meanOf(s, b.X, b.Y, b.T, true))
				res = append(res, s)
			}
			return res
		}
		e.setv(st, x, r)
		return one
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			return bindOuts(x, e.load(st, e.val(st, x.X), x.Type()))
		case token.NOT:
			if b, ok := e.val(st, x.X).(VBool); ok {
				e.setv(st, x, VBool{notC(b.C)})
				return one
			}
		case token.SUB:
			if i, ok := e.intOf(st, e.val(st, x.X)); ok {
				e.setv(st, x, VInt{i.L.Neg(), i.T, true})
				return one
			}
		case token.XOR: // ^x == -x-1
			if i, ok := e.intOf(st, e.val(st, x.X)); ok {
				e.setv(st, x, VInt{i.L.Neg().AddK(-1), i.T, true})
				return one
			}
		case token.ARROW:
			return bindOuts(x, e.recv(st, e.val(st, x.X), x.Type()))
		}
		e.setv(st, x, e.unknownOf(st, x.Type()))
		return one
	case *ssa.Alloc:
		e.alloc(st, x)
		return one
	case *ssa.Store:
		return e.store(st, e.val(st, x.Addr), e.val(st, x.Val), x.Val.Type())
	case *ssa.FieldAddr:
		f := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(x.Field).Name()
		switch p := e.val(st, x.X).(type) {
		case VPtr:
			e.setv(st, x, VPtr{p.O, p.Path + "." + f})
		case VNil:
			e.check(st, "panic", false, "nil pointer dereference")
			return nil
		case VGlob:
			e.setv(st, x, VGlob{G: p.G, Path: p.Path + "." + f})
		default:
			e.setv(st, x, VUnk{"field address"})
		}
		return one
	case *ssa.Field:
		f := x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name()
		if s, ok := e.val(st, x.X).(VStruct); ok {
			if v, ok := s.F[f]; ok {
				e.setv(st, x, v)
				return one
			}
		}
		e.setv(st, x, e.unknownOf(st, x.Type()))
		return one
	case *ssa.IndexAddr:
		i, ok := e.intArg(st, x.Index)
		if !ok {
			i = e.freshInt(st, e.its["int"])
		}
		switch p := e.val(st, x.X).(type) {
		case VSlice:
			ok := st.le(K(0), i.L) && st.lt(i.L, p.Len)
			if !e.check(st, "bounds", ok, "index out of range") {
				st.assume(i.L.Neg())
				st.assume(i.L.Sub(p.Len).AddK(1))
			}
			if st.dead {
				return nil
			}
			e.setv(st, x, VElemPtr{p.R, p.Off.Add(i.L), x.Type().Underlying().(*types.Pointer).Elem()})
			return one
		case VElemPtr: // pointer to array
			n := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			ok := st.le(K(0), i.L) && st.lt(i.L, K(n))
			if !e.check(st, "bounds", ok, "index out of range") {
				st.assume(i.L.Neg())
				st.assume(i.L.AddK(1 - n))
			}
			if st.dead {
				return nil
			}
			e.setv(st, x, VElemPtr{p.R, p.Pos.Add(i.L), x.Type().Underlying().(*types.Pointer).Elem()})
			return one
		case VGlob:
			if at, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				if ar, ok := at.Elem().Underlying().(*types.Array); ok {
					ok := st.le(K(0), i.L) && st.lt(i.L, K(ar.Len()))
					e.check(st, "bounds", ok, "index out of range")
					if st.dead {
						return nil
					}
					l := i.L
					e.setv(st, x, VGlob{G: p.G, Path: p.Path, Idx: &l})
					return one
				}
			}
		case VUnk:
		}
		e.check(st, "bounds", false, "index into an unknown collection")
		e.setv(st, x, VUnk{"element address"})
		return one
	case *ssa.Index:
		e.intArg(st, x.Index)
		if i, ok := e.intOf(st, e.val(st, x.Index)); ok {
			if at, ok := x.X.Type().Underlying().(*types.Array); ok {
				e.check(st, "bounds", st.le(K(0), i.L) && st.lt(i.L, K(at.Len())), "index out of range")
			}
		}
		e.setv(st, x, e.unknownOf(st, x.Type()))
		return one
	case *ssa.Slice:
		return e.execSlice(st, x)
	case *ssa.Convert:
		e.setv(st, x, e.convert(st, e.val(st, x.X), x.X.Type(), x.Type()))
		return one
	case *ssa.ChangeType:
		e.setv(st, x, e.val(st, x.X))
		return one
	case *ssa.MultiConvert:
		e.setv(st, x, e.convert(st, e.val(st, x.X), x.X.Type(), x.Type()))
		return one
	case *ssa.MakeInterface:
		v := e.val(st, x.X)
		e.setv(st, x, VAny{Inner: v, M: modelOf(x.X.Type())})
		return one
	case *ssa.ChangeInterface:
		e.setv(st, x, e.val(st, x.X))
		return one
	case *ssa.TypeAssert:
		return e.typeAssert(st, x)
	case *ssa.MakeClosure:
		f := VFunc{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.Binds = append(f.Binds, e.val(st, b))
		}
		e.setv(st, x, f)
		return one
	case *ssa.Extract:
		if t, ok := e.val(st, x.Tuple).(VTuple); ok && x.Index < len(t) {
			e.setv(st, x, t[x.Index])
		} else {
			e.setv(st, x, e.unknownOf(st, x.Type()))
		}
		return one
	case *ssa.Call:
		return bindOuts(x, e.execCall(st, x, &x.Call, x.Type()))
	case *ssa.Go:
		return e.execGo(st, x)
	case *ssa.MakeChan:
		return e.makeChan(st, x)
	case *ssa.Send:
		return e.send(st, e.val(st, x.Chan), e.val(st, x.X))
	case *ssa.MakeSlice:
		e.check(st, "memory", false, "allocates a slice")
		n, _ := e.intArg(st, x.Len)
		r := e.newRoot("made", n.L, x.Type().Underlying().(*types.Slice).Elem())
		r.Local = true
		e.setv(st, x, VSlice{r.ID, K(0), n.L, n.L, r.Elem})
		return one
	case *ssa.RunDefers:
		return one
	}
	e.giveUp(fmt.Sprintf("unsupported instruction %T", in))
	return nil
}

func (e *Engine) framePath(st *State) string {
	var b strings.Builder
	for _, f := range st.frames {
		b.WriteString(f.Fn.Name())
		b.WriteByte('/')
	}
	return b.String()
}

func (e *Engine) alloc(st *State, x *ssa.Alloc) {
	site := fmt.Sprintf("%s%d:%s", e.framePath(st), x.Pos(), x.Name())
	t := x.Type().Underlying().(*types.Pointer).Elem()
	if at, ok := t.Underlying().(*types.Array); ok {
		id, ok := e.rootAt[site]
		if !ok {
			r := e.newRoot("local "+x.Comment, K(at.Len()), at.Elem())
			r.Local = true
			r.Site = site
			id = r.ID
			e.rootAt[site] = id
		}
		st.arrs[id] = &Arr{}
		e.setv(st, x, VElemPtr{id, K(0), t})
		return
	}
	id, ok := e.objAt[site]
	if !ok {
		id = e.w.id()
		e.objAt[site] = id
	}
	o := &Obj{T: t, Cells: map[string]Val{}, Fresh: true}
	flatten(o.Cells, "", e.zero(t))
	st.objs[id] = o
	e.setv(st, x, VPtr{id, ""})
}

func (e *Engine) execSlice(st *State, x *ssa.Slice) []*State {
	get := func(v ssa.Value, def Lin) Lin {
		if v == nil {
			return def
		}
		if i, ok := e.intArg(st, v); ok {
			return i.L
		}
		return D(e.w.dim())
	}
	var base VSlice
	switch p := e.val(st, x.X).(type) {
	case VSlice:
		base = p
	case VElemPtr:
		at, ok := p.T.Underlying().(*types.Array)
		if !ok {
			e.setv(st, x, VUnk{"slice"})
			return []*State{st}
		}
		base = VSlice{p.R, p.Pos, K(at.Len()), K(at.Len()), at.Elem()}
	default:
		e.check(st, "bounds", false, "slicing an unknown value")
		e.setv(st, x, VUnk{"slice"})
		return []*State{st}
	}
	lo := get(x.Low, K(0))
	hi := get(x.High, base.Len)
	mx := get(x.Max, base.Cap)
	ok := st.le(K(0), lo) && st.le(lo, hi) && st.le(hi, mx) && st.le(mx, base.Cap)
	if !e.check(st, "bounds", ok, "slice bounds out of range") {
		st.assume(lo.Neg())
		st.assume(lo.Sub(hi))
		st.assume(hi.Sub(mx))
		st.assume(mx.Sub(base.Cap))
	}
	if st.dead {
		return nil
	}
	e.setv(st, x, VSlice{base.R, base.Off.Add(lo), hi.Sub(lo), mx.Sub(lo), base.Elem})
	return []*State{st}
}

func (e *Engine) convert(st *State, v Val, from, to types.Type) Val {
	it := e.itype(to)
	switch x := v.(type) {
	case VInt:
		if it == nil {
			return e.unknownOf(st, to)
		}
		if x.T == it {
			return x
		}
		if x.Raw && x.T.bits >= it.bits {
			return VInt{x.L, it, true}
		}
		x = st.normInt(x)
		return VInt{x.L, it, true}
	case VSym:
		a, b := e.class(from), e.class(to)
		if a == b {
			return VSym{x.S, to}
		}
		if a == "ptr" && e.itype(to) != nil {
			return VSym{e.w.key(x.S, "addr"), to}
		}
		if e.itype(from) != nil && it != nil || isFloat(to) {
			return VSym{e.w.key(x.S, "conv:"+b), to}
		}
		if s, ok := from.Underlying().(*types.Slice); ok && b == "string" && e.class(s.Elem()) == "u8" {
			return e.view(st, x.S, from, to) // same content
		}
		return e.unknownOf(st, to)
	case VBit:
		return e.unknownOf(st, to)
	case VUnk, VStr:
		if b, ok := v.(VStr); ok {
			if _, ok := to.Underlying().(*types.Basic); ok && e.itype(to) == nil {
				return b
			}
		}
		if it != nil {
			return e.unknownOf(st, to)
		}
		return v
	}
	if it != nil { // pointer to integer
		return VUnk{"pointer as integer"}
	}
	return v
}

var _ = sort.Ints
