package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- calls ----------

func (e *Engine) execCall(st *State, in ssa.Instruction, c *ssa.CallCommon, rt types.Type) []Out {
	one := func(v Val) []Out { return []Out{{st, v}} }
	var args []Val
	for _, a := range c.Args {
		if e.itype(a.Type()) != nil {
			e.intArg(st, a)
		}
		args = append(args, e.val(st, a))
	}
	if c.IsInvoke() {
		return e.invoke(st, c, args, rt)
	}
	switch f := e.val(st, c.Value).(type) {
	case VBuiltin:
		return e.builtin(st, f.Name, args, c, rt)
	case VOracle:
		return e.oracle(st, f, args)
	case VPred:
		return e.pred(st, f, args)
	case VFunc:
		return e.callFunc(st, in, f, args, rt)
	case VNil:
		e.check(st, "panic", false, "call of a nil function")
		return nil
	}
	e.giveUp("call of an unknown function")
	return one(e.unknownOf(st, rt))
}

func (e *Engine) builtin(st *State, name string, args []Val, c *ssa.CallCommon, rt types.Type) []Out {
	one := func(v Val) []Out { return []Out{{st, v}} }
	it := e.its["int"]
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case VSlice:
			if name == "len" {
				return one(VInt{x.Len, it, false})
			}
			return one(VInt{x.Cap, it, false})
		case VSym:
			if name == "len" {
				// length of an element; views of a header all have the same one
				b, k := e.w.baseOf(x.S)
				if k == "str" {
					return one(VSym{e.w.key(b, "len"), types.Typ[types.Int]})
				}
				return one(VSym{e.w.key(x.S, "len"), types.Typ[types.Int]})
			}
		case VElemPtr:
			if at, ok := x.T.Underlying().(*types.Array); ok {
				return one(VInt{K(at.Len()), it, false})
			}
		case VStr:
			return one(VInt{K(int64(len(x.S))), it, false})
		}
		v := e.freshInt(st, it)
		st.assume(v.L.Neg())
		return one(v)
	case "min", "max":
		if len(args) == 2 {
			op := token.LEQ
			if name == "max" {
				op = token.GEQ
			}
			cd := e.compare(st, op, args[0], args[1])
			if cd.K != cUnk {
				t, f := e.split(st, cd)
				var r []Out
				for _, s := range t {
					r = append(r, Out{s, args[0]})
				}
				for _, s := range f {
					r = append(r, Out{s, args[1]})
				}
				return r
			}
		}
		return one(e.unknownOf(st, rt))
	case "append":
		e.check(st, "memory", false, "append may allocate")
		e.giveUp("append")
	case "copy":
		return e.copySlice(st, args, it)
	case "ssa:wrapnilchk":
		return one(args[0])
	case "panic":
		e.check(st, "panic", false, "panic reached")
		return nil
	case "SliceData", "StringData":
		if s, ok := args[0].(VSlice); ok {
			return one(VElemPtr{s.R, s.Off, s.Elem})
		}
		if s, ok := args[0].(VSym); ok {
			return one(VTuple{VStr{name}, s})
		}
	case "Slice":
		if p, ok := args[0].(VElemPtr); ok {
			if n, ok := e.intOf(st, args[1]); ok {
				return one(e.reinterpret(st, VSlice{p.R, p.Pos, n.L, n.L, p.T}, rt))
			}
		}
		if _, ok := args[0].(VNil); ok {
			return one(e.zero(rt))
		}
	case "String":
		// unsafe.String(unsafe.SliceData(b), len(b)) of one element is its string view
		if t, ok := args[0].(VTuple); ok && len(t) == 2 {
			if s, ok := t[1].(VSym); ok {
				if l, ok := args[1].(VSym); ok && l.S == e.w.key(s.S, "len") {
					return one(e.view(st, s.S, s.T, types.Typ[types.String]))
				}
			}
		}
	case "print", "println":
		return one(VUnk{})
	}
	e.giveUp("builtin " + name)
	return nil
}

func (e *Engine) copySlice(st *State, args []Val, it *itype) []Out {
	d, ok1 := args[0].(VSlice)
	s, ok2 := args[1].(VSlice)
	if !ok1 || !ok2 {
		e.giveUp("copy")
	}
	n, ok := e.constInt(VInt{d.Len, it, false})
	m, ok3 := e.constInt(VInt{s.Len, it, false})
	if !ok || !ok3 || n > 20 || m > 20 {
		// overlapping shift by one inside one array
		e.giveUp("copy of unknown length")
	}
	if m < n {
		n = m
	}
	var xs []Sym
	for i := int64(0); i < n; i++ {
		e.perm(st, s.R, s.Off.AddK(i), false)
		xs = append(xs, st.valueAt(s.R, s.Off.AddK(i)))
	}
	cur := []*State{st}
	for i, x := range xs {
		var next []*State
		for _, q := range cur {
			e.perm(q, d.R, d.Off.AddK(int64(i)), true)
			next = append(next, e.storeElem(q, d.R, d.Off.AddK(int64(i)), x)...)
		}
		cur = next
	}
	var r []Out
	for _, q := range cur {
		r = append(r, Out{q, VInt{K(n), it, false}})
	}
	return r
}

func fullName(f *ssa.Function) string {
	return f.String()
}

func (e *Engine) callFunc(st *State, in ssa.Instruction, f VFunc, args []Val, rt types.Type) []Out {
	fn := f.Fn
	if o := fn.Origin(); o != nil && len(fn.Blocks) == 0 {
		fn = o
	}
	name := fullName(fn)
	if strings.HasPrefix(name, "sync/atomic.") || strings.HasPrefix(name, "(*sync/atomic.") {
		return e.atomic(st, in, fn, args, rt)
	}
	if strings.HasPrefix(name, "(reflect.") || strings.HasPrefix(name, "reflect.") || strings.HasPrefix(name, "(*reflect.") {
		return e.reflectCall(st, fn, args, rt)
	}
	switch name {
	case "math.IsNaN":
		if x, ok := args[0].(VSym); ok {
			b, k := e.w.baseOf(x.S)
			if strings.HasPrefix(k, "conv:f") || strings.HasPrefix(k, "view:f") {
				return []Out{{st, VBool{&Cond{K: cNaN, A: b}}}}
			}
			return []Out{{st, VBool{&Cond{K: cNaN, A: x.S}}}}
		}
	case "runtime.Gosched", "runtime.KeepAlive":
		return []Out{{st, VUnk{}}}
	}
	if r := e.compareCall(st, name, fn, args); r != nil {
		return r
	}
	if len(fn.Blocks) == 0 {
		e.giveUp("call of external function " + name)
	}
	// closures given as lesswap
	for i, a := range args {
		if c, ok := a.(VFunc); ok && isLesswap(c.Fn.Signature) {
			if o, ok := e.conform(st, c); ok {
				args[i] = o
			}
		}
	}
	if r, ok := e.trySummary(st, in, f, args, false); ok {
		return r
	}
	if r, ok := e.tryPart(st, in, f, args); ok {
		return r
	}
	return e.inline(st, in, f, args)
}

// is s the length of something, which is not negative?
func (e *Engine) isLen(s Sym) bool {
	_, k := e.w.baseOf(s)
	return k == "len"
}

// comparison functions of the standard library
func (e *Engine) compareCall(st *State, name string, fn *ssa.Function, args []Val) []Out {
	if i := strings.IndexByte(name, '['); i > 0 {
		name = name[:i]
	}
	switch name {
	case "strings.Compare", "bytes.Compare", "bytes.Equal", "cmp.Compare", "cmp.Less":
	default:
		return nil
	}
	if len(args) != 2 {
		return nil
	}
	x, ok1 := args[0].(VSym)
	y, ok2 := args[1].(VSym)
	if !ok1 || !ok2 || isFloat(x.T) || isFloat(y.T) {
		return nil
	}
	if strings.HasPrefix(name, "bytes.") {
		t := fn.Signature.Params().At(0).Type()
		x1, ok1 := e.view(st, x.S, t, types.Typ[types.String]).(VSym)
		y1, ok2 := e.view(st, y.S, t, types.Typ[types.String]).(VSym)
		if !ok1 || !ok2 {
			return nil
		}
		x, y = x1, y1
	}
	switch name {
	case "bytes.Equal":
		return []Out{{st, VBool{e.compare(st, token.EQL, x, y)}}}
	case "cmp.Less":
		return []Out{{st, VBool{e.compare(st, token.LSS, x, y)}}}
	}
	return []Out{{st, VBit{"cmp", x, y, types.Typ[types.Int]}}}
}

func (e *Engine) inline(st *State, in ssa.Instruction, f VFunc, args []Val) []Out {
	fn := f.Fn
	if len(st.frames) > 14 {
		e.giveUp("call depth")
	}
	for _, fr := range st.frames {
		if fr.Fn == fn {
			e.giveUp("recursion without a contract in " + fn.Name())
		}
	}
	caller := st.top()
	env := map[ssa.Value]Val{}
	for i, p := range fn.Params {
		if i < len(args) {
			env[p] = args[i]
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(f.Binds) {
			env[v] = f.Binds[i]
		}
	}
	st.frames = append(append([]*Frame(nil), st.frames...), &Frame{Fn: fn, Env: env})
	if e.cfgOf(fn).loops && fn.Parent() == nil {
		// multisets of the arguments, to count by later
		for _, a := range args {
			if s, ok := a.(VSlice); ok && s.R != 0 {
				st.bagFor(s.R, s.Off, s.Off.Add(s.Len))
			}
		}
		var ps []Sym
		for _, a := range args {
			if v, ok := a.(VSym); ok {
				ps = append(ps, v.S)
			}
		}
		if len(ps) > 0 {
			st.materializeCnts(ps)
		}
	}
	if e.debug && e.cfgOf(fn).loops {
		fmt.Println("INLINE", fn.Name(), st)
	}
	msg := st.msg
	st.msg = 0
	outs := e.runBody(st)
	for _, o := range outs {
		o.st.msg = msg
	}
	e.curIn = in
	if e.debug && e.cfgOf(fn).loops {
		for _, o := range outs {
			fmt.Println("INLINEOUT", fn.Name(), o.ret, o.st)
		}
	}
	if dbgStop != "" && fn.Name() == dbgStop {
		os.Exit(0)
	}
	// common results are merged
	if len(outs) > 1 && (e.cfgOf(fn).loops && len(outs) > 2 || len(outs) > 8) {
		outs = e.mergeOuts(fn, outs)
	}
	for i := range outs {
		s := outs[i].st
		s.frames = append([]*Frame(nil), s.frames[:len(s.frames)-1]...)
		if e.cfgOf(fn).loops {
			e.dropCells(s, outs[i].ret)
		}
		t := *s.frames[len(s.frames)-1]
		if t.Fn != caller.Fn {
			panic("frame mismatch")
		}
		t.Env = make(map[ssa.Value]Val, len(t.Env)+4)
		for k, v := range s.frames[len(s.frames)-1].Env {
			t.Env[k] = v
		}
		s.frames[len(s.frames)-1] = &t
		s.dropLocals(e, outs[i].ret)
	}
	return outs
}

// pseudo variable holding a return value while merging
type retVal struct{ ssa.Value }

// first element of an exchange, between its two stores
var swapKey ssa.Value = ssa.NewConst(nil, types.Typ[types.UntypedBool])
var retKey ssa.Value = ssa.NewConst(nil, types.Typ[types.UntypedNil])

var dbgStop = os.Getenv("SORTYAI_STOP")

func (e *Engine) mergeOuts(fn *ssa.Function, outs []Out) []Out {
	if e.debug {
		fmt.Println("MERGEOUTS", fn.Name(), len(outs))
	}
	var ss []*State
	for _, o := range outs {
		f := o.st.top()
		env := map[ssa.Value]Val{}
		// only what the result refers to is needed
		if o.ret != nil {
			v := o.ret
			if i, ok := v.(VInt); ok {
				v = o.st.normInt(i)
			}
			env[retKey] = v
		}
		for k, v := range f.Env { // keep slices and pivots visible for counting
			switch v.(type) {
			case VSym, VSlice:
				if _, isP := k.(*ssa.Parameter); isP {
					env[k] = v
				}
			}
		}
		nf := &Frame{Fn: fn, Env: env}
		o.st.frames[len(o.st.frames)-1] = nf
		o.st.dropLocals(e, nil)
		ss = append(ss, o.st)
	}
	if !e.query || len(ss) > 24 { // queries are short: keep their paths apart
		ss = e.mergeBy(ss, func(s *State) string { return s.shape() + s.retSign() })
	}
	var r []Out
	for _, s := range ss {
		r = append(r, Out{s, s.top().Env[retKey]})
	}
	return r
}

// how an integer result compares with the caller's numbers: the caller is about
// to find out, and what holds in each case should stay apart until then
func (s *State) retSign() string {
	n := len(s.frames)
	if n >= 2 {
		b := []byte{' '}
		var vis func(v Val)
		vis = func(v Val) {
			switch x := v.(type) {
			case VTuple:
				for _, y := range x {
					vis(y)
				}
			case VSlice: // which end of which slice of the caller
				env := s.frames[n-2].Env
				var ks []ssa.Value
				for k, y := range env {
					if sl, ok := y.(VSlice); ok && sl.R == x.R && x.R != 0 {
						ks = append(ks, k)
					}
				}
				if len(ks) > 4 {
					return
				}
				sort.Slice(ks, func(i, j int) bool { return vless(ks[i], ks[j]) })
				for _, k := range ks {
					y := env[k].(VSlice)
					c := byte('a')
					if s.eq(x.Off, y.Off) {
						c++
					}
					if s.eq(x.Off.Add(x.Len), y.Off.Add(y.Len)) {
						c += 2
					}
					b = append(b, c)
				}
			}
		}
		switch v := s.top().Env[retKey].(type) {
		case VTuple, VSlice:
			vis(v)
			return string(b)
		}
	}
	v, ok := s.top().Env[retKey].(VInt)
	if !ok || n < 2 || v.Raw {
		return ""
	}
	env := s.frames[n-2].Env
	var ks []ssa.Value
	for k, x := range env {
		if i, ok := x.(VInt); ok && !i.Raw {
			ks = append(ks, k)
		}
	}
	if len(ks) > 14 {
		return ""
	}
	sort.Slice(ks, func(i, j int) bool { return vless(ks[i], ks[j]) })
	b := []byte{' '}
	for _, k := range ks {
		if len(ks) > 8 {
			b = append(b, s.coarseSide(v.L, env[k].(VInt).L))
		} else {
			b = append(b, s.sideOf(v.L, env[k].(VInt).L))
		}
	}
	b = append(b, s.sideOf(v.L, K(0)))
	var ps []ssa.Value
	for k, x := range env {
		if sl, ok := x.(VSlice); ok && sl.R != 0 {
			ps = append(ps, k)
		}
	}
	if len(ps) > 3 {
		return string(b)
	}
	sort.Slice(ps, func(i, j int) bool { return vless(ps[i], ps[j]) })
	for _, k := range ps {
		b = append(b, s.coarseSide(v.L, env[k].(VSlice).Len))
	}
	return string(b)
}

func (s *State) coarseSide(v, l Lin) byte {
	switch {
	case s.lt(v, l):
		return '<'
	case s.le(l, v):
		return '>'
	}
	return '?'
}

func (s *State) sideOf(v, l Lin) byte {
	switch {
	case s.le(v, l.AddK(-2)):
		return '('
	case s.eq(v, l.AddK(-1)):
		return '-'
	case s.lt(v, l):
		return '<'
	case s.eq(v, l):
		return '='
	case s.le(l, v):
		return '>'
	}
	return '?'
}

// forget local objects and arrays nothing refers to
func (s *State) dropLocals(e *Engine, ret Val) {
	objs := map[int]bool{}
	roots := map[RootID]bool{}
	var work []int
	var vis func(v Val)
	vis = func(v Val) {
		switch x := v.(type) {
		case VPtr:
			if !objs[x.O] {
				objs[x.O] = true
				work = append(work, x.O)
			}
		case VSlice:
			roots[x.R] = true
		case VElemPtr:
			roots[x.R] = true
		case VTuple:
			for _, y := range x {
				vis(y)
			}
		case VStruct:
			for _, y := range x.F {
				vis(y)
			}
		case VFunc:
			for _, y := range x.Binds {
				vis(y)
			}
		case VAny:
			vis(x.Inner)
		}
	}
	for _, f := range s.frames {
		for _, v := range f.Env {
			vis(v)
		}
	}
	if ret != nil {
		vis(ret)
	}
	for k := range s.ctr {
		var id int
		fmt.Sscanf(k, "%d", &id)
		objs[id] = true
		work = append(work, id)
	}
	for id, o := range s.objs {
		if o.Extern || o.Shared {
			if !objs[id] {
				objs[id] = true
				work = append(work, id)
			}
		}
	}
	for len(work) > 0 {
		id := work[len(work)-1]
		work = work[:len(work)-1]
		if o := s.objs[id]; o != nil {
			for _, v := range o.Cells {
				vis(v)
			}
		}
	}
	for id := range s.objs {
		if !objs[id] {
			delete(s.objs, id)
		}
	}
	for r := range s.arrs {
		if ro := e.roots[r]; ro != nil && ro.Local && !roots[r] {
			delete(s.arrs, r)
		}
	}
}

// ---------- lesswap and predicates ----------

func isLesswap(s *types.Signature) bool {
	if s.Params().Len() != 4 || s.Results().Len() != 1 || s.Variadic() {
		return false
	}
	for i := 0; i < 4; i++ {
		b, ok := s.Params().At(i).Type().Underlying().(*types.Basic)
		if !ok || b.Kind() != types.Int {
			return false
		}
	}
	b, ok := s.Results().At(0).Type().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

func (e *Engine) oracle(st *State, o VOracle, args []Val) []Out {
	var p [4]Lin
	n := e.roots[o.R].Len
	for i := range p {
		v, ok := e.intOf(st, args[i])
		if !ok {
			v = e.freshInt(st, e.its["int"])
		}
		p[i] = v.L
		if !e.check(st, "bounds", st.le(K(0), v.L) && st.lt(v.L, n), "lesswap index outside the collection") {
			st.assume(v.L.Neg())
			st.assume(v.L.Sub(n).AddK(1))
		}
		if st.dead {
			return nil
		}
	}
	e.perm(st, o.R, p[0], false)
	e.perm(st, o.R, p[1], false)
	if st.dead {
		return nil
	}
	if st.eq(p[0], p[1]) {
		return []Out{{st, VBool{condF}}}
	}
	if e.noOrd {
		return e.oracleNoOrd(st, o, p)
	}
	x := st.valueAt(o.R, p[0])
	y := st.valueAt(o.R, p[1])
	if x == y {
		return []Out{{st, VBool{condF}}}
	}
	kx, ky := e.w.key(x, o.Key), e.w.key(y, o.Key)
	t, f := e.split(st, &Cond{K: cLT, A: kx, B: ky})
	var out []Out
	for _, s := range f {
		out = append(out, Out{s, VBool{condF}})
	}
	for _, s := range t {
		s.assumeNE(p[0].Sub(p[1]))
		if s.dead {
			continue
		}
		same, diff := e.split(s, &Cond{K: cEq, L: p[2].Sub(p[3])})
		for _, q := range same {
			out = append(out, Out{q, VBool{condT}})
		}
		for _, q := range diff {
			e.perm(q, o.R, p[2], true)
			e.perm(q, o.R, p[3], true)
			if q.dead {
				continue
			}
			for _, z := range e.swap(q, o.R, p[2], p[3]) {
				out = append(out, Out{z, VBool{condT}})
			}
		}
	}
	return out
}

// order of elements is not tracked: either answer is possible
func (e *Engine) oracleNoOrd(st *State, o VOracle, p [4]Lin) []Out {
	f := st.clone()
	out := []Out{{f, VBool{condF}}}
	st.assumeNE(p[0].Sub(p[1]))
	if st.dead {
		return out
	}
	if st.eq(p[2], p[3]) {
		return append(out, Out{st, VBool{condT}})
	}
	// disabled swaps need no permission
	if !st.neq(p[2], p[3]) {
		same, diff := e.split(st, &Cond{K: cEq, L: p[2].Sub(p[3])})
		for _, q := range same {
			out = append(out, Out{q, VBool{condT}})
		}
		for _, q := range diff {
			e.perm(q, o.R, p[2], true)
			e.perm(q, o.R, p[3], true)
			if !q.dead {
				out = append(out, Out{q, VBool{condT}})
			}
		}
		return out
	}
	e.perm(st, o.R, p[2], true)
	e.perm(st, o.R, p[3], true)
	if !st.dead {
		out = append(out, Out{st, VBool{condT}})
	}
	return out
}

// exchange the elements at two different positions
func (e *Engine) swap(st *State, r RootID, a, b Lin) []*State {
	x := st.valueAt(r, a)
	y := st.valueAt(r, b)
	if st.dead {
		return nil
	}
	st.top().Env[swapKey] = VSym{x, types.Typ[types.UntypedBool]}
	var out []*State
	for _, s := range e.storeElem(st, r, a, y) {
		if v, ok := s.top().Env[swapKey].(VSym); ok {
			delete(s.top().Env, swapKey)
			out = append(out, e.storeElem(s, r, b, v.S)...)
		}
	}
	return out
}

func (e *Engine) pred(st *State, p VPred, args []Val) []Out {
	v, ok := e.intOf(st, args[0])
	if !ok {
		v = e.freshInt(st, e.its["int"])
	}
	n := e.roots[p.R].Len
	if !e.check(st, "bounds", st.le(K(0), v.L) && st.lt(v.L, n), "predicate called outside [0,n)") {
		st.assume(v.L.Neg())
		st.assume(v.L.Sub(n).AddK(1))
	}
	if st.dead {
		return nil
	}
	var out []Out
	if !st.coverKind(p.R, v.L, v.L.AddK(1), fFalse) {
		s := st.clone()
		s.addFact(p.R, &Fact{K: fTrue, Lo: v.L, Hi: n})
		out = append(out, Out{s, VBool{condT}})
	}
	if !st.coverKind(p.R, v.L, v.L.AddK(1), fTrue) {
		s := st.clone()
		s.addFact(p.R, &Fact{K: fFalse, Lo: K(0), Hi: v.L.AddK(1)})
		out = append(out, Out{s, VBool{condF}})
	}
	return out
}

// does closure f implement the lesswap contract over some slice?
func (e *Engine) conform(st *State, f VFunc) (o VOracle, ok bool) {
	var sl VSlice
	n := 0
	for _, b := range f.Binds {
		switch x := b.(type) {
		case VSlice:
			sl = x
			n++
		case VPtr:
			if ob := st.objs[x.O]; ob != nil {
				if s, ok := ob.Cells[x.Path].(VSlice); ok {
					sl = s
					n++
				}
			}
		}
	}
	if n != 1 || sl.R == 0 {
		return
	}
	ro := e.roots[sl.R]
	if !st.eq(sl.Off, K(0)) || !st.eq(sl.Len, ro.Len) {
		return
	}
	key := e.sortKeys(ro)[0]
	s := st.clone()
	it := e.its["int"]
	var p [4]Lin
	var args []Val
	for i := range p {
		p[i] = D(e.w.dim())
		s.assume(p[i].Neg())
		s.assume(p[i].Sub(ro.Len).AddK(1))
		args = append(args, VInt{p[i], it, false})
	}
	if s.dead || !s.feasible() {
		return VOracle{sl.R, key}, true // empty collection: nothing to call
	}
	s.arrs[sl.R] = &Arr{Facts: []*Fact{{K: fW, Lo: K(0), Hi: ro.Len}}}
	was := ro.Oracle
	ro.Oracle = true
	defer func() { ro.Oracle = was }()
	good := true
	note := func(okk bool, msg string) {
		e.check(st, "sorted", okk, "closure given as lesswap: "+msg)
		good = good && okk
	}
	// split up front: aliasing of the four positions
	states := []*State{s}
	for i := 0; i < 4; i++ {
		for k := 0; k < i; k++ {
			var next []*State
			for _, q := range states {
				t, fl := e.split(q, &Cond{K: cEq, L: p[i].Sub(p[k])})
				next = append(append(next, t...), fl...)
			}
			states = next
		}
	}
	for _, q := range states {
		x := e.w.key(q.valueAt(sl.R, p[0]), key)
		y := e.w.key(q.valueAt(sl.R, p[1]), key)
		u := q.valueAt(sl.R, p[2])
		v := q.valueAt(sl.R, p[3])
		var cases []*State
		if x == y {
			cases = []*State{q}
		} else {
			t, fl := e.split(q, &Cond{K: cLT, A: x, B: y})
			cases = append(t, fl...)
		}
		for _, c := range cases {
			less := c.ordLT(x, y)
			same := c.eq(p[2], p[3])
			for _, o := range e.inline(c.clone(), e.curIn, f, args) {
				b, isB := o.ret.(VBool)
				var rs []bool
				if isB {
					t, fl := e.split(o.st.clone(), b.C)
					if len(t) > 0 {
						rs = append(rs, true)
					}
					if len(fl) > 0 {
						rs = append(rs, false)
					}
				}
				if len(rs) != 1 {
					note(false, "result is not determined by the comparison")
					continue
				}
				note(rs[0] == less, "returns true exactly when element i orders before element k")
				nu, ok1 := o.st.lookup(sl.R, p[2])
				nv, ok2 := o.st.lookup(sl.R, p[3])
				if less && !same {
					note(ok1 && ok2 && nu == v && nv == u, "swaps r and s when less and r != s")
				} else {
					note(ok1 && ok2 && nu == u && nv == v, "leaves the collection alone otherwise")
				}
			}
		}
	}
	if !good {
		return
	}
	return VOracle{sl.R, key}, true
}

// ---------- sorter contracts ----------

type Summary struct {
	key     string
	fn      *ssa.Function
	worker  bool
	oracle  bool
	root    *Root
	sl      VSlice
	lo, hi  Lin // sorted range
	n       Lin // its length
	args    []Val
	dims    []Dim // canonical dims, in parameter order
	pre     *Poly
	num     bool // elements are numbers at every call
	obl     *oblBuf
	queued  bool
	done    bool
	runs    int
	async   bool
	notSort string
	keyName string
	names   []string
	sv      string
	svObj   int
	entry   bool
	hasGo   bool
	edges   []recEdge
	calls   int
}

type recEdge struct {
	from, to string
	strict   bool
	gor      bool
	pos      string
}

func (e *Engine) sortKeys(r *Root) []string {
	switch e.class(r.Elem) {
	case "slice":
		if e.memo["bylen"] {
			return []string{"len"}
		}
		return []string{"str"}
	case "string":
		if e.memo["bylen"] {
			return []string{"len"}
		}
	case "ptr":
		return []string{"addr"}
	}
	return []string{""}
}

// shape of a function that may be a sorter
func (e *Engine) sorterShape(fn *ssa.Function) (slice, lsw, lo, hi int, ok bool) {
	sig := fn.Signature
	slice, lsw, lo, hi = -1, -1, -1, -1
	if sig.Results().Len() != 0 || fn.Parent() != nil || sig.Recv() != nil || fn.Pkg != e.pkg {
		return
	}
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		switch u := t.Underlying().(type) {
		case *types.Slice:
			if slice >= 0 {
				return
			}
			slice = i
		case *types.Signature:
			if lsw >= 0 || !isLesswap(u) {
				return
			}
			lsw = i
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				if lo < 0 {
					lo = i
				} else if hi < 0 {
					hi = i
				}
			}
		case *types.Chan:
			return // takes part in a message exchange
		case *types.Interface:
			return
		}
	}
	if slice >= 0 && lsw >= 0 {
		return
	}
	if slice >= 0 {
		return slice, -1, -1, -1, true
	}
	if lsw >= 0 && lo >= 0 && hi >= 0 {
		return -1, lsw, lo, hi, true
	}
	if lsw >= 0 && lo >= 0 { // Sort(n, lsw)
		return -1, lsw, lo, -1, true
	}
	return
}

func (e *Engine) trySummary(st *State, in ssa.Instruction, f VFunc, args []Val, worker bool) ([]Out, bool) {
	fn := f.Fn
	si, li, lo, hi, ok := e.sorterShape(fn)
	if !ok {
		return nil, false
	}
	key := fn.Name()
	if worker {
		key = "go " + key
	}
	var names []string
	for i, a := range args {
		switch x := a.(type) {
		case VSlice:
			if i != si {
				return nil, false
			}
			if x.R == 0 { // nil slice: empty
				return nil, false
			}
			key += "," + e.class(x.Elem)
			if e.class(e.roots[x.R].Elem) != e.class(x.Elem) {
				key += "/" + e.class(e.roots[x.R].Elem)
			}
		case VOracle:
			if i != li {
				return nil, false
			}
			key += ",lsw" + x.Key
		case VInt:
			key += ",int"
		case VNil:
			key += ",nil"
		case VPtr:
			o := st.objs[x.O]
			if o == nil || x.Path != "" {
				return nil, false
			}
			key += ",sv"
		case VBool:
			if x.C.K == cTrue {
				key += ",true"
			} else if x.C.K == cFalse {
				key += ",false"
			} else {
				return nil, false
			}
		default:
			return nil, false
		}
	}
	_ = names
	if e.shallow {
		e.dispatch(st, fn, args, si, li, lo, hi)
		return nil, true
	}
	if why := e.memo2(key); why {
		if e.recursive(fn) {
			// no contract and not inlinable
			e.giveUp("recursive function " + fn.Name() + " has no contract")
		}
		return nil, false
	}
	s := e.sums[key]
	if s == nil {
		s = e.newSummary(key, fn, args, si, li, lo, hi, worker, st)
		e.sums[key] = s
	}
	return e.applySummary(st, in, s, args, si, li, lo, hi), true
}

func (e *Engine) memo2(key string) bool { return e.memo["notsort "+key] }

func (e *Engine) recursive(fn *ssa.Function) bool { return e.reaches(fn, fn) }

// does a (transitively) call or start b?
func (e *Engine) reaches(a, b *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var dfs func(f *ssa.Function) bool
	dfs = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && g.Pkg == e.pkg || ok && g.Parent() != nil {
						if g == b || dfs(g) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return dfs(a)
}

// can a call of a, without starting goroutines, lead to a call of b?
func (e *Engine) reachesSync(a, b *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var dfs func(f *ssa.Function) bool
	dfs = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					g := c.Call.StaticCallee()
					if g != nil && (g == b || dfs(g)) {
						return true
					}
				}
			}
		}
		return false
	}
	return dfs(a)
}

func (e *Engine) newSummary(key string, fn *ssa.Function, args []Val, si, li, lo, hi int, worker bool, st *State) *Summary {
	s := &Summary{key: key, fn: fn, worker: worker, num: true}
	it := e.its["int"]
	cap_ := e.w.dim()
	for i, a := range args {
		p := fn.Params[i]
		switch x := a.(type) {
		case VSlice:
			d := e.w.dim()
			s.dims = append(s.dims, d)
			s.names = append(s.names, "len("+p.Name()+")")
			s.root = e.newRoot(p.Name()+" of "+fn.Name(), D(d), e.roots[x.R].Elem)
			s.root.Float = isFloat(x.Elem)
			s.sl = VSlice{s.root.ID, K(0), D(d), D(cap_), x.Elem}
			s.args = append(s.args, s.sl)
			s.lo, s.hi, s.n = K(0), D(d), D(d)
		case VOracle:
			n := e.w.dim()
			s.root = e.newRoot("collection of "+fn.Name(), D(n), e.roots[x.R].Elem)
			e.setOracle(s.root)
			s.oracle = true
			s.args = append(s.args, VOracle{s.root.ID, x.Key})
			s.keyName = x.Key
		case VInt:
			d := e.w.dim()
			s.dims = append(s.dims, d)
			s.names = append(s.names, p.Name())
			t := x.T
			if t == nil {
				t = it
			}
			s.args = append(s.args, VInt{D(d), t, false})
		case VPtr:
			id := e.w.id()
			s.svObj = id
			s.args = append(s.args, VPtr{id, ""})
		default:
			s.args = append(s.args, a)
		}
	}
	if li >= 0 {
		if hi < 0 { // Sort(n, lsw)
			n := s.args[lo].(VInt).L
			s.root.Len = n
			s.lo, s.hi, s.n = K(0), n, n
		} else {
			l, h := s.args[lo].(VInt).L, s.args[hi].(VInt).L
			s.lo, s.hi = l, h.AddK(1)
			s.n = h.Sub(l).AddK(1)
		}
	} else {
		s.keyName = e.sortKeys(s.root)[0]
	}
	_ = cap_
	s.hasGo = s.svObj != 0
	return s
}

// numeric facts at a call, over the canonical names
func (e *Engine) callPre(st *State, s *Summary, args []Val) *Poly {
	p := st.poly
	j := 0
	for _, a := range args {
		switch x := a.(type) {
		case VSlice:
			d := s.dims[j]
			j++
			p = p.add(D(d).Sub(x.Len)).add(x.Len.Sub(D(d)))
		case VInt:
			x = st.normInt(x)
			p = st.polyWith(p, x)
			d := s.dims[j]
			j++
			p = p.add(D(d).Sub(x.L)).add(x.L.Sub(D(d)))
		}
	}
	keep := map[Dim]bool{dimM: true, dimM64: true}
	for _, d := range s.dims {
		keep[d] = true
	}
	return newPoly(reduceCons(p.project(func(d Dim) bool { return keep[d] }).cs))
}

func (s *State) polyWith(p *Poly, v VInt) *Poly {
	// constraints added by normInt since p was taken
	for _, c := range s.poly.cs {
		p = p.add(c)
	}
	return p
}

func (e *Engine) applySummary(st *State, in ssa.Instruction, s *Summary, args []Val, si, li, lo, hi int) []Out {
	var r RootID
	var a, b Lin // range
	svLoc := ""
	for _, x := range args {
		if p, ok := x.(VPtr); ok {
			svLoc = e.ctrOfObj(st, p.O)
		}
	}
	if si >= 0 {
		sl := args[si].(VSlice)
		r, a, b = sl.R, sl.Off, sl.Off.Add(sl.Len)
	} else {
		r = args[li].(VOracle).R
		l, _ := e.intOf(st, args[lo])
		if hi < 0 {
			a, b = K(0), l.L
			if !e.check(st, "bounds", st.eq(l.L, e.roots[r].Len), "sorts the whole collection") {
				return nil
			}
		} else {
			h, _ := e.intOf(st, args[hi])
			a, b = l.L, h.L.AddK(1)
			n := e.roots[r].Len
			ok := st.le(b, a) || st.le(K(0), a) && st.le(b, n)
			e.check(st, "bounds", ok, "range lies within the collection")
		}
	}
	if st.dead {
		return nil
	}
	ro := e.roots[r]
	// precondition
	p := e.callPre(st, s, args)
	ch := false
	if s.pre == nil {
		s.pre = p
		ch = true
	} else {
		fails := false
		for _, c := range s.pre.cs {
			if !p.entails(c) {
				fails = true
			}
		}
		if fails {
			s.calls++
			keep := map[Dim]bool{dimM: true, dimM64: true}
			var pd []phiDim
			for _, d := range s.dims {
				keep[d] = true
				pd = append(pd, phiDim{d: d})
			}
			if s.calls > 6 {
				var cs []Lin
				for _, c := range s.pre.cs {
					if p.entails(c) {
						cs = append(cs, c)
					}
				}
				s.pre = newPoly(cs)
			} else {
				s.pre = joinPoly(s.pre, p, keep, pd)
			}
			ch = true
		}
	}
	if s.num && isFloat(ro.Elem) && !st.coverKind(r, a, b, fNum) {
		s.num = false
		ch = true
	}
	if ch && e.debug {
		_, pos := e.here(st)
		fmt.Println("PRE", s.key, pos, "call:", p, "now:", s.pre)
	}
	if ch && !s.queued && !s.entry {
		s.queued = true
		e.queue = append(e.queue, s.key)
	}
	// recursion
	if e.cur != nil {
		if e.reaches(s.fn, e.cur.fn) {
			sz := b.Sub(a)
			gor := s.worker
			strict := st.lt(sz, e.cur.n)
			_, pos := e.here(st)
			e.cur.edges = append(e.cur.edges, recEdge{e.cur.key, s.key, strict, gor, pos})
			if !gor && e.reachesSync(s.fn, e.cur.fn) {
				e.check(st, "depth", st.le(sz.Scale(2), e.cur.n), fmt.Sprintf("recursive call of %s works on at most half of the range", s.fn.Name()))
			}
			if !strict {
				e.check(st, "termination", st.le(sz, e.cur.n), fmt.Sprintf("recursive call of %s works on no larger a range", s.fn.Name()))
			}
		}
	}
	// access
	if !ro.Local {
		ok := st.le(b, a) || st.coverKind(r, a, b, fW)
		e.touchRange(st, r, a, b)
		e.check(st, "race", ok, fmt.Sprintf("range given to %s is not used by another goroutine", s.fn.Name()))
		if st.dead {
			return nil
		}
	}
	if s.worker {
		e.forkWorker(st, s, svLoc, r, a, b)
	}
	if st.dead {
		return nil
	}
	if !st.le(b, a) {
		e.sortEffect(st, r, a, b, s)
	}
	if s.worker || s.asyncPossible() && svLoc != "" {
		if c := st.ctr[svLoc]; c != nil {
			if s.worker || s.async || s.hasGo {
				c.Kids = 1
				st.revoke(r, a, b)
			}
		}
	}
	return []Out{{st, VUnk{"no result"}}}
}

func (s *Summary) asyncPossible() bool { return s.hasGo }

func (e *Engine) sortEffect(st *State, r RootID, a, b Lin, s *Summary) {
	key := s.keyName
	st.sortRange(r, a, b, key)
}

// analyse a contract's function under its current precondition
func (e *Engine) runSummary(s *Summary) {
	s.runs++
	s.edges = nil
	e.cur = s
	e.obl.push()
	st := e.baseState()
	st.poly = newPoly(append(append([]Lin(nil), st.poly.cs...), s.pre.cs...))
	st.poly = st.poly.add(s.n.Neg().AddK(-1 << 30)) // names only
	env := map[ssa.Value]Val{}
	for i, p := range s.fn.Params {
		env[p] = s.args[i]
		if v, ok := s.args[i].(VInt); ok {
			st.poly = st.poly.add(v.T.lo.Sub(v.L)).add(v.L.Sub(v.T.hi))
		}
	}
	if s.sl.R != 0 {
		st.poly = st.poly.add(s.sl.Len.Neg()).add(s.sl.Len.Sub(s.sl.Cap)).add(s.sl.Cap.Sub(D(dimM)))
	} else {
		n := s.root.Len
		st.poly = st.poly.add(n.Neg()).add(n.Sub(D(dimM)))
		if s.hi.Sub(s.lo).IsConst() == false {
			// a non-empty range lies within the collection
			if st.le(s.lo, s.hi.AddK(-1)) {
				st.poly = st.poly.add(s.lo.Neg()).add(s.hi.Sub(n))
			}
		}
	}
	a := st.arr(s.root.ID)
	add := func(f *Fact) { a.Facts = append(a.Facts, f) }
	add(&Fact{K: fW, Lo: s.lo, Hi: s.hi})
	if !e.noOrd {
		add(&Fact{K: fSorted, Lo: s.lo, Hi: s.hi, Key: s.keyName, Holes: []Hole{{s.lo, s.hi, false}}})
	}
	if isFloat(s.root.Elem) && s.num {
		add(&Fact{K: fNum, Lo: s.lo, Hi: s.hi})
	}
	a.Bags = append(a.Bags, &Bag{Lo: s.lo, Hi: s.hi, Root: true, D: map[Sym]int64{}})
	loc := ""
	if s.svObj != 0 {
		loc = e.externCtr(st, s)
	}
	st.frames = []*Frame{{Fn: s.fn, Env: env}}
	outs := e.runBody(st)
	e.curIn = nil
	for _, o := range outs {
		e.checkReturn(o.st, s, loc)
	}
	b := e.obl.st[len(e.obl.st)-1]
	e.obl.st = e.obl.st[:len(e.obl.st)-1]
	s.obl = b
	s.done = true
	e.cur = nil
}

// postcondition of a sorter
func (e *Engine) checkReturn(st *State, s *Summary, loc string) {
	st.prepRet()
	if !st.feasible() || st.countConflict() {
		return
	}
	e.curIn = lastInstr(s.fn)
	if e.noOrd {
		e.checkProtocolReturn(st, s.fn.Name(), s.worker, loc, s.root.ID, s.lo, s.hi)
		return
	}
	f := &Fact{K: fSorted, Lo: s.lo, Hi: s.hi, Key: s.keyName}
	r := s.root.ID
	ok := st.holds(r, f)
	if !ok && isFloat(s.root.Elem) && !s.num {
		ok = e.nanSorted(st, r, s.lo, s.hi)
	}
	if !ok && e.debug {
		fmt.Println("UNSORTED", s.fn.Name(), st)
	}
	e.check(st, "sorted", ok, "range is sorted on return from "+s.fn.Name())
	if !ok {
		s.notSort = "sorted"
	}
	okp := true
	for _, b := range st.arr(r).Bags {
		if b.Root && (b.Broken || len(b.D) != 0) {
			okp = false
		}
	}
	e.check(st, "perm", okp, "range holds the same elements on return from "+s.fn.Name())
	if !okp {
		s.notSort = "perm"
	}
	e.checkProtocolReturn(st, s.fn.Name(), s.worker, loc, r, s.lo, s.hi)
}

// numbers sorted, NaNs at the end NaNoption selects
func (e *Engine) nanSorted(st *State, r RootID, lo, hi Lin) bool {
	for _, f := range st.arr(r).Facts {
		if f.K != fSorted || f.Key != "" || len(f.Holes) != 0 {
			continue
		}
		switch {
		case e.nan > 0 && st.le(f.Lo, lo):
			for _, h := range []Lin{f.Hi} {
				if st.coverKind(r, lo, h, fNum) && st.coverKind(r, h, hi, fNaN) {
					return true
				}
			}
		case e.nan < 0 && st.le(hi, f.Hi):
			for _, l := range []Lin{f.Lo} {
				if st.coverKind(r, lo, l, fNaN) && st.coverKind(r, l, hi, fNum) {
					return true
				}
			}
		}
	}
	// short or all-NaN ranges
	for _, f := range append([]*Fact{{Lo: lo, Hi: hi}}, st.arr(r).Facts...) {
		for _, p := range []Lin{f.Lo, f.Hi, f.Lo.AddK(1), f.Hi.AddK(-1)} {
			if !st.le(lo, p) || !st.le(p, hi) {
				continue
			}
			if e.nan > 0 && st.coverKind(r, p, hi, fNaN) && st.coverKind(r, lo, p, fNum) && st.holds(r, &Fact{K: fSorted, Lo: lo, Hi: p}) {
				return true
			}
			if e.nan < 0 && st.coverKind(r, lo, p, fNaN) && st.coverKind(r, p, hi, fNum) && st.holds(r, &Fact{K: fSorted, Lo: p, Hi: hi}) {
				return true
			}
		}
	}
	return false
}

func lastInstr(fn *ssa.Function) ssa.Instruction {
	for i := len(fn.Blocks) - 1; i >= 0; i-- {
		b := fn.Blocks[i]
		if n := len(b.Instrs); n > 0 {
			if r, ok := b.Instrs[n-1].(*ssa.Return); ok {
				return r
			}
		}
	}
	return nil
}

// final saturation before checking a postcondition
func (s *State) prepRet() {
	for r, a := range s.arrs {
		var syms []Sym
		seen := map[Sym]bool{}
		for _, f := range a.Facts {
			if f.K == fCmp && !seen[f.S] {
				seen[f.S] = true
				syms = append(syms, f.S)
			}
		}
		sort.Slice(syms, func(i, k int) bool { return syms[i] < syms[k] })
		s.promote(r, syms)
		s.saturate(r)
	}
}

func (e *Engine) setOracle(r *Root) {
	r.Oracle = true
	e.w.orc[r.ID] = true
	for _, t := range r.Len.T {
		e.w.lens = append(e.w.lens, t.D)
	}
}
