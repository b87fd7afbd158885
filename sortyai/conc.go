package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- goroutines, channels, the goroutine counter ----------

type footprint struct{}

func (e *Engine) touch(st *State, r RootID, pos Lin, write bool) {}
func (e *Engine) touchRange(st *State, r RootID, a, b Lin)       {}

func ctrKey(o int, path string) string { return fmt.Sprintf("%d%s", o, path) }

func (s *State) ctrOf(p VPtr) string {
	k := ctrKey(p.O, p.Path)
	if _, ok := s.ctr[k]; ok {
		return k
	}
	return ""
}

// counter kept in object o, if any; recognises a fresh {count, channel} structure
func (e *Engine) ctrOfObj(st *State, o int) string {
	pre := fmt.Sprintf("%d.", o)
	for k := range st.ctr {
		if strings.HasPrefix(k, pre) {
			return k
		}
	}
	ob := st.objs[o]
	if ob == nil || !ob.Fresh {
		return ""
	}
	ch := ""
	cnt := ""
	for _, k := range sortedKeys(ob.Cells) {
		switch v := ob.Cells[k].(type) {
		case VChan:
			ch = v.ID
		case VInt:
			if _, ok := e.constInt(v); ok {
				cnt = k
			}
		}
	}
	if ch == "" || cnt == "" {
		return ""
	}
	n, _ := e.constInt(ob.Cells[cnt].(VInt))
	if n < 1 || n > 64 {
		return ""
	}
	c := &CtrState{Tok: int(n), Init: int(n), ChanID: ch, Created: true}
	for r, a := range st.arrs {
		for _, f := range a.Facts {
			if f.K == fW {
				c.Own = append(c.Own, Tag{r, f.Lo, f.Hi})
			}
		}
	}
	sort.Slice(c.Own, func(i, j int) bool { return c.Own[i].R < c.Own[j].R })
	k := ctrKey(o, cnt)
	st.ctr[k] = c
	// the quota must allow this many
	ok := n <= 1 || n == 2 && st.guard
	for d := range st.mg {
		if st.le(K(n), D(d)) {
			ok = true
		}
	}
	e.check(st, "quota", ok, fmt.Sprintf("%d goroutines are started only when MaxGor allows them", n))
	nb := *ob
	nb.Shared = true
	st.objs[o] = &nb
	return k
}

func (e *Engine) anyCtr(st *State) string {
	for k := range st.ctr {
		return k
	}
	var ids []int
	for id := range st.objs {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		if k := e.ctrOfObj(st, id); k != "" {
			return k
		}
	}
	return ""
}

// counter structure given by the caller of a summarised function
func (e *Engine) externCtr(st *State, s *Summary) string {
	var t types.Type
	for i, a := range s.args {
		if _, ok := a.(VPtr); ok {
			t = s.fn.Params[i].Type().Underlying().(*types.Pointer).Elem()
		}
	}
	o := &Obj{T: t, Cells: map[string]Val{}, Extern: true, Shared: true}
	loc := ""
	var walk func(t types.Type, path string)
	walk = func(t types.Type, path string) {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				walk(u.Field(i).Type(), path+"."+u.Field(i).Name())
			}
		case *types.Chan:
			o.Cells[path] = VChan{"ext"}
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 && loc == "" {
				loc = ctrKey(s.svObj, path)
				o.Cells[path] = e.freshInt(st, e.itype(t))
			}
		}
	}
	walk(t, "")
	st.objs[s.svObj] = o
	if loc == "" {
		return ""
	}
	st.ctr[loc] = &CtrState{Tok: 1, ChanID: "ext", Init: 1}
	return loc
}

func (e *Engine) atomicLoadPlain(st *State, p VPtr, t types.Type) Val {
	e.check(st, "race", false, "plain read of the goroutine counter")
	return e.unknownOf(st, t)
}

func (e *Engine) atomic(st *State, in ssa.Instruction, fn *ssa.Function, args []Val, rt types.Type) []Out {
	name := fn.Name()
	op := ""
	for _, o := range []string{"CompareAndSwap", "Add", "Load", "Store", "Swap"} {
		if strings.HasPrefix(name, o) {
			op = o
			break
		}
	}
	// plain loads of MaxGor
	if g, ok := args[0].(VGlob); ok {
		if op == "Load" {
			return e.loadGlobal(st, g, rt)
		}
		e.check(st, "global", false, "atomic write to package variable "+g.G.Name())
		return []Out{{st, e.unknownOf(st, rt)}}
	}
	p, ok := args[0].(VPtr)
	if !ok {
		e.giveUp("atomic operation on an unknown location")
	}
	k := st.ctrOf(p)
	if k == "" {
		// methods of atomic.T keep the value in a field
		for _, c := range []string{p.Path + ".v"} {
			if st.ctrOf(VPtr{p.O, c}) != "" {
				p.Path = c
				k = ctrKey(p.O, c)
			}
		}
	}
	if k == "" {
		k = e.ctrOfObj(st, p.O)
		if k != "" && k != ctrKey(p.O, p.Path) && k != ctrKey(p.O, p.Path+".v") {
			k = ""
		}
	}
	if k == "" {
		o := st.objs[p.O]
		if o != nil && !o.Extern && !o.Shared { // not shared: plain semantics
			return e.atomicLocal(st, op, p, args, rt)
		}
		e.giveUp("atomic operation outside the goroutine counter")
	}
	c := st.ctr[k]
	tok := func() string { return fmt.Sprintf("tokens %d", c.Tok) }
	_ = tok
	var it *itype
	switch op {
	case "Load":
		v := e.unknownOf(st, rt)
		if x, ok := v.(VInt); ok {
			e.ctrValue(st, c, x.L, c.Tok)
		}
		return []Out{{st, v}}
	case "Add":
		d, ok := args[1].(VInt)
		if !ok {
			e.giveUp("unknown counter increment")
		}
		it = e.itype(rt)
		dv, ok := st.constOf(d.L)
		if !ok {
			e.giveUp("unknown counter increment")
		}
		if dv > 1<<20 || dv < -(1<<20) {
			e.giveUp("counter increment")
		}
		if dv > 0 {
			e.check(st, "quota", false, "counter is increased without checking the quota in the same atomic step")
		}
		n := *c
		n.Tok += int(dv)
		e.check(st, "protocol", n.Tok >= 0, "counter is decreased only by goroutines that hold a count")
		v := e.freshInt(st, it)
		if n.Tok < 0 {
			n.Tok = 0
		}
		e.ctrValue(st, &n, v.L, n.Tok)
		if n.Tok == 0 {
			dd := v.L.T[0].D
			n.Dec = &dd
			st.giveBack(e, &n)
		}
		st.ctr[k] = &n
		return []Out{{st, v}}
	case "CompareAndSwap":
		o, ok1 := e.intOf(st, args[1])
		w, ok2 := e.intOf(st, args[2])
		if !ok1 || !ok2 {
			e.giveUp("compare-and-swap of unknown values")
		}
		f := st.clone()
		f.cas++
		var outs []Out
		// success: value was o
		d, isC := st.constOf(w.L.Sub(o.L))
		if !isC {
			e.check(st, "protocol", false, "counter changes by a known amount")
			return []Out{{st, VBool{condT}}, {f, VBool{condF}}}
		}
		if d > 0 {
			okq := false
			for m := range st.mg {
				if st.le(w.L, D(m)) {
					okq = true
				}
			}
			e.check(st, "quota", okq, "counter grows only to values MaxGor allows")
		}
		n := *c
		e.ctrValue(st, &n, o.L, n.Tok)
		n.Tok += int(d)
		e.check(st, "protocol", n.Tok >= 0, "counter is decreased only by goroutines that hold a count")
		if n.Tok == 0 && d < 0 {
			if len(w.L.T) == 1 && w.L.K == 0 && w.L.T[0].C == 1 {
				dd := w.L.T[0].D
				n.Dec = &dd
			} else {
				x := e.w.dim()
				st.assumeEq(D(x).Sub(w.L))
				n.Dec = &x
			}
			st.giveBack(e, &n)
		}
		st.ctr[k] = &n
		if !st.dead {
			outs = append(outs, Out{st, VBool{condT}})
		}
		outs = append(outs, Out{f, VBool{condF}})
		return outs
	case "Store", "Swap":
		e.check(st, "protocol", false, "counter is overwritten")
		return []Out{{st, e.unknownOf(st, rt)}}
	}
	e.giveUp("atomic " + name)
	return nil
}

// what is known about a counter value when this goroutine holds tok of it
func (e *Engine) ctrValue(st *State, c *CtrState, l Lin, tok int) {
	st.assume(K(int64(tok)).Sub(l))
	if c.Created && c.Kids == 0 && len(st.kids) == 0 {
		st.assumeEq(l.AddK(int64(-tok)))
	}
}

func (e *Engine) atomicLocal(st *State, op string, p VPtr, args []Val, rt types.Type) []Out {
	o := st.objs[p.O]
	switch op {
	case "Load":
		return []Out{{st, e.loadObj(st, o, p.Path, rt)}}
	case "Store":
		var r []Out
		for _, s := range e.store(st, p, args[1], rt) {
			r = append(r, Out{s, VUnk{}})
		}
		return r
	}
	e.giveUp("atomic operation on a private location")
	return nil
}

// ---------- channels ----------

func (e *Engine) makeChan(st *State, x *ssa.MakeChan) []*State {
	e.seqGuard(st, "makes a channel")
	if st.dead {
		return nil
	}
	e.setv(st, x, VChan{fmt.Sprintf("%s%d", e.framePath(st), x.Pos())})
	return []*State{st}
}

// goroutines and channels only when MaxGor > 1 and the input is long
func (e *Engine) seqGuard(st *State, what string) {
	for _, c := range st.ctr {
		if !c.Created { // concurrency was decided by the caller
			return
		}
	}
	ok := st.guard
	for d := range st.mg {
		if st.le(K(2), D(d)) {
			ok = true
		}
	}
	e.check(st, "seq", ok || e.inGo > 0, what+" only when MaxGor > 1")
	if e.cur != nil && e.cur.root != nil {
		if c := e.minGoLen(e.cur.root); c > 0 {
			e.check(st, "seq", st.le(K(c), e.cur.n) || e.inGo > 0, what+" only for an input longer than the recursion limit")
		}
	}
}

func (e *Engine) send(st *State, ch Val, v Val) []*State {
	c, ok := ch.(VChan)
	if !ok {
		if _, n := ch.(VNil); n {
			e.check(st, "protocol", false, "send on a nil channel blocks forever")
			return nil
		}
		e.giveUp("send on an unknown channel")
	}
	if e.inGo > 0 { // helper: its only message gives everything back
		if i, ok := v.(VInt); ok {
			v = st.normInt(i)
		}
		st.sent = append(append([]string(nil), st.sent...), c.ID)
		st.sentV = append(append([]Val(nil), st.sentV...), v)
		e.check(st, "protocol", len(st.sent) == 1, "helper goroutine sends exactly one message")
		st.snapshotSend()
		return []*State{st}
	}
	// end signal
	ok = false
	for _, k := range st.ctr {
		if k.ChanID == c.ID && k.Tok == 0 && k.Dec != nil && !k.Created {
			ok = st.eq(D(*k.Dec), K(0))
		}
	}
	e.check(st, "protocol", ok && st.lic == 0, "end signal is sent once, by the goroutine that brought the counter to zero")
	st.lic++
	return []*State{st}
}

// a helper must not touch the data after its message
func (s *State) snapshotSend() {
	if s.kidOut != nil {
		return
	}
	c := s.clone()
	s.kidOut = c
	for _, a := range s.arrs {
		var fs []*Fact
		for _, f := range a.Facts {
			if f.K != fW && f.K != fR {
				fs = append(fs, f)
			}
		}
		a.Facts = fs
	}
}

func (e *Engine) recv(st *State, ch Val, t types.Type) []Out {
	c, ok := ch.(VChan)
	if !ok {
		e.giveUp("receive from an unknown channel")
	}
	if _, isT := t.Underlying().(*types.Tuple); isT {
		e.giveUp("receive with ok")
	}
	if e.inGo > 0 {
		e.check(st, "protocol", false, "helper goroutine waits for a message")
		return nil
	}
	for i, k := range st.kids {
		if k.Chan == c.ID {
			if len(st.kids) > 1 {
				n := 0
				for _, q := range st.kids {
					if q.Chan == c.ID {
						n++
					}
				}
				if n > 1 {
					e.giveUp("several helpers on one channel")
				}
			}
			st.kids = append(append([]*Kid(nil), st.kids[:i]...), st.kids[i+1:]...)
			var outs []Out
			for j, o := range k.Outs {
				s := st
				if j < len(k.Outs)-1 {
					s = st.clone()
				}
				e.importKid(s, k, o)
				s.msg = j + 1
				if !s.dead && s.feasible() {
					outs = append(outs, Out{s, o.Val})
				}
			}
			return outs
		}
	}
	for loc, k := range st.ctr {
		if k.ChanID != c.ID {
			continue
		}
		okp := k.Tok == 0 && k.Dec != nil && !k.Recvd
		if okp {
			okp = st.neq(D(*k.Dec), K(0))
		}
		if !e.check(st, "protocol", okp && k.Created, "waits for the end signal only after giving up its count while others still run") {
			return nil
		}
		n := *k
		n.Recvd = true
		n.Joined = true
		st.ctr[loc] = &n
		st.restore(n.Own)
		return []Out{{st, e.unknownOf(st, t)}}
	}
	e.check(st, "protocol", false, "receive that nobody will serve")
	return nil
}

func (s *State) restore(own []Tag) {
	for _, t := range own {
		s.addFact(t.R, &Fact{K: fW, Lo: t.Lo, Hi: t.Hi})
	}
}

// another goroutine takes over [lo,hi)
func (s *State) revoke(r RootID, lo, hi Lin) {
	a := s.arr(r)
	var fs []*Fact
	for _, f := range a.Facts {
		if f.K != fW && f.K != fR || s.disjoint(f.Lo, f.Hi, lo, hi) {
			fs = append(fs, f)
			continue
		}
		if s.le(f.Lo, lo) {
			g := *f
			g.Hi = lo
			if !s.le(g.Hi, g.Lo) {
				fs = append(fs, &g)
			}
		}
		if s.le(hi, f.Hi) {
			g := *f
			g.Lo = hi
			if !s.le(g.Hi, g.Lo) {
				fs = append(fs, &g)
			}
		}
	}
	a.Facts = fs
}

// a worker that gave up its last count no longer owns its range: the goroutine that waits for
// the counter may already use it
func (s *State) giveBack(e *Engine, c *CtrState) {
	if c.Created {
		return
	}
	for r, a := range s.arrs {
		if e.roots[r].Local {
			continue
		}
		var fs []*Fact
		for _, f := range a.Facts {
			if f.K != fW && f.K != fR {
				fs = append(fs, f)
			}
		}
		if len(fs) < len(a.Facts) {
			s.arr(r).Facts = fs
		}
	}
}

// contents of [lo,hi) are rearranged by another goroutine
func (s *State) permuteRange(r RootID, lo, hi Lin, keepPts []Lin) {
	s.sortRangeX(r, lo, hi, "", false, keepPts)
}

// ---------- go statements ----------

func (e *Engine) execGo(st *State, x *ssa.Go) []*State {
	c := &x.Call
	var args []Val
	for _, a := range c.Args {
		if e.itype(a.Type()) != nil {
			e.intArg(st, a)
		}
		args = append(args, e.val(st, a))
	}
	f, ok := e.val(st, c.Value).(VFunc)
	if !ok || c.IsInvoke() {
		e.giveUp("go statement with unknown function")
	}
	e.seqGuard(st, "starts a goroutine")
	if st.dead {
		return nil
	}
	if e.inGo > 0 {
		e.check(st, "protocol", false, "helper goroutine starts another goroutine")
		return []*State{st}
	}
	if len(f.Binds) > 0 && len(args) == len(f.Fn.Params) {
		if !e.stableCaptures(x, f.Fn) {
			e.check(st, "race", false, "variable captured by the goroutine changes while it may read it")
			if st.dead {
				return nil
			}
		}
	}
	f0, args0 := f, args
	if g, as, whole := e.goPrefix(st, f, args); g.Fn != nil {
		args = as
		if whole { // go func() { work(...) }() is go work(...)
			f = g
			f0, args0 = f, args
		}
	}
	// worker: gets a pointer to the counter
	for _, a := range args {
		if p, ok := a.(VPtr); ok && e.ctrOfObj(st, p.O) != "" {
			outs, ok := e.trySummary(st, x, f, args, true)
			if !ok {
				e.giveUp("worker goroutine without a contract: " + f.Fn.Name())
			}
			var r []*State
			for _, o := range outs {
				r = append(r, o.st)
			}
			return r
		}
	}
	return e.forkHelper(st, x, f0, args0, args)
}

// every variable the closure reads keeps its value from the go statement on
func (e *Engine) stableCaptures(x *ssa.Go, fn *ssa.Function) bool {
	mc, ok := x.Call.Value.(*ssa.MakeClosure)
	if !ok {
		return len(fn.FreeVars) == 0
	}
	for i, fv := range fn.FreeVars {
		al, ok := mc.Bindings[i].(*ssa.Alloc)
		if !ok {
			return false
		}
		load := false
		for _, r := range *fv.Referrers() {
			switch r := r.(type) {
			case *ssa.UnOp:
				load = true
			case *ssa.Store:
				if r.Addr == fv {
					return false
				}
			case *ssa.MakeClosure:
				return false
			}
		}
		if !load {
			continue
		}
		stores := map[ssa.Instruction]bool{}
		for _, r := range *al.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == al {
					stores[r] = true
				} else {
					return false
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				g := r.Fn.(*ssa.Function)
				for j, b := range r.Bindings {
					if b != al {
						continue
					}
					for _, q := range *g.FreeVars[j].Referrers() {
						if _, ok := q.(*ssa.UnOp); !ok {
							return false
						}
					}
				}
			default:
				return false
			}
		}
		// search from the go statement
		seen := map[*ssa.BasicBlock]bool{}
		var walk func(is []ssa.Instruction, b *ssa.BasicBlock) bool
		walk = func(is []ssa.Instruction, b *ssa.BasicBlock) bool {
			for _, in := range is {
				if in == al {
					return true
				}
				if stores[in] {
					return false
				}
			}
			for _, n := range b.Succs {
				if !seen[n] {
					seen[n] = true
					if !walk(n.Instrs, n) {
						return false
					}
				}
			}
			return true
		}
		b := x.Block()
		for i, in := range b.Instrs {
			if in == x {
				if !walk(b.Instrs[i+1:], b) {
					return false
				}
			}
		}
	}
	return true
}

// what the goroutine computes before its first call: the function it calls and
// the arguments; whole when it does nothing else
func (e *Engine) goPrefix(st *State, f VFunc, args []Val) (VFunc, []Val, bool) {
	if len(f.Fn.Blocks) == 0 || f.Fn.Parent() == nil {
		return VFunc{}, nil, false
	}
	k := st.clone()
	env := map[ssa.Value]Val{}
	for i, p := range f.Fn.Params {
		env[p] = args[i]
	}
	for i, p := range f.Fn.FreeVars {
		env[p] = f.Binds[i]
	}
	k.frames = append(append([]*Frame(nil), k.frames...), &Frame{Fn: f.Fn, Env: env})
	ins := f.Fn.Blocks[0].Instrs
	in0 := e.curIn
	defer func() { e.curIn = in0 }()
	for i, in := range ins {
		switch x := in.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.UnOp, *ssa.BinOp, *ssa.FieldAddr, *ssa.Slice, *ssa.Convert, *ssa.ChangeType, *ssa.Alloc, *ssa.MakeClosure:
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW {
				return VFunc{}, nil, false
			}
		case *ssa.Store:
			if _, ok := x.Addr.(*ssa.Alloc); !ok {
				return VFunc{}, nil, false
			}
		case *ssa.Call:
			if _, ok := x.Call.Value.(*ssa.Builtin); ok {
				break
			}
			if x.Call.IsInvoke() {
				return VFunc{}, nil, false
			}
			g, ok := e.val(k, x.Call.Value).(VFunc)
			if !ok {
				return VFunc{}, nil, false
			}
			var as []Val
			for _, a := range x.Call.Args {
				if e.itype(a.Type()) != nil {
					e.intArg(k, a)
				}
				as = append(as, e.val(k, a))
			}
			whole := true
			for _, r := range ins[i+1:] {
				switch r.(type) {
				case *ssa.Return, *ssa.RunDefers, *ssa.DebugRef:
				default:
					whole = false
				}
			}
			// numbers get their meaning in the new goroutine's starter
			st.poly = k.poly
			st.ne = k.ne
			return g, as, whole
		default:
			return VFunc{}, nil, false
		}
		e.curIn = in
		ss := e.execInstr(k, in)
		if len(ss) != 1 {
			return VFunc{}, nil, false
		}
		k = ss[0]
	}
	return VFunc{}, nil, false
}

func (e *Engine) forkWorker(st *State, s *Summary, loc string, r RootID, a, b Lin) {
	c := st.ctr[loc]
	if c == nil {
		e.check(st, "protocol", false, "worker goroutine is counted")
		return
	}
	n := *c
	e.check(st, "protocol", n.Tok >= 2, "a count is held for the new goroutine besides the one of this goroutine")
	n.Tok--
	if n.Tok < 0 {
		n.Tok = 0
	}
	n.Kids = 1
	st.ctr[loc] = &n
	if c := e.minGoLen(e.roots[r]); c > 0 {
		e.check(st, "seq", st.le(K(c), b.Sub(a)), "new sorting goroutine gets a range longer than the recursion limit")
	}
}

func (e *Engine) forkHelper(st *State, x *ssa.Go, f VFunc, args, seen []Val) []*State {
	loc := e.anyCtr(st)
	if loc == "" {
		e.check(st, "quota", false, "goroutine is not counted against MaxGor")
	} else {
		c := st.ctr[loc]
		used := 1
		for range st.kids {
			used++
		}
		e.check(st, "quota", c.Tok >= used+1, "a count is held for the helper goroutine")
	}
	var rng *VSlice
	ch := ""
	var ints []Lin
	var r RootID
	all := append([]Val(nil), seen...)
	for _, b := range f.Binds { // variables the closure captures
		if p, ok := b.(VPtr); ok {
			if o := st.objs[p.O]; o != nil {
				if c, ok := o.Cells[p.Path].(VChan); ok {
					all = append(all, c)
				}
			}
			continue
		}
		all = append(all, b)
	}
	for _, a := range all {
		switch v := a.(type) {
		case VSlice:
			if rng != nil {
				e.giveUp("helper with two slices")
			}
			w := v
			rng = &w
			r = v.R
		case VOracle:
			r = v.R
		case VInt:
			ints = append(ints, st.normInt(v).L)
		case VChan:
			ch = v.ID
		}
	}
	if r == 0 || ch == "" {
		e.giveUp("helper goroutine of unknown form")
	}
	var lo, hi Lin
	var pts []Lin
	if rng != nil {
		lo, hi = rng.Off, rng.Off.Add(rng.Len)
	} else {
		// span of the integer arguments
		ok := false
		for _, a := range ints {
			for _, b := range ints {
				all := true
				for _, c := range ints {
					if !st.le(a, c) || !st.le(c, b) {
						all = false
					}
				}
				if all && !ok {
					lo, hi = a, b.AddK(1)
					ok = true
				}
			}
		}
		if !ok {
			if dbgBlock != "" {
				fmt.Println("HELPER", ints, st.poly)
			}
			e.giveUp("helper range")
		}
		for _, c := range ints {
			if !st.eq(c, lo) && !st.eq(c.AddK(1), hi) {
				pts = append(pts, c)
			}
		}
	}
	okw := st.le(hi, lo) || st.coverKind(r, lo, hi, fW)
	e.check(st, "race", okw, "range given to the helper goroutine is not used by another goroutine")
	if st.dead {
		return nil
	}
	// counts of the contents are about to lose the points they come from
	var cs []Sym
	for x := range st.envSyms(false) {
		cs = append(cs, x)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i] < cs[j] })
	st.bagSlices()
	st.materializeCnts(cs)
	// helper's own view
	k := st.clone()
	k.kids = nil
	k.sent, k.sentV, k.kidOut = nil, nil, nil
	k.pins = nil
	for ri, a := range k.arrs {
		var fs []*Fact
		for _, g := range a.Facts {
			if g.K != fW && g.K != fR {
				fs = append(fs, g)
			}
		}
		a.Facts = fs
		var bags []*Bag
		_ = ri
		a.Bags = bags
	}
	k.ctr = map[string]*CtrState{}
	cur := lo
	sort.SliceStable(pts, func(i, j int) bool { return st.lt(pts[i], pts[j]) })
	for _, p := range pts {
		k.addFact(r, &Fact{K: fW, Lo: cur, Hi: p})
		k.addFact(r, &Fact{K: fR, Lo: p, Hi: p.AddK(1)})
		k.valueAt(r, p)
		cur = p.AddK(1)
	}
	k.addFact(r, &Fact{K: fW, Lo: cur, Hi: hi})
	k.arr(r).Bags = append(k.arr(r).Bags, &Bag{Lo: lo, Hi: hi, Root: true, D: map[Sym]int64{}})
	// shared points have one name in both
	for _, p := range pts {
		y := k.valueAt(r, p)
		if _, ok := st.lookup(r, p); !ok {
			a := st.arr(r)
			st.instantiate(r, p, y)
			a.Eq = append(a.Eq, Eq{p, y})
		}
	}
	env := map[ssa.Value]Val{}
	for i, p := range f.Fn.Params {
		env[p] = args[i]
	}
	for i, p := range f.Fn.FreeVars {
		env[p] = f.Binds[i]
	}
	k.frames = []*Frame{{Fn: f.Fn, Env: env}}
	loops := e.loops
	e.loops = nil
	e.inGo++
	in := e.curIn
	outs := e.runBody(k)
	e.inGo--
	e.loops = loops
	e.curIn = in
	kid := &Kid{ID: int(x.Pos()), Chan: ch, R: r, Lo: lo, Hi: hi, Dims: map[Dim]bool{}}
	for d := range st.usedDims() {
		kid.Dims[d] = true
	}
	var ss []*State
	for _, o := range outs {
		if dbgBlock != "" {
			fmt.Println("KIDOUT", o.st.kidOut == nil, o.st.sentV, o.st.shape())
		}
		e.check(o.st, "protocol", len(o.st.sent) == 1 && o.st.sent[0] == ch, "helper goroutine sends exactly one message")
		if o.st.dead || len(o.st.sent) != 1 || o.st.kidOut == nil {
			continue
		}
		s := o.st.kidOut
		okp := true
		for _, b := range s.arr(r).Bags {
			if b.Root && (b.Broken || len(b.D) != 0) {
				okp = false
			}
		}
		e.check(s, "perm", okp, "helper goroutine keeps the elements of its range")
		s.sentV = o.st.sentV
		s.prepRet()
		if v, ok := s.sentV[0].(VInt); ok {
			s.sentV = append([]Val(nil), s.sentV...)
			s.sentV[0] = s.normInt(v)
		}
		s.frames = []*Frame{{Fn: f.Fn, Env: map[ssa.Value]Val{retKey: s.sentV[0]}}}
		for i, p := range f.Fn.Params { // pivots and bounds stay comparable
			switch v := args[i].(type) {
			case VSym, VSlice, VInt:
				s.frames[0].Env[p] = v
			}
		}
		s.sent, s.sentV = nil, nil
		ss = append(ss, s)
	}
	if len(ss) > 1 {
		ss = e.mergeBy(ss, func(s *State) string {
			v, ok := s.top().Env[retKey].(VInt)
			if dbgBlock != "" {
				fmt.Println("KID", v, string([]byte{s.sideOf(v.L, K(0)), s.sideOf(v.L, hi.Sub(lo))}))
			}
			if !ok || v.Raw {
				return s.shape()
			}
			return s.shape() + string([]byte{s.sideOf(v.L, K(0)), s.sideOf(v.L, hi.Sub(lo))})
		})
	}
	for _, s := range ss {
		s.compactKid(kid)
		kid.Outs = append(kid.Outs, KidOut{s, s.top().Env[retKey]})
	}
	if len(kid.Outs) == 0 {
		return nil
	}
	st.permuteRange(r, lo, hi, pts)
	st.revoke(r, lo, hi)
	for _, p := range pts {
		st.addFact(r, &Fact{K: fR, Lo: p, Hi: p.AddK(1)})
	}
	st.kids = append(append([]*Kid(nil), st.kids...), kid)
	for d := range st.usedDims() {
		kid.Dims[d] = true
	}
	return []*State{st}
}

func (s *State) compactKid(k *Kid) {
	u := s.usedDims()
	for d := range k.Dims {
		u[d] = true
	}
	s.poly = newPoly(reduceCons(s.poly.project(func(d Dim) bool { return u[d] }).cs))
}

// results of a finished helper become known
func (e *Engine) importKid(st *State, k *Kid, o KidOut) {
	for _, c := range o.St.poly.cs {
		st.poly = st.poly.add(c)
	}
	st.ne = append(append([]Lin(nil), st.ne...), o.St.ne...)
	for p, strict := range o.St.ord {
		st.addOrd(p[0], p[1], strict)
	}
	for x, v := range o.St.nan {
		st.setNaN(x, v)
	}
	if st.dead || !st.feasible() {
		st.dead = true
		return
	}
	ka := o.St.arr(k.R)
	for _, f := range ka.Facts {
		if f.K == fW || f.K == fR {
			continue
		}
		if f.K == fSorted {
			if g := st.clip(f, f.Lo, f.Hi); g != nil && st.le(k.Lo, f.Lo) && st.le(f.Hi, k.Hi) {
				a := st.arr(k.R)
				a.Facts = append(append([]*Fact(nil), a.Facts...), g)
				st.purgeTags(k.R, g)
			}
			continue
		}
		g := *f
		if !st.le(k.Lo, g.Lo) {
			if !st.le(g.Lo, k.Lo) {
				continue
			}
			g.Lo = k.Lo
		}
		if !st.le(g.Hi, k.Hi) {
			if !st.le(k.Hi, g.Hi) {
				continue
			}
			g.Hi = k.Hi
		}
		st.addFact(k.R, &g)
	}
	for _, q := range ka.Eq {
		if st.inside(q.Pos, k.Lo, k.Hi) {
			if _, ok := st.lookup(k.R, q.Pos); !ok {
				a := st.arr(k.R)
				a.Eq = append(append([]Eq(nil), a.Eq...), q)
			}
		}
	}
	st.addFact(k.R, &Fact{K: fW, Lo: k.Lo, Hi: k.Hi})
	// read permissions inside are subsumed
	a := st.arr(k.R)
	var fs []*Fact
	for _, f := range a.Facts {
		if f.K == fR && st.le(k.Lo, f.Lo) && st.le(f.Hi, k.Hi) {
			continue
		}
		fs = append(fs, f)
	}
	a.Facts = fs
}

// on return: nothing is left running, or the caller inherits it
func (e *Engine) checkProtocolReturn(st *State, fn string, worker bool, loc string, r RootID, lo, hi Lin) {
	e.check(st, "protocol", len(st.kids) == 0, "every helper goroutine is waited for before "+fn+" returns")
	for k, c := range st.ctr {
		if c.Created {
			if c.Kids == 0 {
				continue
			}
			ok := c.Tok == 0 && (c.Joined || c.Dec != nil && st.eq(D(*c.Dec), K(0)))
			e.check(st, "protocol", ok, fn+" returns only when all goroutines it started have finished")
			if ok {
				st.restore(c.Own)
			}
			continue
		}
		if k != loc {
			continue
		}
		if worker {
			e.check(st, "protocol", c.Tok == 0 && c.Dec != nil, "worker gives up its count exactly once")
			if c.Tok == 0 && c.Dec != nil {
				switch {
				case st.eq(D(*c.Dec), K(0)):
					e.check(st, "protocol", st.lic == 1, "last goroutine sends the end signal")
				case st.neq(D(*c.Dec), K(0)):
					e.check(st, "protocol", st.lic == 0, "only the last goroutine sends the end signal")
				default:
					e.check(st, "protocol", false, "end signal depends on the counter reaching zero")
				}
			}
		} else {
			e.check(st, "protocol", c.Tok == 1 && st.lic == 0, fn+" returns with as many counts as it was called with")
		}
	}
}

var _ = token.NoPos

// documented minimum length of a range for a new sorting goroutine
func (e *Engine) minGoLen(r *Root) int64 {
	name := "MaxLenRec"
	if r.Oracle || !e.memo["bylen"] && e.class(r.Elem) != "" && !isNumeric(r.Elem) {
		name = "MaxLenRecFC"
	}
	c := e.pkg.Const(name)
	if c == nil || c.Value == nil {
		return 0
	}
	v, ok := constant.Int64Val(constant.ToInt(c.Value.Value))
	if !ok {
		return 0
	}
	return v + 1
}

func isNumeric(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}
