package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- control flow: weak topological order, liveness ----------

type elem struct {
	b    *ssa.BasicBlock
	comp []*elem // non nil: loop with head b
	set  map[*ssa.BasicBlock]bool
}

type CFG struct {
	fn    *ssa.Function
	wto   []*elem
	live  map[*ssa.BasicBlock]map[ssa.Value]bool // live at entry, after phis
	loops bool
	heavy map[*ssa.BasicBlock]bool
}

func (e *Engine) cfgOf(fn *ssa.Function) *CFG {
	if c, ok := e.cfgs[fn]; ok {
		return c
	}
	c := &CFG{fn: fn, heavy: map[*ssa.BasicBlock]bool{}}
	e.cfgs[fn] = c
	c.wto = buildWTO(fn)
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) || s == b {
				c.loops = true
			}
		}
	}
	for _, el := range c.wto {
		if el.comp != nil {
			c.loops = true
		}
	}
	c.live = liveness(fn)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if cl, ok := in.(ssa.CallInstruction); ok {
				if f := cl.Common().StaticCallee(); f != nil && len(f.Blocks) > 0 && f != fn && e.hasLoop(f, 0) {
					c.heavy[b] = true
				} else if f == fn {
					c.heavy[b] = true
				}
			}
		}
	}
	return c
}

func (e *Engine) hasLoop(f *ssa.Function, d int) bool {
	if d > 6 || len(f.Blocks) == 0 {
		return false
	}
	if d == 0 {
		if c, ok := e.cfgs[f]; ok && c.loops {
			return true
		}
	}
	seen := map[*ssa.BasicBlock]int{}
	var dfs func(b *ssa.BasicBlock) bool
	dfs = func(b *ssa.BasicBlock) bool {
		seen[b] = 1
		for _, s := range b.Succs {
			if seen[s] == 1 || seen[s] == 0 && dfs(s) {
				return true
			}
		}
		seen[b] = 2
		return false
	}
	if dfs(f.Blocks[0]) {
		return true
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if cl, ok := in.(ssa.CallInstruction); ok {
				if g := cl.Common().StaticCallee(); g != nil && g != f && e.hasLoop(g, d+1) {
					return true
				}
			}
		}
	}
	return false
}

// Bourdoncle's algorithm
func buildWTO(fn *ssa.Function) []*elem {
	dfn := map[*ssa.BasicBlock]int{}
	num := 0
	var stack []*ssa.BasicBlock
	const inf = 1 << 30
	var visit func(v *ssa.BasicBlock, part *[]*elem) int
	component := func(v *ssa.BasicBlock) *elem {
		el := &elem{b: v, comp: []*elem{}}
		for i := len(v.Succs) - 1; i >= 0; i-- {
			if w := v.Succs[i]; dfn[w] == 0 {
				visit(w, &el.comp)
			}
		}
		reverse(el.comp)
		return el
	}
	visit = func(v *ssa.BasicBlock, part *[]*elem) int {
		stack = append(stack, v)
		num++
		dfn[v] = num
		head := num
		loop := false
		for i := len(v.Succs) - 1; i >= 0; i-- {
			w := v.Succs[i]
			var m int
			if dfn[w] == 0 {
				m = visit(w, part)
			} else {
				m = dfn[w]
			}
			if m <= head {
				head = m
				loop = true
			}
		}
		if head == dfn[v] {
			dfn[v] = inf
			el := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if loop {
				for el != v {
					dfn[el] = 0
					el = stack[len(stack)-1]
					stack = stack[:len(stack)-1]
				}
				*part = append(*part, component(v))
			} else {
				*part = append(*part, &elem{b: v})
			}
		}
		return head
	}
	var out []*elem
	visit(fn.Blocks[0], &out)
	reverse(out)
	var fill func(e *elem) map[*ssa.BasicBlock]bool
	fill = func(e *elem) map[*ssa.BasicBlock]bool {
		m := map[*ssa.BasicBlock]bool{e.b: true}
		for _, c := range e.comp {
			for b := range fill(c) {
				m[b] = true
			}
		}
		e.set = m
		return m
	}
	for _, el := range out {
		fill(el)
	}
	return out
}

func reverse(s []*elem) {
	for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
		s[i], s[j] = s[j], s[i]
	}
}

func liveness(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		in[b] = map[ssa.Value]bool{}
	}
	isVar := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return false
		}
		return v != nil
	}
	for ch := true; ch; {
		ch = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			l := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range in[s] {
					if p, ok := v.(*ssa.Phi); ok && p.Block() == s {
						continue
					}
					l[v] = true
				}
				for k, p := range s.Preds {
					if p != b {
						continue
					}
					for _, ins := range s.Instrs {
						ph, ok := ins.(*ssa.Phi)
						if !ok {
							break
						}
						if isVar(ph.Edges[k]) {
							l[ph.Edges[k]] = true
						}
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				ins := b.Instrs[k]
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				if v, ok := ins.(ssa.Value); ok {
					delete(l, v)
				}
				if _, ok := ins.(*ssa.DebugRef); ok {
					continue
				}
				for _, op := range ins.Operands(nil) {
					if isVar(*op) {
						l[*op] = true
					}
				}
			}
			if len(l) != len(in[b]) {
				in[b] = l
				ch = true
			}
		}
	}
	return in
}

// ---------- running a function body ----------

type flows struct {
	pend map[*ssa.BasicBlock][]*State
	rets *[]Out
}

type cmpStat struct {
	l       Lin
	n       int
	decided bool
}

type loopCtx struct {
	preds []phiDiff
	el    *elem
	exits map[ssa.Instruction]*cmpStat
	cas   bool
}

const (
	capStates = 16
	capHeavy  = 4
	maxUnroll = 24
)

func (e *Engine) runBody(st *State) []Out {
	fn := st.top().Fn
	cfg := e.cfgOf(fn)
	var rets []Out
	f := &flows{map[*ssa.BasicBlock][]*State{fn.Blocks[0]: {st}}, &rets}
	e.runElems(cfg, cfg.wto, f)
	var out []Out
	for _, r := range rets {
		if r.st.dead || !r.st.feasible() || r.st.countConflict() {
			continue
		}
		out = append(out, r)
	}
	return out
}

func (e *Engine) runElems(cfg *CFG, els []*elem, f *flows) {
	for _, el := range els {
		in := f.pend[el.b]
		if len(in) == 0 {
			continue
		}
		delete(f.pend, el.b)
		if el.comp == nil {
			e.runBlock(cfg, el.b, in, f)
		} else {
			e.runLoop(cfg, el, in, f)
		}
	}
}

func (e *Engine) prune(cfg *CFG, b *ssa.BasicBlock, st *State) {
	lv := cfg.live[b]
	env := st.top().Env
	for v := range env {
		if !lv[v] {
			delete(env, v)
		}
	}
}

var dbgBlock = os.Getenv("SORTYAI_BLOCK")

func (e *Engine) runBlock(cfg *CFG, b *ssa.BasicBlock, in []*State, f *flows) {
	var live []*State
	for _, s := range in {
		if !s.dead {
			e.prune(cfg, b, s)
			live = append(live, s)
		}
	}
	c := capStates
	if cfg.heavy[b] {
		c = capHeavy
	}
	if len(live) > c {
		live = e.mergeSame(live)
	}
	if len(live) > c {
		live = e.mergeAll(live)
	}
	for _, s := range live {
		if len(s.poly.cs) > 60 {
			s.compactPoly()
		}
	}
	if dbgBlock != "" && dbgBlock == fmt.Sprint(b.Parent().Name(), ".", b.Index) {
		for _, s := range live {
			fmt.Println("BLOCK", dbgBlock, s)
		}
	}
	cur := live
	for _, ins := range b.Instrs {
		if len(cur) == 0 {
			return
		}
		switch x := ins.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			for _, s := range cur {
				e.curIn = ins
				c := condU
				if v, ok := e.val(s, x.Cond).(VBool); ok {
					c = v.C
				}
				e.noteExit(s, x, c)
				t, fl := e.split(s, c)
				for _, y := range t {
					e.edge(cfg, b, 0, y, f)
				}
				for _, y := range fl {
					e.edge(cfg, b, 1, y, f)
				}
			}
			return
		case *ssa.Jump:
			for _, s := range cur {
				e.edge(cfg, b, 0, s, f)
			}
			return
		case *ssa.Return:
			for _, s := range cur {
				e.curIn = ins
				var r Val
				switch len(x.Results) {
				case 0:
				case 1:
					r = e.val(s, x.Results[0])
				default:
					var t VTuple
					for _, v := range x.Results {
						t = append(t, e.val(s, v))
					}
					r = t
				}
				*f.rets = append(*f.rets, Out{s, r})
			}
			return
		case *ssa.Panic:
			for _, s := range cur {
				e.curIn = ins
				e.check(s, "panic", false, "panic reached")
			}
			return
		}
		var next []*State
		for _, s := range cur {
			for _, n := range e.execInstr(s, ins) {
				if !n.dead {
					next = append(next, n)
				}
			}
		}
		cur = next
		if dbgBlock != "" && dbgBlock == fmt.Sprint(b.Parent().Name(), ".", b.Index, "+") {
			for _, s := range cur {
				fmt.Println("AFTER", ins, s)
			}
		}
		if len(cur) > 3*capStates {
			cur = e.mergeAll(cur)
		}
	}
}

// follow edge i of b, doing phis
func (e *Engine) edge(cfg *CFG, b *ssa.BasicBlock, i int, st *State, f *flows) {
	if st.dead {
		return
	}
	s := b.Succs[i]
	// predecessor index (the k-th occurrence for duplicate edges)
	k := 0
	for j := 0; j < i; j++ {
		if b.Succs[j] == s {
			k++
		}
	}
	pi := -1
	for j, p := range s.Preds {
		if p == b {
			if k == 0 {
				pi = j
				break
			}
			k--
		}
	}
	st.way = (st.way*31+uint64(b.Index)*2+uint64(i)+7)*0x9E3779B97F4A7C15 ^ st.way>>29
	var phis []*ssa.Phi
	var vals []Val
	for _, ins := range s.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, e.val(st, p.Edges[pi]))
	}
	for j, p := range phis {
		st.top().Env[p] = vals[j]
	}
	e.prune(cfg, s, st)
	f.pend[s] = append(f.pend[s], st)
}

// merge states of equal shape that came the same way
func (e *Engine) mergeSame(in []*State) []*State {
	return e.mergeBy(in, func(s *State) string { return fmt.Sprint(s.way, s.shape(), s.layout()) })
}

// merge states of equal shape
func (e *Engine) mergeAll(in []*State) []*State {
	return e.mergeBy(in, func(s *State) string { return s.shape() + s.layout() })
}

// which slice of an array lies before which
func (s *State) layout() string {
	env := s.top().Env
	var ks []ssa.Value
	for k, v := range env {
		if sl, ok := v.(VSlice); ok && sl.R != 0 {
			ks = append(ks, k)
		}
	}
	if len(ks) == 0 && len(s.w.orc) > 0 {
		return s.intLayout()
	}
	if len(ks) < 2 || len(ks) > 4 {
		return ""
	}
	sort.Slice(ks, func(i, j int) bool { return vless(ks[i], ks[j]) })
	var b []byte
	for i, k := range ks {
		x := env[k].(VSlice)
		for _, l := range ks[:i] {
			y := env[l].(VSlice)
			switch {
			case x.R != y.R:
				b = append(b, '.')
			case s.le(x.Off.Add(x.Len), y.Off):
				b = append(b, '<')
			case s.le(y.Off.Add(y.Len), x.Off):
				b = append(b, '>')
			default:
				b = append(b, '?')
			}
		}
	}
	return string(b)
}

// lesswap collections the current function holds, directly or in a captured variable
func (s *State) oraclesHeld() (rs []RootID) {
	if len(s.w.orc) == 0 {
		return
	}
	add := func(v Val) {
		if x, ok := v.(VOracle); ok {
			for _, r := range rs {
				if r == x.R {
					return
				}
			}
			rs = append(rs, x.R)
		}
	}
	for _, v := range s.top().Env {
		add(v)
		if p, ok := v.(VPtr); ok {
			if o := s.objs[p.O]; o != nil {
				for _, c := range o.Cells {
					add(c)
				}
			}
		}
	}
	return
}

// ranges of a lesswap collection are pairs of numbers: how these compare
func (s *State) intLayout() string {
	var ks []ssa.Value
	for k, v := range s.top().Env {
		switch x := v.(type) {
		case VInt:
			if !x.Raw && !x.L.IsConst() {
				ks = append(ks, k)
			}
		}
	}
	orc := len(s.oraclesHeld()) > 0
	if !orc || len(ks) < 3 || len(ks) > 7 {
		return ""
	}
	sort.Slice(ks, func(i, j int) bool { return vless(ks[i], ks[j]) })
	var b []byte
	for i, k := range ks {
		x := s.top().Env[k].(VInt).L
		for _, l := range ks[:i] {
			y := s.top().Env[l].(VInt).L
			switch {
			case s.lt(x, y):
				b = append(b, '<')
			case s.lt(y, x):
				b = append(b, '>')
			default:
				b = append(b, '?')
			}
		}
	}
	return string(b)
}

func (e *Engine) mergeBy(in []*State, key func(*State) string) []*State {
	groups := map[string][]*State{}
	var order []string
	for _, s := range in {
		if !s.feasible() {
			continue
		}
		k := key(s)
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], s)
	}
	var out []*State
	for _, k := range order {
		out = append(out, e.joinList(groups[k]))
	}
	return out
}

func (e *Engine) joinList(g []*State) *State {
	if len(g) == 1 {
		return g[0]
	}
	cur := g[0]
	for _, s := range g[1:] {
		p := cur.way
		if p != s.way {
			p = p*0x9E3779B97F4A7C15 ^ s.way>>7 ^ s.way
		}
		cur = joinStates(cur, s, 0, 0).st
		cur.way = p
	}
	return cur
}

// drop constraints over dims nothing refers to
func (s *State) compactPoly() {
	s.gcMG()
	u := s.usedDims()
	for _, l := range s.ne {
		for _, t := range l.T {
			u[t.D] = true
		}
	}
	s.poly = newPoly(reduceCons(s.poly.project(func(d Dim) bool { return u[d] }).cs))
}

// record the numeric exit conditions of the innermost loops
func (e *Engine) noteExit(s *State, x *ssa.If, c *Cond) {
	n := false
	for c.K == cNot {
		c = c.X
		n = !n
	}
	if c.K != cLe && c.K != cEq {
		return
	}
	if b, ok := x.Cond.(*ssa.BinOp); ok {
		if _, ok := b.X.Type().Underlying().(*types.Pointer); ok {
			return // not a count
		}
	}
	for _, lc := range e.loops {
		if lc.el.set[x.Block()] && (!lc.el.set[x.Block().Succs[0]] || !lc.el.set[x.Block().Succs[1]]) && lc.exits != nil {
			dec := s.poly.entails(c.L) || s.poly.entails(c.L.Neg().AddK(1))
			if c.K == cEq {
				dec = s.eq(c.L, K(0)) || s.neq(c.L, K(0))
			}
			o := lc.exits[x]
			if o == nil {
				o = &cmpStat{decided: true}
				lc.exits[x] = o
			}
			o.n++
			o.l = s.poly.reduceEq(c.L)
			if !dec {
				o.decided = false
			}
		}
	}
}

func content(l Lin) int64 {
	g := int64(0)
	for _, t := range l.T {
		g = gcd(abs64(t.C), g)
	}
	if g > 0 {
		if r := abs64(l.K) % g; r == 1 || r == g-1 { // strict comparison adds one
			return g
		}
	}
	g = gcd(abs64(l.K), g)
	return g
}

// one pass through a loop from the given head states
func (e *Engine) iterate(cfg *CFG, el *elem, in []*State, rets *[]Out) (back []*State, exits map[*ssa.BasicBlock][]*State) {
	f := &flows{map[*ssa.BasicBlock][]*State{}, rets}
	e.runBlock(cfg, el.b, in, f)
	e.runElems(cfg, el.comp, f)
	exits = map[*ssa.BasicBlock][]*State{}
	for b, ss := range f.pend {
		for _, s := range ss {
			if s.dead || !s.feasible() {
				continue
			}
			if b == el.b {
				back = append(back, s)
			} else {
				exits[b] = append(exits[b], s)
			}
		}
	}
	return
}

func (e *Engine) runLoop(cfg *CFG, el *elem, in []*State, f *flows) {
	if e.query && len(in) > 1 && len(in) <= 8 {
		for _, s := range in {
			e.runLoop(cfg, el, []*State{s}, f)
		}
		return
	}
	emit := func(x map[*ssa.BasicBlock][]*State) {
		var bs []*ssa.BasicBlock
		for b := range x {
			bs = append(bs, b)
		}
		sort.Slice(bs, func(i, k int) bool { return bs[i].Index < bs[k].Index })
		for _, b := range bs {
			f.pend[b] = append(f.pend[b], x[b]...)
		}
	}
	var cur []*State
	for _, s := range in {
		if !s.dead && s.feasible() {
			e.prune(cfg, el.b, s)
			s.seedSlices(e, el)
			cur = append(cur, s)
		}
	}
	if dbgBlock != "" {
		fmt.Println("ELEM", el.b.Parent().Name(), el.b.Index, len(cur), "LP", lpCount, lpOver)
		for _, s := range cur {
			for k, v := range s.top().Env {
				if _, ok := k.(*ssa.Phi); ok {
					fmt.Print(" PHI ", k.Name(), v)
				}
			}
			fmt.Println()
		}
	}
	lc := &loopCtx{el: el, preds: phiDiffs(el, cur)}
	e.loops = append(e.loops, lc)
	defer func() {
		if n := len(e.loops); n > 0 {
			e.loops = e.loops[:n-1]
		}
	}()
	key := func(s *State) string { return s.shape() + s.layout() + lc.class(s) }
	if len(cur) > 2 {
		cur = e.mergeBy(lc.classify(e, cur), key)
	}
	if len(cur) == 0 {
		return
	}
	// peel, and unroll while the trip count is certainly bounded
	mark := e.w.dim()
	var ent *State
	if len(cur) == 1 {
		ent = cur[0].clone()
	}
	for it := 0; ; it++ {
		lc.exits = map[ssa.Instruction]*cmpStat{}
		back, exits := e.iterate(cfg, el, cur, f.rets)
		emit(exits)
		cur = back
		if len(cur) == 0 {
			return
		}
		dec := false
		if dbgBlock != "" {
			for _, x := range lc.exits {
				fmt.Println("EXIT", el.b.Index, it, x.decided, x.l)
			}
		}
		for _, x := range lc.exits {
			if x.decided && (x.l.IsConst() && abs64(x.l.K) <= maxUnroll || content(x.l) >= 2 || it > 0 || ent != nil && e.symStep(el, ent, back, mark)) {
				dec = true
			}
		}
		for _, x := range lc.exits {
			if !x.decided {
				dec = false
			}
		}
		lc.exits = nil
		if !dec {
			break
		}
		if it > maxUnroll {
			break
		}
		if len(cur) > 2 {
			cur = e.mergeBy(lc.classify(e, cur), key)
		}
	}
	e.fixpoint(cfg, el, cur, f, emit, lc)
}

// a loop variable advances by a symbolic step
func (e *Engine) symStep(el *elem, in *State, back []*State, mark Dim) bool {
	for _, s := range back {
		ok := false
		for _, x := range el.b.Instrs {
			p, is := x.(*ssa.Phi)
			if !is {
				break
			}
			if e.itype(p.Type()) == nil {
				continue
			}
			a, ok1 := in.top().Env[p].(VInt)
			b, ok2 := s.top().Env[p].(VInt)
			if !ok1 || !ok2 {
				continue
			}
			a, b = in.normInt(a), s.normInt(b)
			if a.Raw || b.Raw {
				continue
			}
			d := s.poly.reduceEq(b.L.Sub(a.L))
			old := !d.IsConst()
			for _, t := range d.T {
				if t.D >= mark {
					old = false
				}
			}
			if old {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func (s *State) sliceNames() map[ssa.Value]VSlice {
	m := map[ssa.Value]VSlice{}
	for k, v := range s.top().Env {
		if x, ok := v.(VSlice); ok && x.R != 0 {
			m[k] = x
		}
	}
	return m
}

// does f, or a function it is one step above, sort parts of a range by calls?
func (e *Engine) recurs(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && len(g.Blocks) > 0 && (g == f || e.reaches(g, g)) {
					return true
				}
			}
		}
	}
	return false
}

// does the loop call functions with loops?
func (e *Engine) callsLoops(el *elem) bool {
	for b := range el.set {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil && len(f.Blocks) > 0 && e.cfgOf(f).loops {
					return true
				}
			}
		}
	}
	return false
}

// trivially true: any range is sorted except inside itself
func (s *State) seedSlices(e *Engine, el *elem) {
	for _, x := range s.sliceNames() {
		e.seedSorted(s, x.R, x.Off, x.Off.Add(x.Len))
	}
	if len(e.w.orc) == 0 || !e.callsLoops(el) {
		return
	}
	// ranges of a lesswap collection between two numbers
	var ks []ssa.Value
	for k, v := range s.top().Env {
		switch x := v.(type) {
		case VInt:
			if !x.Raw {
				ks = append(ks, k)
			}
		}
	}
	rs := s.oraclesHeld()
	if len(ks) > 4 || len(rs) != 1 {
		return
	}
	sort.Slice(ks, func(i, j int) bool { return vless(ks[i], ks[j]) })
	for _, k := range ks {
		for _, l := range ks {
			x, y := s.top().Env[k].(VInt).L, s.top().Env[l].(VInt).L.AddK(1)
			if k != l && s.le(x.AddK(2), y) {
				e.seedSorted(s, rs[0], x, y)
			}
		}
	}
}

func (e *Engine) seedSorted(s *State, r RootID, lo, hi Lin) {
	ro := e.roots[r]
	if ro == nil || ro.Local {
		return
	}
	a := s.arr(r)
	for _, key := range e.sortKeys(ro) {
		have := false
		for _, f := range a.Facts {
			if f.K == fSorted && f.Key == key && s.le(f.Lo, lo) && s.le(hi, f.Hi) {
				in := true
				for _, h := range f.Holes {
					if s.le(h.Lo, lo) && s.le(hi, h.Hi) && !(s.eq(h.Lo, lo) && s.eq(hi, h.Hi)) {
						in = false // part of a hole
					}
				}
				have = have || in
			}
		}
		if !have {
			a.Facts = append(append([]*Fact(nil), a.Facts...), &Fact{K: fSorted, Lo: lo, Hi: hi, Key: key, Holes: []Hole{{lo, hi, false}}})
		}
	}
}

// a difference of two loop variables that is constant in some of the cases reaching
// the loop and different in others: these cases are kept apart in the loop
type phiDiff struct {
	x, y *ssa.Phi
	c    int64
}

func phiDiffs(el *elem, cur []*State) []phiDiff {
	var phis []*ssa.Phi
	for _, in := range el.b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			phis = append(phis, p)
		}
	}
	if len(phis) > 4 || len(cur) < 2 {
		return nil
	}
	var r []phiDiff
	for i, x := range phis {
	pair:
		for _, y := range phis[i+1:] {
			var c int64
			have, other := false, false
			for _, s := range cur {
				d, ok := s.phiDiff(x, y)
				if !ok {
					continue pair
				}
				if have || len(s.top().Env[x].(VInt).L.T) == 0 || len(s.top().Env[y].(VInt).L.T) == 0 {
					continue
				}
				if k, ok := s.constOf(d); ok {
					c, have = k, true
				}
			}
			if !have {
				continue
			}
			for _, s := range cur {
				d, _ := s.phiDiff(x, y)
				if s.neq(d, K(c)) {
					other = true
				}
			}
			if other && len(r) < 2 {
				r = append(r, phiDiff{x, y, c})
			}
		}
	}
	return r
}

func (s *State) phiDiff(x, y *ssa.Phi) (Lin, bool) {
	a, ok1 := s.top().Env[x].(VInt)
	b, ok2 := s.top().Env[y].(VInt)
	if !ok1 || !ok2 {
		return Lin{}, false
	}
	a, b = s.normInt(a), s.normInt(b)
	if a.Raw || b.Raw {
		return Lin{}, false
	}
	return a.L.Sub(b.L), true
}

func (lc *loopCtx) class(s *State) string {
	if len(lc.preds) == 0 {
		return ""
	}
	r := []byte{' '}
	for _, p := range lc.preds {
		d, ok := s.phiDiff(p.x, p.y)
		switch {
		case !ok:
			r = append(r, '-')
		case s.eq(d, K(p.c)):
			r = append(r, '=')
		case s.neq(d, K(p.c)):
			r = append(r, '!')
		default:
			r = append(r, '?')
		}
	}
	return string(r)
}

func (lc *loopCtx) classify(e *Engine, in []*State) []*State {
	if len(lc.preds) == 0 {
		return in
	}
	var out []*State
	for _, s := range in {
		cur := []*State{s}
		for _, p := range lc.preds {
			var next []*State
			for _, x := range cur {
				d, ok := x.phiDiff(p.x, p.y)
				if !ok {
					next = append(next, x)
					continue
				}
				t, f := e.split(x, &Cond{K: cEq, L: d.AddK(-p.c)})
				for _, y := range t {
					y.unify()
				}
				next = append(next, t...)
				next = append(next, f...)
			}
			cur = next
		}
		out = append(out, cur...)
	}
	return out
}

func (e *Engine) fixpoint(cfg *CFG, el *elem, cur []*State, f *flows, emit func(map[*ssa.BasicBlock][]*State), lc *loopCtx) {
	baseD, baseS := e.w.nd, e.w.ns
	// names of the states before the loop body are not known any more: base is what all share
	type head struct {
		key string
		st  *State
	}
	var heads []*head
	add := func(s *State) *head {
		k := s.shape() + lc.class(s)
		for _, h := range heads {
			if h.key == k {
				return h
			}
		}
		return nil
	}
	for _, s := range lc.classify(e, cur) {
		if h := add(s); h != nil {
			if os.Getenv("SORTYAI_LOOP") == "2" {
				fmt.Printf("-JOIN %s b%d\n%v-WITH\n%v\n", cfg.fn.Name(), el.b.Index, h.st, s)
			}
			h.st = joinStates(h.st, s, 0, 0).st
			h.key = h.st.shape() + lc.class(h.st)
		} else {
			heads = append(heads, &head{s.shape() + lc.class(s), s})
		}
	}
	for _, h := range heads {
		h.st.prepJoin()
		h.st.compactPoly()
		h.st.gcSyms()
	}
	_ = baseS
	traceLoop := os.Getenv("SORTYAI_LOOP") != ""
	var last *oblBuf // findings of the last round
	for round := 0; ; round++ {
		if round > 14 {
			if last != nil {
				e.tentative(last)
			}
			e.giveUp(fmt.Sprintf("no fixpoint for loop at block %d of %s", el.b.Index, cfg.fn.Name()))
		}
		e.obl.push()
		var rets []Out
		type bk struct {
			h *head
			s *State
		}
		var backs []bk
		allEx := map[*ssa.BasicBlock][]*State{}
		for _, h := range heads {
			h.st.cas = 0
			hs := h.st.clone()
			hs.pinHead()
			back, exits := e.iterate(cfg, el, []*State{hs}, &rets)
			for b, ss := range exits {
				allEx[b] = append(allEx[b], ss...)
			}
			for _, s := range lc.classify(e, back) {
				backs = append(backs, bk{h, s})
			}
		}
		stable := true
		type upd struct {
			h  *head
			ss []*State
		}
		ups := map[*head][]*State{}
		var newHeads []*State
		for _, b := range backs {
			h := add(b.s)
			if h == nil {
				stable = false
				newHeads = append(newHeads, b.s)
				continue
			}
			bs := b.s.clone()
			bs.pins = nil
			bs.prepJoin()
			inc := newInclusion(bs, h.st, baseD, baseS)
			if !inc.check() {
				stable = false
				ups[h] = append(ups[h], b.s)
				if traceLoop {
					fmt.Printf("LOOP %s b%d round %d: %v\n", cfg.fn.Name(), el.b.Index, round, inc.fails)
					if os.Getenv("SORTYAI_LOOP") == "2" {
						fmt.Printf("-HEAD\n%v-BACK\n%v\n", h.st, bs)
					}
				}
			}
		}
		if stable {
			e.obl.pop(true)
			emit(allEx)
			*f.rets = append(*f.rets, rets...)
			var hs []*State
			for _, h := range heads {
				hs = append(hs, h.st)
			}
			var pairs [][2]*State
			for _, b := range backs {
				pairs = append(pairs, [2]*State{b.h.st, b.s})
			}
			if len(pairs) > 0 {
				e.checkRank(cfg, el, pairs)
			}
			return
		}
		last = e.obl.st[len(e.obl.st)-1]
		e.obl.pop(false)
		for h, ss := range ups {
			for _, s := range ss {
				t := s.clone()
				t.pins = nil
				if round < 2 {
					h.st = joinStates(h.st, t, baseD, baseS).st
				} else {
					t.prepJoin()
					inc := newInclusion(t, h.st, baseD, baseS)
					if !inc.check() {
						inc.noExtra = round > 8
						inc.round = round
						h.st = inc.weaken()
					}
				}
			}
			h.st.compactPoly()
			h.key = h.st.shape() + lc.class(h.st)
			if traceLoop {
				fmt.Printf("HEAD %s b%d round %d:\n%v\n", cfg.fn.Name(), el.b.Index, round, h.st)
			}
		}
		for _, s := range newHeads {
			t := s.clone()
			t.pins = nil
			if h := add(t); h != nil {
				h.st = joinStates(h.st, t, baseD, baseS).st
				h.key = h.st.shape() + lc.class(h.st)
			} else {
				t.prepJoin()
				t.compactPoly()
				t.gcSyms()
				heads = append(heads, &head{t.shape(), t})
			}
		}
	}
}

// keep the numbers of a loop head visible for the ranking argument
func (s *State) pinHead() {
	for _, v := range s.top().Env {
		valLins(v, func(l Lin) {
			for _, t := range l.T {
				s.pins = append(s.pins, D(t.D))
			}
		})
	}
}

// ranking: an expression over the head's values that is non-negative at the head
// and smaller after every way back to it
func (e *Engine) checkRank(cfg *CFG, el *elem, pairs [][2]*State) {
	type cand struct {
		name string
		get  func(s *State) (Lin, bool)
	}
	var cands []cand
	num := map[string]func(s *State) (Lin, bool){}
	h := pairs[0][0]
	var names []string
	addn := func(n string, g func(s *State) (Lin, bool)) {
		num[n] = g
		names = append(names, n)
	}
	var ks []ssa.Value
	for k := range h.top().Env {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return vless(ks[i], ks[j]) })
	for _, k := range ks {
		k := k
		switch h.top().Env[k].(type) {
		case VInt:
			addn(k.Name(), func(s *State) (Lin, bool) {
				v, ok := s.top().Env[k].(VInt)
				if !ok {
					return Lin{}, false
				}
				return s.normInt(v).L, true
			})
		case VSlice:
			addn("len("+k.Name()+")", func(s *State) (Lin, bool) {
				v, ok := s.top().Env[k].(VSlice)
				return v.Len, ok
			})
		}
	}
	for _, fr := range h.objNums() {
		o, p := fr.o, fr.p
		addn(fmt.Sprintf("obj%d%s", o, p), func(s *State) (Lin, bool) {
			ob := s.objs[o]
			if ob == nil {
				return Lin{}, false
			}
			switch v := ob.Cells[p].(type) {
			case VInt:
				return s.normInt(v).L, true
			case VSlice:
				return v.Len, true
			}
			return Lin{}, false
		})
	}
	for _, n := range names {
		n := n
		cands = append(cands, cand{n, num[n]})
		cands = append(cands, cand{"-" + n, func(s *State) (Lin, bool) { l, ok := num[n](s); return l.Neg(), ok }})
		for _, m := range names {
			m := m
			if m != n {
				cands = append(cands, cand{n + "-" + m, func(s *State) (Lin, bool) {
					l, ok := num[n](s)
					k, ok2 := num[m](s)
					return l.Sub(k), ok && ok2
				}})
			}
		}
	}
	ok := ""
	for _, c := range cands {
		good := true
		for _, p := range pairs {
			a, ok1 := c.get(p[0])
			b, ok2 := c.get(p[1])
			if !ok1 || !ok2 || !p[1].lt(b, a) {
				good = false
				break
			}
			// bounded below by a constant on the way back
			if _, kd := p[1].poly.maxOf(a.Neg()); kd == 1 || kd == 2 {
				good = false
				break
			}
			if m, kd := p[1].poly.maxOf(a.Neg()); kd == 0 && m > 1<<40 {
				good = false
				break
			}
			if !boundedBelow(p[1], a) {
				good = false
				break
			}
		}
		if good {
			ok = c.name
			break
		}
	}
	cas := true
	for _, p := range pairs {
		if p[1].cas <= p[0].cas {
			cas = false
		}
	}
	if ok == "" && cas {
		ok = "retry after another goroutine's progress"
	}
	var pos token.Pos
	for _, in := range el.b.Instrs {
		if in.Pos().IsValid() {
			pos = in.Pos()
			break
		}
	}
	if !pos.IsValid() {
		for b := range el.set {
			for _, in := range b.Instrs {
				if in.Pos().IsValid() && (!pos.IsValid() || in.Pos() < pos) {
					pos = in.Pos()
				}
			}
		}
	}
	d := ""
	if ok == "" {
		d = "no linear ranking function over: " + strings.Join(names, ", ")
		if e.debug {
			fmt.Println("RANK FAIL", cfg.fn.Name(), e.posStr(pos), d)
			for _, p := range pairs {
				fmt.Println("RANKHEAD", p[0])
				fmt.Println("RANKBACK", p[1])
			}
			for _, p := range pairs {
				for _, c := range cands {
					a, ok1 := c.get(p[0])
					b, ok2 := c.get(p[1])
					fmt.Println("CAND", c.name, a, b, ok1 && ok2 && p[1].lt(b, a), boundedBelow(p[1], a))
				}
				fmt.Println("HEAD", p[0], "\nBACK", p[1])
			}
		}
	}
	e.obl.add(OblKey{"termination", cfg.fn.Name(), e.posStr(pos), "loop makes progress toward its exit"}, ok != "", d)
}

// a >= constant or a >= -(entry constants): bounded by quantities that do not change in the loop
func boundedBelow(s *State, a Lin) bool {
	m, k := s.poly.maxOf(a.Neg())
	return k == 0 && m < 1<<40
}

type objNum struct {
	o int
	p string
}

func (s *State) objNums() []objNum {
	var r []objNum
	var ids []int
	for id := range s.objs {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		for _, p := range sortedKeys(s.objs[id].Cells) {
			switch s.objs[id].Cells[p].(type) {
			case VInt, VSlice:
				r = append(r, objNum{id, p})
			}
		}
	}
	return r
}

// l with names removed that equal other names by a known equation
func (p *Poly) reduceEq(l Lin) Lin {
	if len(l.T) < 2 {
		return l
	}
	has := map[string]bool{}
	for _, c := range p.cs {
		has[c.String()] = true
	}
	var eqs []Lin
	for _, c := range p.cs {
		n := c.Neg().String()
		if has[n] {
			eqs = append(eqs, c)
			delete(has, n)
			delete(has, c.String())
		}
	}
	for i := 0; i < len(eqs); i++ {
		q := eqs[i]
		for j := len(q.T) - 1; j >= 0; j-- {
			t := q.T[j]
			if abs64(t.C) != 1 || t.D == dimM || t.D == dimM64 {
				continue
			}
			// t.D = -(q - t)/t.C
			v := q.AddM(D(t.D), -t.C).Scale(-t.C)
			l = l.Subst(t.D, v)
			for k := i + 1; k < len(eqs); k++ {
				eqs[k] = eqs[k].Subst(t.D, v)
			}
			break
		}
	}
	return l
}
