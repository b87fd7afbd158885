package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- reachable code ----------

type code struct {
	p     *Prog
	fns   map[*ssa.Function]bool // with bodies, reachable from the roots
	live  map[*ssa.BasicBlock]bool
	calls map[*ssa.Function][]ssa.CallInstruction // call sites by callee
	dyn   []ssa.CallInstruction                   // calls of function values
	ext   map[string][]ssa.CallInstruction        // calls of functions that are not analysed
}

var exported = []string{"SortSlice", "SortLen", "Sort", "IsSortedSlice", "IsSortedLen", "IsSorted", "Search"}

// blocks that can run: constant branches are followed on their taken side only
func liveBlocks(fn *ssa.Function, live map[*ssa.BasicBlock]bool) {
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if live[b] {
			return
		}
		live[b] = true
		if len(b.Instrs) > 0 {
			if f, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				if c, ok := constBool(f.Cond); ok {
					if c {
						dfs(b.Succs[0])
					} else {
						dfs(b.Succs[1])
					}
					return
				}
			}
		}
		for _, s := range b.Succs {
			dfs(s)
		}
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	if fn.Recover != nil {
		dfs(fn.Recover)
	}
}

func constVal(v ssa.Value) constant.Value {
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value
	case *ssa.BinOp:
		a, b := constVal(x.X), constVal(x.Y)
		if a == nil || b == nil || a.Kind() == constant.Unknown || b.Kind() == constant.Unknown {
			return nil
		}
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return constant.MakeBool(constant.Compare(a, x.Op, b))
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			if a := constVal(x.X); a != nil && a.Kind() == constant.Bool {
				return constant.MakeBool(!constant.BoolVal(a))
			}
		}
	}
	return nil
}

func constBool(v ssa.Value) (bool, bool) {
	c := constVal(v)
	if c == nil || c.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(c), true
}

// packages whose code is followed like the package's own
func followed(p *Prog, f *ssa.Function) bool {
	if f == nil || len(f.Blocks) == 0 {
		return false
	}
	q := f.Pkg
	if q == nil && f.Origin() != nil {
		q = f.Origin().Pkg
	}
	if q == nil && f.Parent() != nil {
		q = f.Parent().Pkg
	}
	if q == p.pkg || q != nil && strings.HasPrefix(q.Pkg.Path(), "github.com/jfcg/") {
		return true
	}
	if q != nil {
		switch q.Pkg.Path() {
		case "slices", "cmp", "sort", "maps", "iter":
			return true
		}
	}
	return q == nil // wrappers
}

func reach(p *Prog, roots []string) *code {
	c := &code{p: p, fns: map[*ssa.Function]bool{}, live: map[*ssa.BasicBlock]bool{}, calls: map[*ssa.Function][]ssa.CallInstruction{}, ext: map[string][]ssa.CallInstruction{}}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || c.fns[f] {
			return
		}
		if len(f.Blocks) == 0 && f.Pkg != nil && f.Pkg != p.pkg {
			f.Pkg.Build()
		}
		if !followed(p, f) {
			return
		}
		c.fns[f] = true
		liveBlocks(f, c.live)
		for _, b := range f.Blocks {
			if !c.live[b] {
				continue
			}
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					cc := ci.Common()
					if g := cc.StaticCallee(); g != nil {
						if len(g.Blocks) == 0 && g.Pkg != nil {
							g.Pkg.Build()
						}
						if followed(p, g) {
							c.calls[g] = append(c.calls[g], ci)
						} else {
							c.ext[fullName(g)] = append(c.ext[fullName(g)], ci)
						}
					} else if _, ok := cc.Value.(*ssa.Builtin); !ok {
						c.dyn = append(c.dyn, ci)
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						add(g)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					add(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	for _, n := range roots {
		add(p.pkg.Func(n))
	}
	return c
}

func (c *code) sorted() (l []*ssa.Function) {
	for f := range c.fns {
		l = append(l, f)
	}
	sort.Slice(l, func(i, k int) bool { return l[i].String() < l[k].String() })
	return
}

func (c *code) each(f func(fn *ssa.Function, in ssa.Instruction)) {
	for _, fn := range c.sorted() {
		for _, b := range fn.Blocks {
			if c.live[b] {
				for _, in := range b.Instrs {
					f(fn, in)
				}
			}
		}
	}
}

func (p *Prog) pos(in ssa.Instruction) string {
	q := in.Pos()
	if !q.IsValid() && in.Block() != nil {
		for _, x := range in.Block().Instrs {
			if x.Pos().IsValid() {
				q = x.Pos()
			}
			if x == in && q.IsValid() {
				break
			}
		}
	}
	if !q.IsValid() {
		q = in.Parent().Pos()
	}
	ps := p.prog.Fset.Position(q)
	f := ps.Filename
	if i := strings.LastIndexByte(f, '/'); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// does every path from b end in a panic?
func panics(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var ok func(b *ssa.BasicBlock) bool
	ok = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return true
		}
		seen[b] = true
		if len(b.Instrs) == 0 {
			return false
		}
		if _, p := b.Instrs[len(b.Instrs)-1].(*ssa.Panic); p {
			return true
		}
		if len(b.Succs) == 0 {
			return false
		}
		for _, s := range b.Succs {
			if !ok(s) {
				return false
			}
		}
		return true
	}
	return ok(b)
}

func forArchs(ps map[string]*Prog, roots []string, rule string, f func(c *code, r *StructRes)) *StructRes {
	r := &StructRes{Rule: rule}
	for _, a := range archs {
		p := ps[a]
		if p == nil {
			continue
		}
		for _, n := range roots {
			if p.pkg.Func(n) == nil {
				r.Bad = append(r.Bad, Finding{"load", n, "-", "exported function is missing", a})
			}
		}
		c := reach(p, roots)
		for f := range c.fns {
			r.Analysed = append(r.Analysed, f.Name())
		}
		f(c, r)
	}
	return r
}

// ---------- C09: memory ----------

// functions of other packages that allocate nothing, or a fixed amount
func fixedAlloc(name string) bool {
	for _, p := range []string{"reflect.TypeOf", "reflect.ValueOf", "(reflect.Value).", "(reflect.Type).", "(*reflect.rtype).", "sync/atomic.", "(*sync/atomic.",
		"math.", "math/bits.", "bytes.Compare", "bytes.Equal", "strings.Compare", "unsafe.", "runtime.KeepAlive", "runtime.Gosched", "runtime.NumCPU", "runtime.GOMAXPROCS",
		"runtime.NumGoroutine", "(*sync.Mutex).", "(*sync.RWMutex).", "(*sync.WaitGroup).", "(*sync.Once).", "errors.New", "reflect.Swapper", "cmp.", "internal/"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func hasCycleTo(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(x *ssa.BasicBlock) bool
	dfs = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if dfs(s) {
					return true
				}
			}
		}
		return false
	}
	return dfs(b)
}

func checkAlloc(ps map[string]*Prog) *StructRes {
	return forArchs(ps, exported, "allocations of fixed size only", func(c *code, r *StructRes) {
		bad := func(in ssa.Instruction, msg string) {
			if panics(in.Block()) {
				return
			}
			r.Bad = append(r.Bad, Finding{"memory", in.Parent().Name(), c.p.pos(in), msg, c.p.arch})
		}
		isStr := func(t types.Type) bool {
			b, ok := t.Underlying().(*types.Basic)
			return ok && b.Info()&types.IsString != 0
		}
		c.each(func(fn *ssa.Function, in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Alloc:
				r.OK++
			case *ssa.MakeSlice:
				if constVal(x.Cap) == nil || constVal(x.Len) == nil {
					bad(in, "makes a slice whose size depends on the input")
				} else {
					r.OK++
				}
			case *ssa.MakeMap:
				bad(in, "makes a map")
			case *ssa.MakeChan:
				if constVal(x.Size) == nil {
					bad(in, "makes a channel whose capacity depends on the input")
				} else {
					r.OK++
				}
			case *ssa.BinOp:
				if x.Op == token.ADD && isStr(x.Type()) && constVal(x) == nil {
					bad(in, "concatenates strings")
				}
			case *ssa.Convert:
				f, t := x.X.Type().Underlying(), x.Type().Underlying()
				_, fs := f.(*types.Slice)
				_, ts := t.(*types.Slice)
				if (fs && isStr(t) || ts && isStr(f)) && !cmpOnly(x) {
					bad(in, "copies content between a string and a slice")
				}
			case ssa.CallInstruction:
				cc := x.Common()
				if b, ok := cc.Value.(*ssa.Builtin); ok {
					if b.Name() == "append" {
						if hasCycleTo(in.Block()) || !fixedSpread(cc.Args[1]) || inCycle(c, fn) {
							bad(in, "append can grow with the input")
						}
					}
					return
				}
				if g := cc.StaticCallee(); g != nil {
					if !c.fns[g] && !fixedAlloc(fullName(g)) {
						bad(in, "calls "+fullName(g)+", which may allocate an amount that depends on the input")
					} else {
						r.OK++
					}
				} else if cc.IsInvoke() && !fixedAlloc("("+cc.Value.Type().String()+")."+cc.Method.Name()) {
					bad(in, "calls method "+cc.Method.Name()+" of an interface")
				}
			}
		})
	})
}

// []byte(s) or string(b) used only in comparisons does not allocate
func cmpOnly(v ssa.Value) bool {
	if !isBasicString(v.Type()) {
		return false
	}
	for _, r := range *v.Referrers() {
		b, ok := r.(*ssa.BinOp)
		if _, dbg := r.(*ssa.DebugRef); dbg {
			continue
		}
		if !ok || b.Op == token.ADD {
			return false
		}
	}
	return true
}

func isBasicString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// arguments of append written one by one: a slice of a fixed array
func fixedSpread(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	if !ok {
		c, ok := v.(*ssa.Const)
		return ok && c.IsNil()
	}
	p, ok := s.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = p.Elem().Underlying().(*types.Array)
	return ok
}

// is fn part of a recursion?
func inCycle(c *code, fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var dfs func(f *ssa.Function) bool
	dfs = func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					g := ci.Common().StaticCallee()
					if g == nil {
						continue
					}
					if g == fn {
						return true
					}
					if !seen[g] && c.fns[g] {
						seen[g] = true
						if dfs(g) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return dfs(fn)
}

// ---------- addresses reached from package variables ----------

// values that may refer to memory of package variables (or read from it through references)
func globalRefs(c *code) map[ssa.Value]*ssa.Global {
	t := map[ssa.Value]*ssa.Global{}
	ch := true
	set := func(v ssa.Value, g *ssa.Global) {
		if g != nil && t[v] == nil && hasRef(v.Type()) {
			t[v] = g
			ch = true
		}
	}
	get := func(v ssa.Value) *ssa.Global {
		if g, ok := v.(*ssa.Global); ok {
			return g
		}
		return t[v]
	}
	cells := map[ssa.Value]*ssa.Global{} // local variables that hold such references
	rets := map[*ssa.Function]map[int]*ssa.Global{}
	for ch {
		ch = false
		c.each(func(fn *ssa.Function, in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				set(x, get(x.X))
			case *ssa.IndexAddr:
				set(x, get(x.X))
			case *ssa.Field:
				set(x, get(x.X))
			case *ssa.Index:
				set(x, get(x.X))
			case *ssa.Lookup:
				set(x, get(x.X))
			case *ssa.Slice:
				set(x, get(x.X))
			case *ssa.Convert:
				set(x, get(x.X))
			case *ssa.ChangeType:
				set(x, get(x.X))
			case *ssa.ChangeInterface:
				set(x, get(x.X))
			case *ssa.MakeInterface:
				set(x, get(x.X))
			case *ssa.TypeAssert:
				set(x, get(x.X))
			case *ssa.SliceToArrayPointer:
				set(x, get(x.X))
			case *ssa.Extract:
				set(x, get(x.Tuple))
			case *ssa.BinOp:
				if _, p := x.Type().Underlying().(*types.Basic); p && x.Type().Underlying().(*types.Basic).Kind() == types.Uintptr {
					set(x, get(x.X))
					set(x, get(x.Y))
				}
			case *ssa.UnOp:
				if x.Op == token.MUL {
					set(x, get(x.X))
					set(x, cells[x.X])
				} else if x.Op == token.ARROW {
					set(x, get(x.X))
				}
			case *ssa.Store:
				if g := get(x.Val); g != nil && cells[x.Addr] == nil {
					cells[x.Addr] = g
					ch = true
				}
			case *ssa.Phi:
				for _, e := range x.Edges {
					set(x, get(e))
				}
			case *ssa.MakeClosure:
				f := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					set(f.FreeVars[i], get(b))
					if cells[b] != nil && cells[f.FreeVars[i]] == nil {
						cells[f.FreeVars[i]] = cells[b]
						ch = true
					}
				}
			case *ssa.Return:
				for i, v := range x.Results {
					if g := get(v); g != nil {
						if rets[fn] == nil {
							rets[fn] = map[int]*ssa.Global{}
						}
						if rets[fn][i] == nil {
							rets[fn][i] = g
							ch = true
						}
					}
				}
			case ssa.CallInstruction:
				cc := x.Common()
				g := cc.StaticCallee()
				if g == nil || !c.fns[g] {
					return
				}
				for i, a := range cc.Args {
					if i < len(g.Params) {
						set(g.Params[i], get(a))
						if cells[a] != nil && cells[g.Params[i]] == nil {
							cells[g.Params[i]] = cells[a]
							ch = true
						}
					}
				}
				if v, ok := in.(*ssa.Call); ok {
					for _, q := range rets[g] {
						set(v, q)
					}
				}
			}
		})
	}
	return t
}

// can a value of type t refer to memory?
func hasRef(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer || u.Kind() == types.Uintptr
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRef(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasRef(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasRef(u.At(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

// ---------- C18: no state in package variables ----------

func checkGlobals(ps map[string]*Prog) *StructRes {
	return forArchs(ps, exported, "package variables are only read", func(c *code, r *StructRes) {
		refs := globalRefs(c)
		get := func(v ssa.Value) *ssa.Global {
			if g, ok := v.(*ssa.Global); ok {
				return g
			}
			return refs[v]
		}
		bad := func(in ssa.Instruction, msg string) {
			r.Bad = append(r.Bad, Finding{"state", in.Parent().Name(), c.p.pos(in), msg, c.p.arch})
		}
		c.each(func(fn *ssa.Function, in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.UnOp:
				if g := get(x.X); g != nil && x.Op == token.MUL {
					r.OK++
				} else if g != nil && x.Op == token.ARROW {
					bad(in, "receives from a channel kept in package variable "+g.Name())
				}
			case *ssa.Store:
				if g := get(x.Addr); g != nil {
					bad(in, "writes memory of package variable "+g.Name())
				}
			case *ssa.MapUpdate:
				if g := get(x.Map); g != nil {
					bad(in, "writes a map kept in package variable "+g.Name())
				}
			case *ssa.Send:
				if g := get(x.Chan); g != nil {
					bad(in, "sends on a channel kept in package variable "+g.Name())
				}
			case *ssa.Select:
				for _, s := range x.States {
					if g := get(s.Chan); g != nil {
						bad(in, "uses a channel kept in package variable "+g.Name())
					}
				}
			case ssa.CallInstruction:
				cc := x.Common()
				if b, ok := cc.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "copy", "append", "delete", "clear", "close":
						if g := get(cc.Args[0]); g != nil {
							bad(in, b.Name()+" changes memory of package variable "+g.Name())
						}
					}
					return
				}
				g := cc.StaticCallee()
				if g != nil && c.fns[g] {
					return
				}
				name := ""
				if g != nil {
					name = fullName(g)
				}
				if strings.HasPrefix(name, "sync/atomic.Load") || strings.HasPrefix(name, "(*sync/atomic.") && strings.HasSuffix(name, ".Load") || strings.HasPrefix(name, "runtime.KeepAlive") {
					return
				}
				if g == nil && !cc.IsInvoke() {
					if q := get(cc.Value); q != nil {
						bad(in, "calls a function kept in package variable "+q.Name())
					}
				}
				for _, a := range cc.Args {
					if q := get(a); q != nil {
						if pt, ok := a.Type().Underlying().(*types.Basic); ok && pt.Kind() == types.Uintptr {
							continue
						}
						bad(in, "passes memory of package variable "+q.Name()+" to "+name)
					}
				}
				if len(cc.Args) > 0 && g != nil && (strings.HasPrefix(name, "runtime.") && !strings.HasPrefix(name, "runtime.KeepAlive") && !strings.HasPrefix(name, "runtime.Gosched") && !strings.HasPrefix(name, "runtime.Num")) {
					bad(in, "calls "+name+", which changes process state")
				}
			}
		})
	})
}

// ---------- C15: read only ----------

func checkReadOnly(ps map[string]*Prog) *StructRes {
	return forArchs(ps, []string{"IsSortedSlice", "IsSortedLen", "IsSorted", "Search"}, "sortedness checks and Search are synchronous", func(c *code, r *StructRes) {
		bad := func(in ssa.Instruction, msg string) {
			r.Bad = append(r.Bad, Finding{"async", in.Parent().Name(), c.p.pos(in), msg, c.p.arch})
		}
		c.each(func(fn *ssa.Function, in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Go:
				bad(in, "starts a goroutine")
			case *ssa.MakeChan:
				bad(in, "makes a channel")
			case *ssa.Send, *ssa.Select:
				bad(in, "communicates over a channel")
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					bad(in, "receives from a channel")
				}
			case *ssa.Return:
				r.OK++
			}
		})
	})
}

// ---------- C19: casts ----------

// pointer words of a type
func ptrWords(t types.Type, sz types.Sizes) string {
	var w []string
	var walk func(t types.Type, off int64)
	walk = func(t types.Type, off int64) {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			if u.Kind() == types.UnsafePointer || u.Info()&types.IsString != 0 {
				w = append(w, fmt.Sprint(off))
			}
		case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature:
			w = append(w, fmt.Sprint(off))
		case *types.Interface:
			w = append(w, fmt.Sprint(off), fmt.Sprint(off+sz.Sizeof(types.Typ[types.Uintptr])))
		case *types.Array:
			for i := int64(0); i < u.Len() && i < 64; i++ {
				walk(u.Elem(), off+i*sz.Sizeof(u.Elem()))
			}
		case *types.Struct:
			var fs []*types.Var
			for i := 0; i < u.NumFields(); i++ {
				fs = append(fs, u.Field(i))
			}
			offs := sz.Offsetsof(fs)
			for i, f := range fs {
				walk(f.Type(), off+offs[i])
			}
		}
	}
	walk(t, 0)
	return strings.Join(w, ",")
}

func derefSlice(t types.Type) (elem types.Type, ok bool) {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	s, ok := p.Elem().Underlying().(*types.Slice)
	if !ok {
		return nil, false
	}
	return s.Elem(), true
}

func checkViews(ps map[string]*Prog) *StructRes {
	return forArchs(ps, exported, "casts between slice types keep element size and pointer words", func(c *code, r *StructRes) {
		c.each(func(fn *ssa.Function, in ssa.Instruction) {
			x, ok := in.(*ssa.Convert)
			if !ok {
				return
			}
			if b, ok := x.X.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.UnsafePointer {
				return
			}
			src, ok := x.X.(*ssa.Convert)
			if !ok {
				return
			}
			to, ok1 := derefSlice(x.Type())
			from, ok2 := derefSlice(src.X.Type())
			if !ok1 || !ok2 {
				r.OK++
				return
			}
			if c.p.sizes.Sizeof(to) != c.p.sizes.Sizeof(from) {
				r.Bad = append(r.Bad, Finding{"view", fn.Name(), c.p.pos(in), fmt.Sprintf("slice of %v is seen as slice of %v, which has another element size", from, to), c.p.arch})
			} else if ptrWords(to, c.p.sizes) != ptrWords(from, c.p.sizes) {
				r.Bad = append(r.Bad, Finding{"view", fn.Name(), c.p.pos(in), fmt.Sprintf("slice of %v is seen as slice of %v, which has pointers elsewhere", from, to), c.p.arch})
			} else {
				r.OK++
			}
		})
	})
}
