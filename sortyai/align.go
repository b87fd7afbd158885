package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C20: alignment of 64-bit atomics on 32-bit platforms ----------

// offset of the address from the start of the variable it is in; ok=false: unknown
func (c *code) varOffset(v ssa.Value) (off int64, base ssa.Value, ok bool) {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			st, o := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			if !o {
				return 0, nil, false
			}
			var fs []*types.Var
			for i := 0; i < st.NumFields(); i++ {
				fs = append(fs, st.Field(i))
			}
			off += c.p.sizes.Offsetsof(fs)[x.Field]
			v = x.X
		case *ssa.IndexAddr:
			var el types.Type
			switch t := x.X.Type().Underlying().(type) {
			case *types.Slice:
				el = t.Elem()
			case *types.Pointer:
				if a, o := t.Elem().Underlying().(*types.Array); o {
					el = a.Elem()
				}
			}
			if el == nil || c.p.sizes.Sizeof(el)%8 != 0 {
				return 0, nil, false
			}
			if _, o := x.X.Type().Underlying().(*types.Slice); o {
				return off, x.X, true
			}
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return off, v, true
		}
	}
}

func checkAlign(ps map[string]*Prog) *StructRes {
	r := &StructRes{Rule: "64-bit words used atomically are 8-aligned in their variables on 32-bit platforms"}
	p := ps["386"]
	if p == nil {
		return r
	}
	c := reach(p, exported)
	for f := range c.fns {
		r.Analysed = append(r.Analysed, f.Name())
	}
	// types whose pointers are assumed to point at the start of a variable
	whole := map[types.Type]string{}
	c.each(func(fn *ssa.Function, in ssa.Instruction) {
		call, ok := in.(ssa.CallInstruction)
		if !ok || call.Common().StaticCallee() == nil {
			return
		}
		cal := call.Common().StaticCallee()
		name := cal.String()
		if !strings.HasPrefix(name, "sync/atomic.") || !strings.HasSuffix(cal.Name(), "64") {
			return
		}
		off, base, ok := c.varOffset(call.Common().Args[0])
		switch {
		case !ok:
			r.Bad = append(r.Bad, Finding{"align", fn.Name(), p.pos(in), "alignment of a 64-bit word used atomically is not known", "386"})
		case off%8 != 0:
			r.Bad = append(r.Bad, Finding{"align", fn.Name(), p.pos(in), fmt.Sprintf("64-bit word used atomically is %d bytes from the start of its variable, not a multiple of 8", off), "386"})
		default:
			r.OK++
			switch base.(type) {
			case *ssa.Alloc, *ssa.Global, *ssa.MakeSlice:
			default:
				if pt, o := base.Type().Underlying().(*types.Pointer); o {
					whole[pt.Elem()] = p.pos(in)
				}
			}
		}
	})
	// pointers to such types are not taken in the middle of other variables
	c.each(func(fn *ssa.Function, in ssa.Instruction) {
		v, ok := in.(ssa.Value)
		if !ok {
			return
		}
		pt, ok := v.Type().Underlying().(*types.Pointer)
		if !ok {
			return
		}
		use := ""
		for t, u := range whole {
			if types.Identical(t, pt.Elem()) {
				use = u
			}
		}
		if use == "" {
			return
		}
		switch v.(type) {
		case *ssa.FieldAddr, *ssa.IndexAddr:
			if off, _, ok := c.varOffset(v); !ok || off%8 != 0 {
				// atomic use through the same expression has been looked at above
				for _, ref := range *v.Referrers() {
					if ci, o := ref.(ssa.CallInstruction); o && ci.Common().StaticCallee() != nil && strings.HasPrefix(ci.Common().StaticCallee().String(), "sync/atomic.") {
						return
					}
				}
				if b, o := pt.Elem().Underlying().(*types.Basic); o && b.Info()&types.IsInteger != 0 && onlyPlain(v) {
					return
				}
				r.Bad = append(r.Bad, Finding{"align", fn.Name(), p.pos(in), "pointer into the middle of a variable may reach the 64-bit atomic operation at " + use, "386"})
			}
		}
	})
	return r
}

// the address is only loaded from and stored to
func onlyPlain(v ssa.Value) bool {
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.UnOp:
		case *ssa.Store:
			if x.Val == v {
				return false
			}
		default:
			return false
		}
	}
	return true
}
