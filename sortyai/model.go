package main

import (
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- run time type information ----------

type TModel struct{ T types.Type }

func modelOf(t types.Type) *TModel { return &TModel{t} }

func (m *TModel) kind() reflect.Kind {
	switch u := m.T.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func (m *TModel) elem() *TModel {
	switch u := m.T.Underlying().(type) {
	case *types.Array:
		return &TModel{u.Elem()}
	case *types.Chan:
		return &TModel{u.Elem()}
	case *types.Map:
		return &TModel{u.Elem()}
	case *types.Pointer:
		return &TModel{u.Elem()}
	case *types.Slice:
		return &TModel{u.Elem()}
	}
	return nil
}

func (e *Engine) invoke(st *State, c *ssa.CallCommon, args []Val, rt types.Type) []Out {
	switch x := e.val(st, c.Value).(type) {
	case VType:
		return e.typeMethod(st, x.M, c.Method.Name(), args, rt)
	case VNil:
		e.check(st, "panic", false, "method call on a nil interface")
		return nil
	}
	e.giveUp("method call on an unknown interface")
	return nil
}

func (e *Engine) typeMethod(st *State, m *TModel, name string, args []Val, rt types.Type) []Out {
	one := func(v Val) []Out { return []Out{{st, v}} }
	switch name {
	case "Kind":
		return one(VInt{K(int64(m.kind())), e.its["uint"], false})
	case "Elem":
		if n := m.elem(); n != nil {
			return one(VType{n})
		}
		e.check(st, "panic", false, "reflect: Elem of a type without elements")
		return nil
	case "Size":
		return one(VInt{K(sizeOf(e, m.T)), e.its["uintptr"], false})
	case "String", "Name":
		return one(VUnk{"type name"})
	}
	e.giveUp("reflect.Type method " + name)
	return nil
}

func (e *Engine) reflectCall(st *State, fn *ssa.Function, args []Val, rt types.Type) []Out {
	one := func(v Val) []Out { return []Out{{st, v}} }
	name := fn.Name()
	if fn.Signature.Recv() == nil && len(args) > 0 {
		switch name {
		case "TypeOf":
			switch a := args[0].(type) {
			case VAny:
				return one(VType{a.M})
			case VNil:
				return one(VNil{})
			}
		case "ValueOf":
			switch a := args[0].(type) {
			case VAny:
				return one(VRVal{&a})
			case VNil:
				return one(VRVal{})
			}
		}
		e.giveUp("reflect." + name)
	}
	v, ok := args[0].(VRVal)
	if !ok {
		e.giveUp("method on an unknown reflect.Value")
	}
	if v.A == nil {
		switch name {
		case "IsValid":
			return one(VBool{condF})
		case "Kind":
			return one(VInt{K(0), e.its["uint"], false})
		}
		e.check(st, "panic", false, "reflect."+name+" on a zero Value")
		return nil
	}
	sl, isSl := v.A.Inner.(VSlice)
	switch name {
	case "IsValid":
		return one(VBool{condT})
	case "Type":
		return one(VType{v.A.M})
	case "Kind":
		return one(VInt{K(int64(v.A.M.kind())), e.its["uint"], false})
	case "Len":
		if isSl {
			return one(VInt{sl.Len, e.its["int"], false})
		}
	case "Cap":
		if isSl {
			return one(VInt{sl.Cap, e.its["int"], false})
		}
	case "Pointer", "UnsafePointer":
		if isSl {
			return one(VElemPtr{sl.R, sl.Off, sl.Elem})
		}
	case "IsNil":
		return one(VBool{condU})
	}
	if _, known := v.A.Inner.(VUnk); known && (name == "Len" || name == "Cap" || strings.HasSuffix(name, "Pointer")) {
		e.check(st, "panic", false, "reflect."+name+" on an unsupported value")
		return nil
	}
	e.giveUp("reflect.Value method " + name)
	return nil
}

func (e *Engine) typeAssert(st *State, x *ssa.TypeAssert) []*State {
	set := func(v Val, ok bool) []*State {
		if x.CommaOk {
			c := condF
			if ok {
				c = condT
			}
			e.setv(st, x, VTuple{v, VBool{c}})
		} else {
			e.setv(st, x, v)
		}
		return []*State{st}
	}
	no := func() []*State {
		if x.CommaOk {
			return set(e.zero(x.AssertedType), false)
		}
		e.check(st, "panic", false, "type assertion fails")
		return nil
	}
	switch a := e.val(st, x.X).(type) {
	case VNil:
		return no()
	case VAny:
		if it, ok := x.AssertedType.Underlying().(*types.Interface); ok {
			if types.Implements(a.M.T, it) {
				return set(a, true)
			}
			return no()
		}
		if types.Identical(a.M.T, x.AssertedType) {
			return set(a.Inner, true)
		}
		return no()
	}
	e.giveUp("type assertion on an unknown interface")
	return nil
}

// equal leaf values (anything without symbols or dimensions)
func valEqual(a, b Val) bool {
	switch x := a.(type) {
	case VType:
		y, ok := b.(VType)
		return ok && types.Identical(x.M.T, y.M.T)
	case VRVal:
		y, ok := b.(VRVal)
		if !ok || (x.A == nil) != (y.A == nil) {
			return false
		}
		return x.A == nil || valEqual(*x.A, *y.A)
	case VAny:
		y, ok := b.(VAny)
		if !ok || !types.Identical(x.M.T, y.M.T) {
			return false
		}
		if s, ok := x.Inner.(VSlice); ok {
			t, ok := y.Inner.(VSlice)
			return ok && s.R == t.R && s.Off.Eq(t.Off) && s.Len.Eq(t.Len)
		}
		return valEqual(x.Inner, y.Inner)
	}
	return reflect.DeepEqual(a, b)
}
