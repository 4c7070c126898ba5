package main

import (
	"go/token"
	"go/types"
	"reflect"
)

type tokenPos = token.Pos

// A small model of package reflect: enough for type registries and encoding/binary.

func (e *Engine) rtype(t types.Type) Value {
	if t == nil {
		return Iface{}
	}
	return Iface{t: e.rtypeT, v: RType{t}}
}

func rtypeArg(v Value) types.Type {
	i, ok := v.(Iface)
	if !ok || i.t == nil {
		return nil
	}
	return i.v.(RType).t
}

func kindOf(t types.Type) reflect.Kind {
	switch u := under(t).(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Struct:
		return reflect.Struct
	case *types.Array:
		return reflect.Array
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	}
	return reflect.Invalid
}

func elemType(t types.Type) types.Type {
	switch u := under(t).(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	}
	return nil
}

// rvPanic raises a Go panic like reflect would.
func rvPanic(e *Engine, msg string) {
	panic(goPanic{Iface{t: types.Typ[types.String], v: concStr(msg)}})
}

func (st *State) rvGet(r RValue) Value {
	if !r.valid {
		rvPanic(st.e, "reflect: call of method on zero Value")
	}
	if r.addr {
		return st.load(r.ptr)
	}
	return r.v
}

func init() {
	typeOf := func(c *CallCtx) (Value, bool) {
		return c.st.e.rtype(c.args[0].(Iface).t), true
	}
	reg("reflect.TypeOf", typeOf)
	reg("internal/reflectlite.ValueOf", func(c *CallCtx) (Value, bool) {
		i := c.args[0].(Iface)
		if i.t == nil {
			return RValue{}, true
		}
		return RValue{t: i.t, v: i.v, valid: true}, true
	})
	reg("internal/reflectlite.TypeOf", func(c *CallCtx) (Value, bool) {
		e := c.st.e
		t := c.args[0].(Iface).t
		if t == nil {
			return Iface{}, true
		}
		return Iface{t: e.rtypeT, v: RType{t}}, true
	})
	ptrTo := func(c *CallCtx) (Value, bool) { return c.st.e.rtype(types.NewPointer(rtypeArg(c.args[0]))), true }
	reg("reflect.PtrTo", ptrTo)
	reg("reflect.PointerTo", ptrTo)
	reg("reflect.New", func(c *CallCtx) (Value, bool) {
		t := rtypeArg(c.args[0])
		if t == nil {
			rvPanic(c.st.e, "reflect: New(nil)")
		}
		id := c.st.alloc(c.st.e.zero(c.st, t), "reflect.New")
		return RValue{t: types.NewPointer(t), v: Ptr{obj: id}, valid: true}, true
	})
	reg("reflect.Zero", func(c *CallCtx) (Value, bool) {
		t := rtypeArg(c.args[0])
		return RValue{t: t, v: c.st.e.zero(c.st, t), valid: true}, true
	})
	reg("reflect.ValueOf", func(c *CallCtx) (Value, bool) {
		i := c.args[0].(Iface)
		if i.t == nil {
			return RValue{}, true
		}
		return RValue{t: i.t, v: i.v, valid: true}, true
	})
	elem := func(st *State, r RValue) RValue {
		switch u := under(r.t).(type) {
		case *types.Pointer:
			p := st.rvGet(r).(Ptr)
			if p.obj == 0 {
				return RValue{}
			}
			return RValue{t: u.Elem(), ptr: p, addr: true, valid: true}
		case *types.Interface:
			i := st.rvGet(r).(Iface)
			if i.t == nil {
				return RValue{}
			}
			return RValue{t: i.t, v: i.v, valid: true}
		}
		rvPanic(st.e, "reflect: call of reflect.Value.Elem on "+r.t.String()+" Value")
		return RValue{}
	}
	reg("reflect.Indirect", func(c *CallCtx) (Value, bool) {
		r := c.args[0].(RValue)
		if !r.valid || kindOf(r.t) != reflect.Pointer {
			return r, true
		}
		return elem(c.st, r), true
	})
	rv := func(name string, f func(c *CallCtx, r RValue) Value) {
		h := func(c *CallCtx) (Value, bool) { return f(c, c.args[0].(RValue)), true }
		reg("(reflect.Value)."+name, h)
		reg("(internal/reflectlite.Value)."+name, h)
	}
	rv("Elem", func(c *CallCtx, r RValue) Value { return elem(c.st, r) })
	rv("Interface", func(c *CallCtx, r RValue) Value {
		v := c.st.rvGet(r)
		if i, ok := v.(Iface); ok {
			return i
		}
		return Iface{t: r.t, v: freeze(v)}
	})
	rv("Kind", func(c *CallCtx, r RValue) Value {
		if !r.valid {
			return kindTerm(c, 0)
		}
		return kindTerm(c, kindOf(r.t))
	})
	rv("Type", func(c *CallCtx, r RValue) Value {
		if !r.valid {
			rvPanic(c.st.e, "reflect: call of reflect.Value.Type on zero Value")
		}
		return c.st.e.rtype(r.t)
	})
	rv("IsValid", func(c *CallCtx, r RValue) Value { return mkBool(r.valid) })
	rv("CanSet", func(c *CallCtx, r RValue) Value { return mkBool(r.addr) })
	rv("CanAddr", func(c *CallCtx, r RValue) Value { return mkBool(r.addr) })
	rv("CanInterface", func(c *CallCtx, r RValue) Value { return mkBool(r.valid) })
	rv("Addr", func(c *CallCtx, r RValue) Value { return RValue{t: types.NewPointer(r.t), v: r.ptr, valid: true} })
	rv("NumField", func(c *CallCtx, r RValue) Value { return term64(under(r.t).(*types.Struct).NumFields()) })
	rv("Field", func(c *CallCtx, r RValue) Value {
		s, ok := under(r.t).(*types.Struct)
		if !ok {
			rvPanic(c.st.e, "reflect: call of reflect.Value.Field on non-struct Value")
		}
		i := c.int(1)
		if r.addr {
			return RValue{t: s.Field(i).Type(), ptr: Ptr{obj: r.ptr.obj, path: pathAdd(r.ptr.path, i)}, addr: true, valid: true}
		}
		return RValue{t: s.Field(i).Type(), v: r.v.(*Agg).elems[i], valid: true}
	})
	rv("Len", func(c *CallCtx, r RValue) Value {
		switch v := c.st.rvGet(r).(type) {
		case Slice:
			return term64(v.len)
		case *Agg:
			return term64(len(v.elems))
		case *Str:
			return term64(v.len())
		}
		unsup("reflect Len")
		return nil
	})
	rv("Index", func(c *CallCtx, r RValue) Value {
		i := c.int(1)
		et := elemType(r.t)
		if r.addr {
			if _, ok := under(r.t).(*types.Array); ok {
				return RValue{t: et, ptr: Ptr{obj: r.ptr.obj, path: pathAdd(r.ptr.path, i)}, addr: true, valid: true}
			}
		}
		switch v := c.st.rvGet(r).(type) {
		case Slice:
			if i < 0 || i >= v.len {
				rvPanic(c.st.e, "reflect: slice index out of range")
			}
			return RValue{t: et, ptr: Ptr{obj: v.obj, path: pathAdd(v.path, v.off+i)}, addr: true, valid: true}
		case *Agg:
			return RValue{t: et, v: v.elems[i], valid: true}
		}
		unsup("reflect Index")
		return nil
	})
	rv("IsNil", func(c *CallCtx, r RValue) Value {
		switch v := c.st.rvGet(r).(type) {
		case Ptr:
			return mkBool(v.obj == 0)
		case Slice:
			return mkBool(v.obj == 0)
		case MapRef:
			return mkBool(v == 0)
		case ChanRef:
			return mkBool(v == 0)
		case Iface:
			return mkBool(v.t == nil)
		case *Closure:
			return mkBool(v == nil)
		}
		unsup("reflect IsNil")
		return nil
	})
	ext := func(c *CallCtx, r RValue) Value {
		_, signed, _ := intWidth(r.t)
		return resize(c.st.rvGet(r).(*Term), 64, signed)
	}
	rv("Uint", ext)
	rv("Int", ext)
	rv("Bool", func(c *CallCtx, r RValue) Value { return c.st.rvGet(r) })
	rv("String", func(c *CallCtx, r RValue) Value { return c.st.rvGet(r) })
	rv("Bytes", func(c *CallCtx, r RValue) Value { return c.st.rvGet(r) })
	rv("Float", func(c *CallCtx, r RValue) Value { return Float{c.st.rvGet(r).(Float).v, false} })
	setN := func(c *CallCtx, r RValue) Value {
		if !r.addr {
			rvPanic(c.st.e, "reflect: reflect.Value.Set using unaddressable value")
		}
		w, _, _ := intWidth(r.t)
		c.st.store(r.ptr, resize(c.term(1), w, false))
		return nil
	}
	rv("SetUint", setN)
	rv("SetInt", setN)
	rv("SetBool", func(c *CallCtx, r RValue) Value { c.st.store(r.ptr, c.args[1]); return nil })
	rv("SetString", func(c *CallCtx, r RValue) Value { c.st.store(r.ptr, c.args[1]); return nil })
	rv("SetBytes", func(c *CallCtx, r RValue) Value { c.st.store(r.ptr, c.args[1]); return nil })
	rv("SetFloat", func(c *CallCtx, r RValue) Value {
		f32, _ := isFloat(r.t)
		c.st.store(r.ptr, Float{c.args[1].(Float).v, f32})
		return nil
	})
	rv("Set", func(c *CallCtx, r RValue) Value {
		if !r.addr {
			rvPanic(c.st.e, "reflect: reflect.Value.Set using unaddressable value")
		}
		o := c.args[1].(RValue)
		v := c.st.rvGet(o)
		if _, isI := under(r.t).(*types.Interface); isI {
			if _, already := v.(Iface); !already {
				v = Iface{t: o.t, v: v}
			}
		}
		c.st.store(r.ptr, v)
		return nil
	})

	// reflect.Type methods (interface calls on the model's *rtype)
	rt := func(name string, f func(c *CallCtx, t types.Type) Value) {
		natives["rtype."+name] = func(c *CallCtx) (Value, bool) { return f(c, c.args[0].(RType).t), true }
	}
	rt("Elem", func(c *CallCtx, t types.Type) Value {
		et := elemType(t)
		if et == nil {
			rvPanic(c.st.e, "reflect: Elem of invalid type "+t.String())
		}
		return c.st.e.rtype(et)
	})
	rt("Kind", func(c *CallCtx, t types.Type) Value { return kindTerm(c, kindOf(t)) })
	rt("Comparable", func(c *CallCtx, t types.Type) Value { return mkBool(types.Comparable(t)) })
	rt("Name", func(c *CallCtx, t types.Type) Value {
		switch n := t.(type) {
		case *types.Named:
			return concStr(n.Obj().Name())
		case *types.Basic:
			return concStr(n.Name())
		}
		return concStr("")
	})
	rt("String", func(c *CallCtx, t types.Type) Value {
		return concStr(types.TypeString(t, func(p *types.Package) string { return p.Name() }))
	})
	rt("PkgPath", func(c *CallCtx, t types.Type) Value {
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return concStr(n.Obj().Pkg().Path())
		}
		return concStr("")
	})
	rt("Size", func(c *CallCtx, t types.Type) Value { return term64(int(c.st.e.sizes.Sizeof(t))) })
	rt("Len", func(c *CallCtx, t types.Type) Value { return term64(int(under(t).(*types.Array).Len())) })
	rt("NumField", func(c *CallCtx, t types.Type) Value { return term64(under(t).(*types.Struct).NumFields()) })
	rt("Field", func(c *CallCtx, t types.Type) Value {
		s, ok := under(t).(*types.Struct)
		i := c.int(1)
		if !ok || i < 0 || i >= s.NumFields() {
			rvPanic(c.st.e, "reflect: Field index out of bounds")
		}
		ft := c.st.e.structFieldT
		a := c.st.e.zero(c.st, ft).(*Agg)
		elems := append([]Value(nil), a.elems...)
		for j, fs := 0, under(ft).(*types.Struct); j < fs.NumFields(); j++ {
			switch fs.Field(j).Name() {
			case "Name":
				elems[j] = concStr(s.Field(i).Name())
			case "PkgPath":
				if !s.Field(i).Exported() && s.Field(i).Pkg() != nil {
					elems[j] = concStr(s.Field(i).Pkg().Path())
				}
			case "Type":
				elems[j] = c.st.e.rtype(s.Field(i).Type())
			case "Tag":
				elems[j] = concStr(s.Tag(i))
			case "Anonymous":
				elems[j] = mkBool(s.Field(i).Anonymous())
			}
		}
		return freeze(&Agg{elems: elems})
	})
	rt("Implements", func(c *CallCtx, t types.Type) Value {
		return mkBool(c.st.e.implements(t, rtypeArg(c.args[1])))
	})
	rt("AssignableTo", func(c *CallCtx, t types.Type) Value {
		return mkBool(types.AssignableTo(t, rtypeArg(c.args[1])))
	})
}

// kindTerm gives a reflect.Kind (an uint) or the narrower kind of internal/reflectlite.
func kindTerm(c *CallCtx, k reflect.Kind) Value {
	w := uint8(64)
	if c.instr != nil {
		if n, _, ok := intWidth(c.instr.Type()); ok {
			w = n
		}
	}
	return mkConst(w, uint64(k))
}
