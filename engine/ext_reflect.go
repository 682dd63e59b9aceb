package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// A model of package reflect over the interpreter's values, complete enough to execute the real
// encoding/json. A reflect.Value is the struct {typ_ *abi.Type; ptr unsafe.Pointer; flag}: typ_
// holds the canonical cell of the type and ptr a cell with an *rv.

type rv struct {
	t    types.Type
	v    value
	addr *value // non-nil: addressable, the value lives there
	ro   bool   // obtained through unexported fields
}

type rmapIter struct {
	m    *Map
	t    *types.Map
	ents []*mapEntry
	i    int
}

var rtMu sync.Mutex
var rtCells typeutil.Map
var rtTypes = map[*value]types.Type{}

func rtCell(t types.Type) *value {
	rtMu.Lock()
	defer rtMu.Unlock()
	if c, ok := rtCells.At(t).(*value); ok {
		return c
	}
	c := new(value)
	rtCells.Set(t, c)
	rtTypes[c] = t
	return c
}

func rtOf(v value) types.Type {
	c, _ := v.(*value)
	rtMu.Lock()
	defer rtMu.Unlock()
	t, ok := rtTypes[c]
	if !ok {
		panic(unsupported{"reflect: unknown type descriptor"})
	}
	return t
}

func (w *W) reflectNamed(name string) types.Type {
	p := w.sh.prog.ImportedPackage("reflect")
	if p == nil {
		panic(unsupported{"reflect not loaded"})
	}
	return p.Pkg.Scope().Lookup(name).Type()
}

func (w *W) rtype(t types.Type) value {
	if t == nil {
		return iface{}
	}
	return iface{t: types.NewPointer(w.reflectNamed("rtype")), v: rtCell(t)}
}

func (w *W) mkRV(r *rv) value {
	if r == nil || r.t == nil {
		return structure{(*value)(nil), (*value)(nil), w.tc.BV(64, 0)}
	}
	c := new(value)
	*c = r
	return structure{rtCell(r.t), c, w.tc.BV(64, uint64(rkind(r.t)))}
}

func getRV(v value) *rv {
	s := v.(structure)
	c, _ := s[1].(*value)
	if c == nil {
		return nil
	}
	r, ok := (*c).(*rv)
	if !ok {
		panic(unsupported{"reflect: foreign reflect.Value"})
	}
	return r
}

func (w *W) needRV(v value, op string) *rv {
	r := getRV(v)
	if r == nil {
		w.goPanicStr("reflect: call of reflect.Value." + op + " on zero Value")
	}
	return r
}

func (r *rv) get() value {
	if r.addr != nil {
		return copyVal(*r.addr)
	}
	return r.v
}

func (w *W) rset(r *rv, v value, op string) {
	if r.addr == nil || r.ro {
		w.goPanicStr("reflect: reflect.Value." + op + " using unaddressable value")
	}
	w.storeCell(r.addr, v)
}

func rkind(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return reflect.Bool
		case types.Int, types.UntypedInt:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32, types.UntypedRune:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64, types.UntypedFloat:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String, types.UntypedString:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func rtString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (w *W) rfield(st *types.Struct, i int) value {
	f := st.Field(i)
	pkg := ""
	if !f.Exported() && f.Pkg() != nil {
		pkg = f.Pkg().Path()
	}
	return structure{
		str{s: f.Name()}, str{s: pkg}, w.rtype(f.Type()), str{s: st.Tag(i)},
		w.tc.BV(64, uint64(8*i)), []value{w.tc.BV(64, uint64(i))}, w.tc.Bool(f.Embedded()),
	}
}

func (w *W) risNil(v value) bool {
	switch x := v.(type) {
	case *value:
		return x == nil
	case []value:
		return x == nil
	case *Map:
		return x == nil
	case *Chan:
		return x == nil
	case iface:
		return x.t == nil
	case nil:
		return true
	case *ssa.Function:
		return x == nil
	}
	return false
}

func (w *W) risZero(v value) *Term {
	switch x := forced(v).(type) {
	case *Term:
		if x.w == 0 {
			return w.tc.Not(x)
		}
		return w.tc.Eq(x, w.tc.BV(x.w, 0))
	case str:
		return w.tc.Bool(x.len() == 0)
	case float64:
		return w.tc.Bool(x == 0)
	case float32:
		return w.tc.Bool(x == 0)
	case structure:
		r := w.tc.T
		for _, e := range x {
			r = w.tc.And(r, w.risZero(e))
		}
		return r
	case array:
		r := w.tc.T
		for _, e := range x {
			r = w.tc.And(r, w.risZero(e))
		}
		return r
	}
	return w.tc.Bool(w.risNil(v))
}

// rassign returns r's value as a value of type t (conversion to an interface when needed).
func (w *W) rassign(r *rv, t types.Type) value {
	_, dstI := t.Underlying().(*types.Interface)
	_, srcI := r.t.Underlying().(*types.Interface)
	if dstI && !srcI {
		return iface{t: r.t, v: copyVal(r.get())}
	}
	return copyVal(r.get())
}

func init() {
	type rargs = []value
	rt := func(name string, f func(w *W, t types.Type, a rargs) value) {
		reg("(*reflect.rtype)."+name, func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
			return f(w, rtOf(args[0]), args[1:])
		})
	}
	val := func(name string, f func(w *W, r *rv, a rargs) value) {
		reg("(reflect.Value)."+name, func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
			return f(w, w.needRV(args[0], name), args[1:])
		})
	}
	num := func(w *W, n int) value { return w.tc.BV(64, uint64(int64(n))) }

	// ---- types ----
	reg("reflect.TypeOf", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		return w.rtype(args[0].(iface).t)
	})
	reg("reflect.TypeFor", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		return w.rtype(fn.TypeArgs()[0])
	})
	reg("reflect.PointerTo reflect.PtrTo", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		return w.rtype(types.NewPointer(rtOf(args[0].(iface).v)))
	})
	reg("reflect.SliceOf", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		return w.rtype(types.NewSlice(rtOf(args[0].(iface).v)))
	})
	rt("Kind", func(w *W, t types.Type, a rargs) value { return num(w, int(rkind(t))) })
	rt("String", func(w *W, t types.Type, a rargs) value { return str{s: rtString(t)} })
	rt("Name", func(w *W, t types.Type, a rargs) value {
		switch n := types.Unalias(t).(type) {
		case *types.Named:
			return str{s: n.Obj().Name()}
		case *types.Basic:
			return str{s: n.Name()}
		}
		return str{}
	})
	rt("PkgPath", func(w *W, t types.Type, a rargs) value {
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			return str{s: n.Obj().Pkg().Path()}
		}
		return str{}
	})
	rt("Elem", func(w *W, t types.Type, a rargs) value {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return w.rtype(u.Elem())
		case *types.Slice:
			return w.rtype(u.Elem())
		case *types.Array:
			return w.rtype(u.Elem())
		case *types.Map:
			return w.rtype(u.Elem())
		case *types.Chan:
			return w.rtype(u.Elem())
		}
		w.goPanicStr("reflect: Elem of invalid type " + rtString(t))
		return nil
	})
	rt("Key", func(w *W, t types.Type, a rargs) value { return w.rtype(t.Underlying().(*types.Map).Key()) })
	rt("Len", func(w *W, t types.Type, a rargs) value { return num(w, int(t.Underlying().(*types.Array).Len())) })
	rt("NumField", func(w *W, t types.Type, a rargs) value { return num(w, t.Underlying().(*types.Struct).NumFields()) })
	rt("Field", func(w *W, t types.Type, a rargs) value {
		return w.rfield(t.Underlying().(*types.Struct), int(w.concretize(a[0].(*Term))))
	})
	rt("FieldByName", func(w *W, t types.Type, a rargs) value {
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == argStr(a[0]) {
				return tuple{w.rfield(st, i), w.tc.T}
			}
		}
		panic(unsupported{"reflect.Type.FieldByName of a promoted or absent field"})
	})
	rt("NumMethod", func(w *W, t types.Type, a rargs) value {
		if it, ok := t.Underlying().(*types.Interface); ok {
			return num(w, it.NumMethods())
		}
		n := 0
		ms := w.sh.prog.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				n++
			}
		}
		return num(w, n)
	})
	rt("Implements", func(w *W, t types.Type, a rargs) value {
		it := rtOf(a[0].(iface).v).Underlying().(*types.Interface)
		return w.tc.Bool(w.implements(t, it))
	})
	rt("AssignableTo", func(w *W, t types.Type, a rargs) value {
		return w.tc.Bool(types.AssignableTo(t, rtOf(a[0].(iface).v)))
	})
	rt("ConvertibleTo", func(w *W, t types.Type, a rargs) value {
		return w.tc.Bool(types.ConvertibleTo(t, rtOf(a[0].(iface).v)))
	})
	rt("Comparable", func(w *W, t types.Type, a rargs) value { return w.tc.Bool(types.Comparable(t)) })
	rt("Bits", func(w *W, t types.Type, a rargs) value {
		switch rkind(t) {
		case reflect.Float32:
			return num(w, 32)
		case reflect.Float64:
			return num(w, 64)
		}
		return num(w, int(intWidth(t)))
	})
	ovf := func(signed bool) func(w *W, t types.Type, a rargs) value {
		return func(w *W, t types.Type, a rargs) value {
			x := a[0].(*Term)
			bw := intWidth(t)
			if bw >= 64 {
				return w.tc.F
			}
			lo := w.tc.Extract(x, bw-1, 0)
			var back *Term
			if signed {
				back = w.tc.Sext(lo, 64)
			} else {
				back = w.tc.Zext(lo, 64)
			}
			return w.tc.Not(w.tc.Eq(back, x))
		}
	}
	rt("OverflowInt", ovf(true))
	rt("OverflowUint", ovf(false))
	val("OverflowInt", func(w *W, r *rv, a rargs) value { return ovf(true)(w, r.t, a) })
	val("OverflowUint", func(w *W, r *rv, a rargs) value { return ovf(false)(w, r.t, a) })
	val("OverflowFloat", func(w *W, r *rv, a rargs) value { return w.tc.F })
	rt("OverflowFloat", func(w *W, t types.Type, a rargs) value { return w.tc.F })

	// ---- values ----
	reg("reflect.ValueOf", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		it := args[0].(iface)
		if it.t == nil {
			return w.mkRV(nil)
		}
		return w.mkRV(&rv{t: it.t, v: copyVal(it.v)})
	})
	reg("reflect.New", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		t := rtOf(args[0].(iface).v)
		c := new(value)
		*c = w.zero(t)
		return w.mkRV(&rv{t: types.NewPointer(t), v: c})
	})
	reg("reflect.Zero", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		t := rtOf(args[0].(iface).v)
		return w.mkRV(&rv{t: t, v: w.zero(t)})
	})
	reg("reflect.Indirect", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		r := getRV(args[0])
		if r == nil || rkind(r.t) != reflect.Pointer {
			return args[0]
		}
		return w.relem(r)
	})
	reg("reflect.MakeSlice", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		t := rtOf(args[0].(iface).v)
		n, c := int(w.concretize(args[1].(*Term))), int(w.concretize(args[2].(*Term)))
		s := make([]value, n, c)
		for i := range s[:c] {
			s[:c][i] = w.zero(t.Underlying().(*types.Slice).Elem())
		}
		return w.mkRV(&rv{t: t, v: s})
	})
	reg("reflect.MakeMap reflect.MakeMapWithSize", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		t := rtOf(args[0].(iface).v)
		return w.mkRV(&rv{t: t, v: newMap(t.Underlying().(*types.Map).Key())})
	})
	reg("reflect.Append", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		r := w.needRV(args[0], "Append")
		el := r.t.Underlying().(*types.Slice).Elem()
		s, _ := r.get().([]value)
		n := append([]value{}, s...)
		va, _ := args[1].([]value)
		for _, x := range va {
			n = append(n, w.rassign(w.needRV(x, "Append"), el))
		}
		return w.mkRV(&rv{t: r.t, v: n})
	})
	reg("reflect.Copy", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		d, s := w.needRV(args[0], "Copy"), w.needRV(args[1], "Copy")
		ds, _ := d.get().([]value)
		ss, _ := s.get().([]value)
		n := min(len(ds), len(ss))
		for i := 0; i < n; i++ {
			w.storeCell(&ds[i], copyVal(ss[i]))
		}
		return num(w, n)
	})
	reg("reflect.TypeAssert", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		r := w.needRV(args[0], "TypeAssert")
		T := fn.TypeArgs()[0]
		v := r.get()
		t := r.t
		if it, ok := v.(iface); ok && rkind(t) == reflect.Interface {
			t, v = it.t, it.v
			if t == nil {
				return tuple{w.zero(T), w.tc.F}
			}
		}
		if it, ok := T.Underlying().(*types.Interface); ok {
			if w.implements(t, it) {
				return tuple{iface{t: t, v: copyVal(v)}, w.tc.T}
			}
			return tuple{w.zero(T), w.tc.F}
		}
		if types.Identical(t, T) {
			return tuple{copyVal(v), w.tc.T}
		}
		return tuple{w.zero(T), w.tc.F}
	})
	reg("(reflect.Value).IsValid", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		return w.tc.Bool(getRV(args[0]) != nil)
	})
	reg("(reflect.Value).Kind", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		r := getRV(args[0])
		if r == nil {
			return num(w, 0)
		}
		return num(w, int(rkind(r.t)))
	})
	val("Type", func(w *W, r *rv, a rargs) value { return w.rtype(r.t) })
	val("CanAddr", func(w *W, r *rv, a rargs) value { return w.tc.Bool(r.addr != nil) })
	val("CanSet", func(w *W, r *rv, a rargs) value { return w.tc.Bool(r.addr != nil && !r.ro) })
	val("CanInterface", func(w *W, r *rv, a rargs) value { return w.tc.Bool(!r.ro) })
	val("NumMethod", func(w *W, r *rv, a rargs) value {
		t := r.t
		if it, ok := t.Underlying().(*types.Interface); ok {
			return num(w, it.NumMethods())
		}
		n := 0
		ms := w.sh.prog.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				n++
			}
		}
		return num(w, n)
	})
	val("Addr", func(w *W, r *rv, a rargs) value {
		if r.addr == nil {
			w.goPanicStr("reflect.Value.Addr of unaddressable value")
		}
		return w.mkRV(&rv{t: types.NewPointer(r.t), v: r.addr, ro: r.ro})
	})
	val("Interface", func(w *W, r *rv, a rargs) value {
		if r.ro {
			w.goPanicStr("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		v := r.get()
		if it, ok := v.(iface); ok && rkind(r.t) == reflect.Interface {
			return it
		}
		return iface{t: r.t, v: copyVal(v)}
	})
	val("Elem", func(w *W, r *rv, a rargs) value { return w.relem(r) })
	val("IsNil", func(w *W, r *rv, a rargs) value { return w.tc.Bool(w.risNil(r.get())) })
	val("IsZero", func(w *W, r *rv, a rargs) value { return w.risZero(r.get()) })
	val("Len", func(w *W, r *rv, a rargs) value {
		switch x := r.get().(type) {
		case []value:
			return num(w, len(x))
		case array:
			return num(w, len(x))
		case str:
			return num(w, x.len())
		case *Map:
			if x == nil {
				return num(w, 0)
			}
			return num(w, x.n)
		case *Chan:
			return num(w, len(x.buf))
		}
		panic(unsupported{"reflect Len"})
	})
	val("Cap", func(w *W, r *rv, a rargs) value {
		switch x := r.get().(type) {
		case []value:
			return num(w, cap(x))
		case array:
			return num(w, len(x))
		}
		panic(unsupported{"reflect Cap"})
	})
	val("Index", func(w *W, r *rv, a rargs) value {
		i := a[0].(*Term)
		switch u := r.t.Underlying().(type) {
		case *types.Slice:
			s, _ := r.get().([]value)
			w.boundsCheck(i, len(s))
			return w.mkRV(&rv{t: u.Elem(), addr: &s[w.concretize(i)], ro: r.ro})
		case *types.Array:
			if r.addr != nil {
				s := (*r.addr).(array)
				w.boundsCheck(i, len(s))
				return w.mkRV(&rv{t: u.Elem(), addr: &s[w.concretize(i)], ro: r.ro})
			}
			s := r.v.(array)
			w.boundsCheck(i, len(s))
			return w.mkRV(&rv{t: u.Elem(), v: copyVal(s[w.concretize(i)]), ro: r.ro})
		case *types.Basic:
			s := r.get().(str)
			w.boundsCheck(i, s.len())
			return w.mkRV(&rv{t: types.Typ[types.Uint8], v: w.strByte(s, int(w.concretize(i)))})
		}
		panic(unsupported{"reflect Index of " + r.t.String()})
	})
	field := func(w *W, r *rv, i int) *rv {
		st := r.t.Underlying().(*types.Struct)
		f := st.Field(i)
		ro := r.ro || (!f.Exported() && !f.Embedded()) || (!f.Exported() && f.Embedded() && rkind(f.Type()) != reflect.Struct)
		if r.addr != nil {
			return &rv{t: f.Type(), addr: &(*r.addr).(structure)[i], ro: ro}
		}
		return &rv{t: f.Type(), v: copyVal(r.v.(structure)[i]), ro: ro}
	}
	val("NumField", func(w *W, r *rv, a rargs) value { return num(w, r.t.Underlying().(*types.Struct).NumFields()) })
	val("Field", func(w *W, r *rv, a rargs) value { return w.mkRV(field(w, r, int(w.concretize(a[0].(*Term))))) })
	val("FieldByName", func(w *W, r *rv, a rargs) value {
		obj, idx, _ := types.LookupFieldOrMethod(r.t, true, nil, argStr(a[0]))
		if _, ok := obj.(*types.Var); !ok {
			return w.mkRV(nil)
		}
		for n, i := range idx {
			if n > 0 && rkind(r.t) == reflect.Pointer {
				r = getRV(w.relem(r))
			}
			r = field(w, r, i)
		}
		return w.mkRV(r)
	})
	val("Bool", func(w *W, r *rv, a rargs) value { return r.get() })
	val("Int", func(w *W, r *rv, a rargs) value { return w.tc.Sext(r.get().(*Term), 64) })
	val("Uint", func(w *W, r *rv, a rargs) value { return w.tc.Zext(r.get().(*Term), 64) })
	val("Float", func(w *W, r *rv, a rargs) value {
		switch x := r.get().(type) {
		case float32:
			return float64(x)
		default:
			return x
		}
	})
	reg("(reflect.Value).String", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		r := getRV(args[0])
		if r == nil {
			return str{s: "<invalid Value>"}
		}
		if s, ok := r.get().(str); ok {
			return s
		}
		return str{s: "<" + rtString(r.t) + " Value>"}
	})
	val("Bytes", func(w *W, r *rv, a rargs) value {
		switch x := r.get().(type) {
		case []value:
			return x
		case array:
			if r.addr != nil {
				return []value((*r.addr).(array))
			}
		}
		panic(unsupported{"reflect Bytes of " + r.t.String()})
	})
	val("UnsafePointer", func(w *W, r *rv, a rargs) value {
		switch x := r.get().(type) {
		case *value:
			return x
		case *Map:
			c, ok := w.side[x].(*value)
			if !ok {
				c = new(value)
				w.side[x] = c
			}
			return c
		case []value:
			if len(x) > 0 {
				return &x[0]
			}
			return (*value)(nil)
		}
		panic(unsupported{"reflect UnsafePointer"})
	})
	val("Set", func(w *W, r *rv, a rargs) value {
		x := w.needRV(a[0], "Set")
		if !types.AssignableTo(x.t, r.t) {
			w.goPanicMsg("reflect.Set: value of type " + rtString(x.t) + " is not assignable to type " + rtString(r.t))
		}
		w.rset(r, w.rassign(x, r.t), "Set")
		return nil
	})
	val("SetZero", func(w *W, r *rv, a rargs) value { w.rset(r, w.zero(r.t), "SetZero"); return nil })
	val("SetBool", func(w *W, r *rv, a rargs) value { w.rset(r, a[0], "SetBool"); return nil })
	setInt := func(w *W, r *rv, a rargs) value {
		bw := intWidth(r.t)
		x := a[0].(*Term)
		if bw < 64 {
			x = w.tc.Extract(x, bw-1, 0)
		}
		w.rset(r, x, "SetInt")
		return nil
	}
	val("SetInt", setInt)
	val("SetUint", setInt)
	val("SetFloat", func(w *W, r *rv, a rargs) value {
		if rkind(r.t) == reflect.Float32 {
			w.rset(r, float32(forced(a[0]).(float64)), "SetFloat")
		} else {
			w.rset(r, a[0], "SetFloat")
		}
		return nil
	})
	val("SetString", func(w *W, r *rv, a rargs) value { w.rset(r, a[0], "SetString"); return nil })
	val("SetBytes", func(w *W, r *rv, a rargs) value { w.rset(r, a[0], "SetBytes"); return nil })
	val("SetLen", func(w *W, r *rv, a rargs) value {
		s, _ := r.get().([]value)
		n := int(w.concretize(a[0].(*Term)))
		if n < 0 || n > cap(s) {
			w.goPanicStr("reflect: slice length out of range in SetLen")
		}
		w.rset(r, s[:n], "SetLen")
		return nil
	})
	grow := func(w *W, r *rv, n int) {
		s, _ := r.get().([]value)
		if len(s)+n <= cap(s) {
			return
		}
		c := growCap(cap(s), len(s)+n)
		ns := make([]value, len(s), c)
		copy(ns, s)
		el := r.t.Underlying().(*types.Slice).Elem()
		for i := len(s); i < c; i++ {
			ns[:c][i] = w.zero(el)
		}
		w.rset(r, ns, "Grow")
	}
	val("Grow", func(w *W, r *rv, a rargs) value { grow(w, r, int(w.concretize(a[0].(*Term)))); return nil })
	val("SetMapIndex", func(w *W, r *rv, a rargs) value {
		m, _ := r.get().(*Map)
		mt := r.t.Underlying().(*types.Map)
		k := w.rassign(w.needRV(a[0], "SetMapIndex"), mt.Key())
		e := getRV(a[1])
		if e == nil {
			w.mapDelete(m, k)
			return nil
		}
		if m == nil {
			w.goPanicStr("assignment to entry in nil map")
		}
		w.mapSet(m, k, w.rassign(e, mt.Elem()))
		return nil
	})
	val("MapIndex", func(w *W, r *rv, a rargs) value {
		m, _ := r.get().(*Map)
		mt := r.t.Underlying().(*types.Map)
		e := w.mapFind(m, w.rassign(w.needRV(a[0], "MapIndex"), mt.Key()))
		if e == nil {
			return w.mkRV(nil)
		}
		return w.mkRV(&rv{t: mt.Elem(), v: copyVal(e.v)})
	})
	live := func(m *Map) []*mapEntry {
		var r []*mapEntry
		if m == nil {
			return nil
		}
		for _, e := range m.entries {
			if !e.deleted {
				r = append(r, e)
			}
		}
		return r
	}
	val("MapKeys", func(w *W, r *rv, a rargs) value {
		m, _ := r.get().(*Map)
		var out []value
		for _, e := range live(m) {
			out = append(out, w.mkRV(&rv{t: r.t.Underlying().(*types.Map).Key(), v: copyVal(e.k)}))
		}
		return out
	})
	val("MapRange", func(w *W, r *rv, a rargs) value {
		m, _ := r.get().(*Map)
		c := new(value)
		*c = &rmapIter{m: m, t: r.t.Underlying().(*types.Map), ents: live(m), i: -1}
		return c
	})
	it := func(name string, f func(w *W, x *rmapIter) value) {
		reg("(*reflect.MapIter)."+name, func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
			return f(w, (*args[0].(*value)).(*rmapIter))
		})
	}
	it("Next", func(w *W, x *rmapIter) value { x.i++; return w.tc.Bool(x.i < len(x.ents)) })
	it("Key", func(w *W, x *rmapIter) value { return w.mkRV(&rv{t: x.t.Key(), v: copyVal(x.ents[x.i].k)}) })
	it("Value", func(w *W, x *rmapIter) value { return w.mkRV(&rv{t: x.t.Elem(), v: copyVal(x.ents[x.i].v)}) })
	val("Convert", func(w *W, r *rv, a rargs) value {
		t := rtOf(a[0].(iface).v)
		return w.mkRV(&rv{t: t, v: w.conv(t, r.t, r.get())})
	})
	val("Equal", func(w *W, r *rv, a rargs) value {
		o := w.needRV(a[0], "Equal")
		return w.eqv(r.t, r.get(), o.get())
	})
	_ = fmt.Sprint
	_ = strings.Join
}

func (w *W) relem(r *rv) value {
	switch u := r.t.Underlying().(type) {
	case *types.Pointer:
		p, ok := r.get().(*value)
		if !ok {
			panic(unsupported{fmt.Sprintf("reflect Elem of %T", r.get())})
		}
		if p == nil {
			return w.mkRV(nil)
		}
		return w.mkRV(&rv{t: u.Elem(), addr: p, ro: r.ro})
	case *types.Interface:
		it, _ := r.get().(iface)
		if it.t == nil {
			return w.mkRV(nil)
		}
		return w.mkRV(&rv{t: it.t, v: copyVal(it.v), ro: r.ro})
	}
	w.goPanicStr("reflect: call of reflect.Value.Elem on " + rtString(r.t) + " Value")
	return nil
}
