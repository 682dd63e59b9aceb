package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type value any

type array []value
type structure []value
type tuple []value

type iface struct {
	t types.Type // nil for nil interface
	v value
}

type closure struct {
	fn  *ssa.Function
	env []value
}

// nativeFn is a function value implemented by the engine.
type nativeFn struct {
	name string
	f    func(w *W, g *G, args []value) value
}

// str is a Go string: concrete (b==nil) or a sequence of 8-bit terms.
type str struct {
	s string
	b []*Term
}

func (s str) len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

// symPtr is the address of an element selected by a symbolic index.
type symPtr struct {
	elems []value
	idx   *Term // 64-bit, in range
}

// dataPtr is the result of unsafe.SliceData / StringData.
type dataPtr struct {
	sl    []value
	s     str
	isStr bool
}

type mapEntry struct {
	k, v    value
	deleted bool
}

// Map is a Go map with possibly symbolic keys, kept in insertion order.
type Map struct {
	kt      types.Type
	entries []*mapEntry
	conc    map[string]*mapEntry // entries whose key is concrete
	nsym    int                  // live entries with symbolic key
	n       int
}

type Chan struct {
	cap    int
	buf    []value
	closed bool
	sendq  []*waiter
	recvq  []*waiter
	id     int
}

type waiter struct {
	g    *G
	v    value
	done bool
	ok   bool
	sel  *selState
	idx  int
}

type selState struct {
	fired bool
	idx   int
	v     value
	ok    bool
}

type mapIter struct {
	m   *Map
	ord []*mapEntry
	i   int
}

type strIter struct {
	s str
	i int
}

type poison struct{ why string }

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func basicWidth(b *types.Basic) (w uint16, signed bool, ok bool) {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func isSigned(t types.Type) bool {
	if b, ok := t.Underlying().(*types.Basic); ok {
		_, s, _ := basicWidth(b)
		return s
	}
	return false
}

func intWidth(t types.Type) uint16 {
	if b, ok := t.Underlying().(*types.Basic); ok {
		w, _, ok := basicWidth(b)
		if ok {
			return w
		}
	}
	panic(unsupported{"intWidth of " + t.String()})
}

func (w *W) zero(t types.Type) value {
	switch u := t.(type) {
	case *types.Named:
		return w.zero(u.Underlying())
	case *types.Alias:
		return w.zero(types.Unalias(u))
	case *types.Basic:
		if bw, _, ok := basicWidth(u); ok {
			return w.tc.BV(bw, 0)
		}
		switch u.Kind() {
		case types.String, types.UntypedString:
			return str{}
		case types.Float32:
			return float32(0)
		case types.Float64, types.UntypedFloat:
			return float64(0)
		case types.Complex64, types.Complex128:
			return complex128(0)
		case types.UnsafePointer:
			return (*value)(nil)
		case types.UntypedNil:
			return nil
		}
	case *types.Pointer:
		return (*value)(nil)
	case *types.Array:
		a := make(array, u.Len())
		for i := range a {
			a[i] = w.zero(u.Elem())
		}
		return a
	case *types.Struct:
		s := make(structure, u.NumFields())
		for i := range s {
			s[i] = w.zero(u.Field(i).Type())
		}
		return s
	case *types.Tuple:
		if u.Len() == 1 {
			return w.zero(u.At(0).Type())
		}
		s := make(tuple, u.Len())
		for i := range s {
			s[i] = w.zero(u.At(i).Type())
		}
		return s
	case *types.Slice:
		return []value(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Interface:
		return iface{}
	case *types.TypeParam:
		panic(unsupported{"zero of type parameter " + u.String()})
	}
	panic(unsupported{fmt.Sprintf("zero of %T %s", t, t)})
}

// copyVal copies aggregate values (value semantics).
func copyVal(v value) value {
	switch v := v.(type) {
	case array:
		n := make(array, len(v))
		for i, x := range v {
			n[i] = copyVal(x)
		}
		return n
	case structure:
		n := make(structure, len(v))
		for i, x := range v {
			n[i] = copyVal(x)
		}
		return n
	}
	return v
}

// load reads *addr.
func (w *W) load(addr value) value {
	switch p := addr.(type) {
	case *value:
		if p == nil {
			w.goPanicStr("invalid memory address or nil pointer dereference")
		}
		v := *p
		if po, ok := v.(poison); ok {
			panic(unsupported{"read of poisoned value: " + po.why})
		}
		return copyVal(v)
	case symPtr:
		return w.iteSelect(p.elems, p.idx)
	case dataPtr:
		if !p.isStr && len(p.sl) > 0 {
			return copyVal(p.sl[0])
		}
		if p.isStr && p.s.len() > 0 {
			return w.strByte(p.s, 0)
		}
	}
	panic(unsupported{fmt.Sprintf("load from %T", addr)})
}

// store writes v to *addr preserving the identity of sub-cells.
func (w *W) store(addr value, v value) {
	switch p := addr.(type) {
	case *value:
		if p == nil {
			w.goPanicStr("invalid memory address or nil pointer dereference")
		}
		w.storeCell(p, v)
		return
	case symPtr:
		nv, ok := v.(*Term)
		if !ok {
			panic(unsupported{"symbolic-index store of non-scalar"})
		}
		for i := range p.elems {
			old, ok := p.elems[i].(*Term)
			if !ok {
				panic(unsupported{"symbolic-index store of non-scalar"})
			}
			c := w.tc.Eq(p.idx, w.tc.BV(64, uint64(i)))
			w.storeCell(&p.elems[i], w.tc.Ite(c, nv, old))
		}
		return
	}
	panic(unsupported{fmt.Sprintf("store to %T", addr)})
}

func (w *W) storeCell(p *value, v value) {
	switch nv := v.(type) {
	case structure:
		if old, ok := (*p).(structure); ok && len(old) == len(nv) {
			for i := range nv {
				w.storeCell(&old[i], nv[i])
			}
			return
		}
		v = copyVal(nv)
	case array:
		if old, ok := (*p).(array); ok && len(old) == len(nv) {
			for i := range nv {
				w.storeCell(&old[i], nv[i])
			}
			return
		}
		v = copyVal(nv)
	}
	if !w.noUndo {
		w.undo = append(w.undo, undoRec{p: p, old: *p})
	}
	*p = v
}

func (w *W) iteSelect(elems []value, idx *Term) value {
	// Build a linear ite chain, merging runs of equal values.
	n := len(elems)
	if n == 0 {
		panic(unsupported{"select from empty"})
	}
	if s, ok := elems[0].(str); ok {
		_ = s
		i := w.concretize(idx)
		return elems[i]
	}
	if _, ok := elems[0].(*Term); !ok {
		i := w.concretize(idx)
		return copyVal(elems[i])
	}
	res := elems[n-1].(*Term)
	for i := n - 2; i >= 0; i-- {
		e := elems[i].(*Term)
		if e == res {
			continue
		}
		// does the run [i..] differ: idx <= i ? e : res   (valid since we go down)
		res = w.tc.Ite(w.tc.Cmp(OUle, idx, w.tc.BV(64, uint64(i))), e, res)
	}
	return res
}

// ---- strings ----

func (w *W) strBytes(s str) []*Term {
	if s.b != nil {
		return s.b
	}
	b := make([]*Term, len(s.s))
	for i := range b {
		b[i] = w.tc.BV(8, uint64(s.s[i]))
	}
	return b
}

func (w *W) strByte(s str, i int) *Term {
	if s.b != nil {
		return s.b[i]
	}
	return w.tc.BV(8, uint64(s.s[i]))
}

// mkStr normalises: all-constant bytes become a concrete string.
func mkStr(b []*Term) str {
	for _, x := range b {
		if !x.isConst() {
			return str{b: b}
		}
	}
	bs := make([]byte, len(b))
	for i, x := range b {
		bs[i] = byte(x.c)
	}
	return str{s: string(bs)}
}

func (s str) concrete() (string, bool) { return s.s, s.b == nil }

func (s str) String() string {
	if s.b == nil {
		return s.s
	}
	var sb strings.Builder
	for _, x := range s.b {
		if x.isConst() {
			sb.WriteByte(byte(x.c))
		} else {
			sb.WriteByte('?')
		}
	}
	return sb.String()
}

func (w *W) strEq(a, b str) *Term {
	if a.len() != b.len() {
		return w.tc.F
	}
	if a.b == nil && b.b == nil {
		return w.tc.Bool(a.s == b.s)
	}
	return w.bytesEq(w.strBytes(a), w.strBytes(b))
}

func (w *W) bytesEq(x, y []*Term) *Term {
	if len(x) != len(y) {
		return w.tc.F
	}
	if len(x) == 0 {
		return w.tc.T
	}
	return w.tc.Eq(w.concatTerms(x), w.concatTerms(y))
}

func (w *W) concatTerms(x []*Term) *Term {
	if len(x) == 1 {
		return x[0]
	}
	var parts []*Term
	for i := 0; i < len(x); {
		t := x[i]
		j := i + 1
		if t.isConst() && t.w == 8 {
			for j < len(x) && x[j].isConst() && x[j].w == 8 {
				j++
			}
			if j-i > 1 {
				if j-i <= 8 {
					var u uint64
					for _, b := range x[i:j] {
						u = u<<8 | b.c
					}
					t = w.tc.BV(uint16(8*(j-i)), u)
				} else {
					buf := make([]byte, j-i)
					for k := range buf {
						buf[k] = byte(x[i+k].c)
					}
					t = w.tc.bigBytes(buf)
				}
			}
		} else if t.op == OExtract {
			lo := t.lo
			for j < len(x) && x[j].op == OExtract && x[j].a[0] == t.a[0] && x[j].hi+1 == lo {
				lo = x[j].lo
				j++
			}
			if j-i > 1 {
				t = w.tc.Extract(t.a[0], t.hi, lo)
			}
		}
		parts = append(parts, t)
		i = j
	}
	r := parts[0]
	for _, t := range parts[1:] {
		r = w.tc.Concat(r, t)
	}
	return r
}

// bytesLess is the lexicographic order (strict).
func (w *W) bytesLess(x, y []*Term) *Term {
	n := min(len(x), len(y))
	if n == 0 {
		return w.tc.Bool(len(x) < len(y))
	}
	cx, cy := w.concatTerms(x[:n]), w.concatTerms(y[:n])
	if len(x) < len(y) {
		return w.tc.Cmp(OUle, cx, cy)
	}
	return w.tc.Cmp(OUlt, cx, cy)
}

func (w *W) strLess(a, b str) *Term {
	if a.b == nil && b.b == nil {
		return w.tc.Bool(a.s < b.s)
	}
	return w.bytesLess(w.strBytes(a), w.strBytes(b))
}

// byteTerms extracts the terms of a []byte value.
func byteTerms(v value) []*Term {
	switch s := v.(type) {
	case []value:
		r := make([]*Term, len(s))
		for i, x := range s {
			t, ok := x.(*Term)
			if !ok {
				panic(unsupported{fmt.Sprintf("byte slice element %T", x)})
			}
			r[i] = t
		}
		return r
	case array:
		return byteTerms([]value(s))
	}
	panic(unsupported{fmt.Sprintf("byteTerms of %T", v)})
}

func toSlice(b []*Term) []value {
	r := make([]value, len(b))
	for i, x := range b {
		r[i] = x
	}
	return r
}

// ---- equality ----

func (w *W) eqv(t types.Type, x, y value) *Term {
	x, y = forced(x), forced(y)
	switch a := x.(type) {
	case *Term:
		return w.tc.Eq(a, y.(*Term))
	case str:
		return w.strEq(a, y.(str))
	case float64:
		return w.tc.Bool(a == y.(float64))
	case float32:
		return w.tc.Bool(a == y.(float32))
	case complex128:
		return w.tc.Bool(a == y.(complex128))
	case *value:
		switch b := y.(type) {
		case *value:
			return w.tc.Bool(a == b)
		case nil:
			return w.tc.Bool(a == nil)
		}
		return w.tc.F
	case dataPtr:
		if b, ok := y.(*value); ok {
			return w.tc.Bool(b == nil && len(a.sl) == 0 && !a.isStr)
		}
		panic(unsupported{"unsafe data pointer comparison"})
	case symPtr:
		if b, ok := y.(*value); ok && b == nil {
			return w.tc.F
		}
		panic(unsupported{"symbolic pointer comparison"})
	case *Chan:
		b, _ := y.(*Chan)
		return w.tc.Bool(a == b)
	case *Map:
		b, _ := y.(*Map)
		return w.tc.Bool(a == b)
	case iface:
		b, ok := y.(iface)
		if !ok {
			return w.tc.F
		}
		if a.t == nil || b.t == nil {
			return w.tc.Bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return w.tc.F
		}
		if !types.Comparable(a.t) {
			w.goPanicStr("comparing uncomparable type " + a.t.String())
		}
		return w.eqv(a.t, a.v, b.v)
	case structure:
		st, _ := t.Underlying().(*types.Struct)
		b := y.(structure)
		r := w.tc.T
		for i := range a {
			var ft types.Type
			if st != nil {
				if st.Field(i).Name() == "_" {
					continue
				}
				ft = st.Field(i).Type()
			}
			r = w.tc.And(r, w.eqv(ft, a[i], b[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case array:
		b := y.(array)
		if len(a) == 0 {
			return w.tc.T
		}
		if _, ok := a[0].(*Term); ok && a[0].(*Term).w == 8 {
			return w.bytesEq(byteTerms(a), byteTerms(b))
		}
		var et types.Type
		if at, ok := t.Underlying().(*types.Array); ok {
			et = at.Elem()
		}
		r := w.tc.T
		for i := range a {
			r = w.tc.And(r, w.eqv(et, a[i], b[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case []value: // only nil comparison
		b, _ := y.([]value)
		return w.tc.Bool((a == nil) == (b == nil) && (a == nil || b == nil))
	case *ssa.Function:
		return w.tc.Bool(a == nil && isNilFunc(y))
	case *closure, *nativeFn:
		return w.tc.Bool(false)
	case *ssa.Builtin:
		return w.tc.F
	case nil:
		return w.tc.Bool(y == nil)
	}
	panic(unsupported{fmt.Sprintf("eqv of %T", x)})
}

func isNilFunc(v value) bool {
	f, ok := v.(*ssa.Function)
	return ok && f == nil
}

// concKey renders a fully concrete comparable value; ok=false when symbolic.
func concKey(v value, sb *strings.Builder) bool {
	switch x := forced(v).(type) {
	case *Term:
		if !x.isConst() {
			return false
		}
		if x.w == 8 {
			sb.WriteByte(byte(x.c))
		} else {
			fmt.Fprintf(sb, "%x;", x.c)
		}
		return true
	case str:
		if x.b != nil {
			return false
		}
		fmt.Fprintf(sb, "%d:", len(x.s))
		sb.WriteString(x.s)
		return true
	case array:
		for _, e := range x {
			if !concKey(e, sb) {
				return false
			}
		}
		return true
	case structure:
		for _, e := range x {
			if !concKey(e, sb) {
				return false
			}
			sb.WriteByte('|')
		}
		return true
	case iface:
		if x.t == nil {
			sb.WriteString("nil")
			return true
		}
		sb.WriteString(x.t.String())
		sb.WriteByte('/')
		return concKey(x.v, sb)
	case *value, *Chan:
		fmt.Fprintf(sb, "%p", x)
		return true
	case float64:
		fmt.Fprintf(sb, "f%v", x)
		return true
	}
	return false
}

// ---- maps ----

func newMap(kt types.Type) *Map { return &Map{kt: kt, conc: map[string]*mapEntry{}} }

func (w *W) mapFind(m *Map, k value) *mapEntry {
	if m == nil {
		return nil
	}
	var sb strings.Builder
	if concKey(k, &sb) {
		if e, ok := m.conc[sb.String()]; ok {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
		for _, e := range m.entries {
			if e.deleted {
				continue
			}
			var s2 strings.Builder
			if concKey(e.k, &s2) {
				continue
			}
			if w.decide(w.eqv(m.kt, k, e.k)) {
				return e
			}
		}
		return nil
	}
	for _, e := range m.entries {
		if e.deleted {
			continue
		}
		if w.decide(w.eqv(m.kt, k, e.k)) {
			return e
		}
	}
	return nil
}

func (w *W) mapSet(m *Map, k, v value) {
	if m == nil {
		w.goPanicStr("assignment to entry in nil map")
	}
	if e := w.mapFind(m, k); e != nil {
		old := e.v
		if !w.noUndo {
			w.undo = append(w.undo, undoRec{f: func() { e.v = old }})
		}
		e.v = copyVal(v)
		return
	}
	e := &mapEntry{k: copyVal(k), v: copyVal(v)}
	var sb strings.Builder
	c := concKey(k, &sb)
	key := sb.String()
	if !w.noUndo {
		oldEntries := m.entries
		w.undo = append(w.undo, undoRec{f: func() {
			m.entries = oldEntries
			m.n--
			if c {
				delete(m.conc, key)
			} else {
				m.nsym--
			}
		}})
	}
	m.entries = append(m.entries, e)
	m.n++
	if c {
		m.conc[key] = e
	} else {
		m.nsym++
	}
}

func (w *W) mapDelete(m *Map, k value) {
	if m == nil {
		return
	}
	e := w.mapFind(m, k)
	if e == nil {
		return
	}
	w.mapRemoveEntry(m, e)
}

func (w *W) mapRemoveEntry(m *Map, e *mapEntry) {
	var sb strings.Builder
	c := concKey(e.k, &sb)
	key := sb.String()
	if !w.noUndo {
		old := m.entries
		w.undo = append(w.undo, undoRec{f: func() {
			e.deleted = false
			m.entries = old
			m.n++
			if c {
				m.conc[key] = e
			} else {
				m.nsym++
			}
		}})
	}
	e.deleted = true
	m.n--
	if c {
		delete(m.conc, key)
	} else {
		m.nsym--
	}
	ne := make([]*mapEntry, 0, len(m.entries))
	for _, x := range m.entries {
		if x != e {
			ne = append(ne, x)
		}
	}
	m.entries = ne
}
