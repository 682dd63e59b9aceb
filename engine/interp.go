package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Control-flow panics of the engine.
type unsupported struct{ why string }
type pathEnd struct{ kind, why string } // infeasible, assume, budget, deadlock...
type targetPanic struct{ v value }      // Go-level panic (v is iface)
type killG struct{}

type undoRec struct {
	p   *value
	old value
	f   func()
}

type finfo struct {
	idx map[ssa.Value]int
	n   int
}

type deferred struct {
	fn    value
	args  []value
	instr *ssa.Defer
	tail  *deferred
}

type frame struct {
	w                *W
	g                *G
	caller           *frame
	fn               *ssa.Function
	fi               *finfo
	block, prevBlock *ssa.BasicBlock
	env              []value
	defers           *deferred
	result           value
	panicking        bool
	panicv           any
	phitemps         []value
	pos              token.Pos
	depth            int
}

// G is an interpreted goroutine.
type G struct {
	id      int
	wake    chan struct{}
	ready   func() bool // nil: runnable
	done    bool
	why     string
	started bool
	top     *frame
	start   func()
	killed  bool
}

type allocInfo struct{ name string }

var finfos sync.Map // *ssa.Function -> *finfo

func getFinfo(fn *ssa.Function) *finfo {
	if x, ok := finfos.Load(fn); ok {
		return x.(*finfo)
	}
	fi := &finfo{idx: map[ssa.Value]int{}}
	add := func(v ssa.Value) {
		fi.idx[v] = fi.n
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, l := range fn.Locals {
		add(l)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				if _, dup := fi.idx[v]; !dup {
					add(v)
				}
			}
		}
	}
	x, _ := finfos.LoadOrStore(fn, fi)
	return x.(*finfo)
}

func (fr *frame) set(v ssa.Value, x value) { fr.env[fr.fi.idx[v]] = x }

func (fr *frame) get(key ssa.Value) value {
	switch k := key.(type) {
	case nil:
		return nil
	case *ssa.Function:
		return k
	case *ssa.Builtin:
		return k
	case *ssa.Const:
		return fr.w.constValue(k)
	case *ssa.Global:
		return fr.w.global(k)
	}
	i, ok := fr.fi.idx[key]
	if !ok {
		panic(fmt.Sprintf("no slot for %s %T in %s", key.Name(), key, fr.fn))
	}
	return fr.env[i]
}

func (w *W) constValue(c *ssa.Const) value {
	if v, ok := w.consts[c]; ok {
		return copyVal(v)
	}
	v := w.constValue1(c)
	w.consts[c] = v
	return copyVal(v)
}

func (w *W) constValue1(c *ssa.Const) value {
	if c.Value == nil {
		return w.zero(c.Type())
	}
	t := c.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		if bw, _, ok := basicWidth(b); ok {
			if bw == 0 {
				return w.tc.Bool(constant.BoolVal(c.Value))
			}
			iv := constant.ToInt(c.Value)
			bi, ok := constant.Val(iv).(*big.Int)
			if !ok {
				i64 := constant.Val(iv).(int64)
				return w.tc.BV(bw, uint64(i64))
			}
			m := new(big.Int).Lsh(big.NewInt(1), uint(bw))
			return w.tc.BV(bw, new(big.Int).Mod(bi, m).Uint64())
		}
		switch b.Kind() {
		case types.String, types.UntypedString:
			if c.Value.Kind() == constant.String {
				return str{s: constant.StringVal(c.Value)}
			}
			return str{s: string(rune(c.Int64()))}
		case types.Float32:
			return float32(c.Float64())
		case types.Float64, types.UntypedFloat:
			return c.Float64()
		case types.Complex128, types.Complex64, types.UntypedComplex:
			return c.Complex128()
		}
	}
	panic(unsupported{"const " + c.String()})
}

// global returns the address of a package-level variable, initialising its package on first use.
func (w *W) global(g *ssa.Global) *value {
	if !w.inited[g.Pkg] {
		w.initPkg(g.Pkg)
	}
	p, ok := w.globals[g]
	if !ok {
		p = new(value)
		*p = w.zero(deref(g.Type()))
		w.globals[g] = p
	}
	return p
}

// initPkg runs the package initialiser of one package (dependencies are initialised on demand).
func (w *W) initPkg(p *ssa.Package) {
	w.inited[p] = true
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			if _, ok := w.globals[g]; !ok {
				c := new(value)
				*c = w.zero(deref(g.Type()))
				if e, ok := embeds[p.Pkg.Path()+"."+g.Name()]; ok {
					if b, ok := deref(g.Type()).Underlying().(*types.Basic); ok && b.Kind() == types.String {
						*c = str{s: e}
					}
				}
				w.globals[g] = c
			}
		}
	}
	p.Build()
	if p.Pkg.Path() == "os" {
		// the errors of os are those of io/fs
		if fs := p.Prog.ImportedPackage("io/fs"); fs != nil {
			for _, n := range []string{"ErrInvalid", "ErrPermission", "ErrExist", "ErrNotExist", "ErrClosed"} {
				*w.globals[p.Var(n)] = *w.global(fs.Var(n))
			}
		}
	}
	if skipInit[p.Pkg.Path()] {
		return
	}
	init := p.Func("init")
	if init == nil || init.Blocks == nil {
		return
	}
	save := w.noUndo
	saveInit := w.initing
	saveSteps := w.steps
	w.noUndo = true
	w.initing = p
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case unsupported:
					engineWarn(fmt.Sprintf("init of %s stopped: %s", p.Pkg.Path(), x.why))
				case targetPanic:
					engineWarn(fmt.Sprintf("init of %s panicked: %s", p.Pkg.Path(), w.panicString(x.v)))
				default:
					panic(r)
				}
			}
		}()
		w.callSSA(w.cur, nil, init, nil, nil)
	}()
	w.noUndo = save
	w.initing = saveInit
	w.steps = saveSteps
}

func (w *W) runtimeErr(msg string) value {
	return iface{t: w.vxType("RuntimeError"), v: str{s: msg}}
}

func (w *W) goPanicStr(msg string) {
	panic(targetPanic{w.runtimeErr(msg)})
}

func (w *W) goPanicMsg(msg string) {
	panic(targetPanic{iface{t: types.Typ[types.String], v: str{s: msg}}})
}

// ---- calls ----

func (w *W) call(g *G, caller *frame, fn value, args []value) value {
	switch f := fn.(type) {
	case *ssa.Function:
		if f == nil {
			w.goPanicStr("invalid memory address or nil pointer dereference (nil func)")
		}
		return w.callSSA(g, caller, f, args, nil)
	case *closure:
		return w.callSSA(g, caller, f.fn, args, f.env)
	case *nativeFn:
		return f.f(w, g, args)
	case *ssa.Builtin:
		return w.callBuiltin(g, caller, f, args)
	case nil:
		w.goPanicStr("invalid memory address or nil pointer dereference (nil func)")
	}
	panic(unsupported{fmt.Sprintf("call of %T", fn)})
}

// callBody interprets the function itself where an external is in its place.
func (w *W) callBody(g *G, caller *frame, fn *ssa.Function, args []value) value {
	w.bodyOnly = fn
	return w.callSSA(g, caller, fn, args, nil)
}

func (w *W) callSSA(g *G, caller *frame, fn *ssa.Function, args []value, env []value) value {
	name := w.fnName(fn)
	if w.initing != nil && fn.Synthetic == "package initializer" && fn.Pkg != w.initing {
		return nil // lazily initialised
	}
	body := w.bodyOnly == fn
	w.bodyOnly = nil
	if !w.noStub && !body {
		if st, ok := w.sh.stubs[name]; ok && (caller == nil || caller.fn != st) && !w.insideStub(caller, st) {
			w.stubHits[name]++
			return w.callSSA(g, caller, st, args, nil)
		}
	}
	if ext, ok := externals[name]; ok && !body {
		return ext(w, g, caller, fn, args)
	}
	if i := strings.IndexByte(name, '['); i >= 0 {
		if ext, ok := externals[name[:i]]; ok && !strings.Contains(name[i:], ").") {
			return ext(w, g, caller, fn, args)
		}
	}
	if p := fnPkgPath(fn); p != "" {
		if noopPkgs[p] {
			return w.noopResult(fn)
		}
	}
	if fn.Blocks == nil {
		if fn.Pkg != nil {
			fn.Pkg.Build()
		} else if o := fn.Origin(); o != nil && o.Pkg != nil {
			o.Pkg.Build()
		}
		if fn.Blocks == nil {
			panic(unsupported{"no body: " + name})
		}
	}
	w.fnHits[fn]++
	fi := getFinfo(fn)
	fr := &frame{w: w, g: g, caller: caller, fn: fn, fi: fi, env: make([]value, fi.n)}
	if caller != nil {
		fr.depth = caller.depth + 1
		if fr.depth > 3000 {
			panic(pathEnd{"budget", "call depth"})
		}
	}
	g.top = fr
	fr.block = fn.Blocks[0]
	for i, p := range fn.Params {
		fr.env[fi.idx[p]] = args[i]
	}
	for i, v := range fn.FreeVars {
		fr.env[fi.idx[v]] = env[i]
	}
	for _, l := range fn.Locals {
		c := new(value)
		*c = w.zero(deref(l.Type()))
		fr.set(l, c)
	}
	for fr.block != nil {
		w.runFrame(fr)
	}
	g.top = caller
	return fr.result
}

func (w *W) insideStub(fr *frame, st *ssa.Function) bool {
	for ; fr != nil; fr = fr.caller {
		if fr.fn == st {
			return true
		}
	}
	return false
}

func fnPkgPath(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func (w *W) fnName(fn *ssa.Function) string {
	if n, ok := w.names[fn]; ok {
		return n
	}
	n := fn.String()
	w.names[fn] = n
	return n
}

func (w *W) noopResult(fn *ssa.Function) value {
	res := fn.Signature.Results()
	if res.Len() == 0 {
		return nil
	}
	return w.zero(res)
}

func (w *W) runFrame(fr *frame) {
	normal := false
	defer func() {
		if normal {
			return
		}
		r := recover()
		switch r.(type) {
		case targetPanic:
			fr.panicking = true
			fr.panicv = r
		case unsupported, pathEnd, killG, violation:
			if u, ok := r.(unsupported); ok && !strings.Contains(u.why, " @ ") {
				r = unsupported{u.why + " @ " + fr.where()}
			}
			panic(r)
		default:
			if os.Getenv("VX_DEBUG") != "" {
				panic(r)
			}
			panic(unsupported{fmt.Sprintf("engine failure: %v @ %s", r, fr.where())})
		}
		w.runDefers(fr)
		fr.block = fr.fn.Recover
		if fr.block == nil {
			// no named results: return zero values
			fr.result = w.zero(fr.fn.Signature.Results())
			if fr.fn.Signature.Results().Len() == 0 {
				fr.result = nil
			}
		}
	}()
	for {
		b := fr.block
		w.blockHits++
		for _, instr := range b.Instrs {
			w.steps++
			if w.steps > w.maxSteps && w.initing == nil {
				panic(pathEnd{"budget", "step limit " + fr.where()})
			}
			switch w.visit(fr, instr) {
			case kNext:
				continue
			case kJump:
			case kReturn:
				normal = true
				return
			}
			break
		}
	}
}

func (fr *frame) where() string {
	p := fr.fn.Prog.Fset.Position(fr.pos)
	return fmt.Sprintf("%s (%s:%d)", fr.fn.String(), p.Filename, p.Line)
}

func (fr *frame) stack() string {
	var sb strings.Builder
	for f := fr; f != nil; f = f.caller {
		sb.WriteString(f.where())
		sb.WriteString("\n")
	}
	return sb.String()
}

func (w *W) runDefers(fr *frame) {
	for d := fr.defers; d != nil; d = fr.defers {
		fr.defers = d.tail
		w.runDefer(fr, d)
	}
	if fr.panicking {
		panic(fr.panicv)
	}
}

func (w *W) runDefer(fr *frame, d *deferred) {
	ok := false
	defer func() {
		if !ok {
			r := recover()
			switch r.(type) {
			case targetPanic:
				fr.panicking = true
				fr.panicv = r
			default:
				panic(r)
			}
		}
	}()
	w.call(fr.g, fr, d.fn, d.args)
	ok = true
}

type cont int

const (
	kNext cont = iota
	kJump
	kReturn
)

func (w *W) visit(fr *frame, instr ssa.Instruction) cont {
	if p := instr.Pos(); p.IsValid() {
		fr.pos = p
	}
	switch in := instr.(type) {
	case *ssa.DebugRef:
	case *ssa.UnOp:
		fr.set(in, w.unop(fr, in, fr.get(in.X)))
	case *ssa.BinOp:
		fr.set(in, w.binop(in.Op, in.X.Type(), in.Y.Type(), fr.get(in.X), fr.get(in.Y)))
	case *ssa.Call:
		fn, args := w.prepareCall(fr, &in.Call)
		fr.set(in, w.call(fr.g, fr, fn, args))
		fr.g.top = fr
	case *ssa.ChangeInterface:
		fr.set(in, fr.get(in.X))
	case *ssa.ChangeType:
		fr.set(in, fr.get(in.X))
	case *ssa.Convert:
		fr.set(in, w.conv(in.Type(), in.X.Type(), fr.get(in.X)))
	case *ssa.MultiConvert:
		fr.set(in, w.conv(in.Type(), in.X.Type(), fr.get(in.X)))
	case *ssa.SliceToArrayPointer:
		fr.set(in, w.sliceToArrayPtr(in.Type(), fr.get(in.X)))
	case *ssa.MakeInterface:
		fr.set(in, iface{t: in.X.Type(), v: fr.get(in.X)})
	case *ssa.Extract:
		fr.set(in, fr.get(in.Tuple).(tuple)[in.Index])
	case *ssa.Slice:
		fr.set(in, w.sliceOp(fr, in))
	case *ssa.Return:
		switch len(in.Results) {
		case 0:
		case 1:
			fr.result = fr.get(in.Results[0])
		default:
			res := make(tuple, len(in.Results))
			for i, r := range in.Results {
				res[i] = fr.get(r)
			}
			fr.result = res
		}
		fr.block = nil
		return kReturn
	case *ssa.RunDefers:
		w.runDefers(fr)
	case *ssa.Panic:
		panic(targetPanic{fr.get(in.X)})
	case *ssa.Send:
		w.chanSend(fr.g, fr.get(in.Chan), fr.get(in.X))
	case *ssa.Store:
		v := fr.get(in.Val)
		w.store(fr.get(in.Addr), v)
	case *ssa.If:
		succ := 1
		if w.decide(fr.get(in.Cond).(*Term)) {
			succ = 0
		}
		w.jump(fr, fr.block.Succs[succ])
		return kJump
	case *ssa.Jump:
		w.jump(fr, fr.block.Succs[0])
		return kJump
	case *ssa.Defer:
		fn, args := w.prepareCall(fr, &in.Call)
		into := fr
		if in.DeferStack != nil {
			into = fr.get(in.DeferStack).(*frame)
		}
		into.defers = &deferred{fn: fn, args: args, instr: in, tail: into.defers}
	case *ssa.Go:
		fn, args := w.prepareCall(fr, &in.Call)
		w.spawn(fr, fn, args)
	case *ssa.MakeChan:
		n := w.concretize(w.toInt64(fr.get(in.Size), in.Size.Type()))
		if n < 0 {
			w.goPanicStr("makechan: size out of range")
		}
		w.chanID++
		fr.set(in, &Chan{cap: int(n), id: w.chanID})
	case *ssa.Alloc:
		var addr *value
		if in.Heap {
			addr = new(value)
			fr.set(in, addr)
		} else {
			addr = fr.get(in).(*value)
		}
		*addr = w.zero(deref(in.Type()))
	case *ssa.MakeSlice:
		ln := w.concretize(w.toInt64(fr.get(in.Len), in.Len.Type()))
		cp := w.concretize(w.toInt64(fr.get(in.Cap), in.Cap.Type()))
		if ln < 0 || ln > 1<<26 {
			if ln > 1<<26 && ln < 1<<40 {
				panic(unsupported{fmt.Sprintf("makeslice of %d elements", ln)})
			}
			w.goPanicStr("makeslice: len out of range")
		}
		if cp < ln || cp > 1<<26 {
			w.goPanicStr("makeslice: cap out of range")
		}
		s := make([]value, cp)
		et := in.Type().Underlying().(*types.Slice).Elem()
		for i := range s {
			s[i] = w.zero(et)
		}
		fr.set(in, s[:ln])
	case *ssa.MakeMap:
		fr.set(in, newMap(in.Type().Underlying().(*types.Map).Key()))
	case *ssa.Range:
		fr.set(in, w.rangeIter(fr.get(in.X)))
	case *ssa.Next:
		fr.set(in, w.iterNext(fr.get(in.Iter), in))
	case *ssa.FieldAddr:
		p := fr.get(in.X)
		pp, ok := p.(*value)
		if !ok {
			panic(unsupported{fmt.Sprintf("FieldAddr of %T", p)})
		}
		if pp == nil {
			w.goPanicStr("invalid memory address or nil pointer dereference")
		}
		st, ok := (*pp).(structure)
		if !ok {
			if po, ok := (*pp).(poison); ok {
				panic(unsupported{"poison " + po.why})
			}
			panic(unsupported{fmt.Sprintf("FieldAddr into %T (%s)", *pp, in.X.Type())})
		}
		fr.set(in, &st[in.Field])
	case *ssa.Field:
		fr.set(in, copyVal(fr.get(in.X).(structure)[in.Field]))
	case *ssa.IndexAddr:
		fr.set(in, w.indexAddr(fr, in))
	case *ssa.Index:
		x := fr.get(in.X)
		idx := w.toInt64(fr.get(in.Index), in.Index.Type())
		switch a := x.(type) {
		case array:
			w.boundsCheck(idx, len(a))
			if idx.isConst() {
				fr.set(in, copyVal(a[idx.c]))
			} else {
				fr.set(in, w.iteSelect(a, idx))
			}
		case str:
			w.boundsCheck(idx, a.len())
			if idx.isConst() {
				fr.set(in, w.strByte(a, int(idx.c)))
			} else {
				fr.set(in, w.iteSelect(toSlice(w.strBytes(a)), idx))
			}
		default:
			panic(unsupported{fmt.Sprintf("Index of %T", x)})
		}
	case *ssa.Lookup:
		x := fr.get(in.X)
		switch a := x.(type) {
		case *Map:
			e := w.mapFind(a, fr.get(in.Index))
			var v value
			if e != nil {
				v = copyVal(e.v)
			} else {
				v = w.zero(in.X.Type().Underlying().(*types.Map).Elem())
			}
			if in.CommaOk {
				v = tuple{v, w.tc.Bool(e != nil)}
			}
			fr.set(in, v)
		case str:
			idx := w.toInt64(fr.get(in.Index), in.Index.Type())
			w.boundsCheck(idx, a.len())
			if idx.isConst() {
				fr.set(in, w.strByte(a, int(idx.c)))
			} else {
				fr.set(in, w.iteSelect(toSlice(w.strBytes(a)), idx))
			}
		default:
			panic(unsupported{fmt.Sprintf("Lookup in %T", x)})
		}
	case *ssa.MapUpdate:
		m := fr.get(in.Map).(*Map)
		w.mapSet(m, fr.get(in.Key), fr.get(in.Value))
	case *ssa.TypeAssert:
		fr.set(in, w.typeAssert(in, fr.get(in.X)))
	case *ssa.MakeClosure:
		env := make([]value, len(in.Bindings))
		for i, b := range in.Bindings {
			env[i] = fr.get(b)
		}
		fr.set(in, &closure{fn: in.Fn.(*ssa.Function), env: env})
	case *ssa.Phi:
		// handled in jump
	case *ssa.Select:
		fr.set(in, w.selectOp(fr, in))
	default:
		panic(unsupported{fmt.Sprintf("instruction %T", instr)})
	}
	return kNext
}

func (w *W) jump(fr *frame, to *ssa.BasicBlock) {
	fr.prevBlock, fr.block = fr.block, to
	// evaluate phis in parallel
	fr.phitemps = fr.phitemps[:0]
	var k int = -1
	n := 0
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if k < 0 {
			for i, p := range to.Preds {
				if p == fr.prevBlock {
					k = i
					break
				}
			}
		}
		fr.phitemps = append(fr.phitemps, fr.get(phi.Edges[k]))
		n++
	}
	for i := 0; i < n; i++ {
		fr.set(to.Instrs[i].(*ssa.Phi), fr.phitemps[i])
	}
}

func (w *W) prepareCall(fr *frame, c *ssa.CallCommon) (value, []value) {
	v := fr.get(c.Value)
	var args []value
	var fn value
	if c.Method == nil {
		fn = v
		args = make([]value, 0, len(c.Args))
	} else {
		recv, ok := v.(iface)
		if !ok {
			if po, ok := v.(poison); ok {
				panic(unsupported{"poison " + po.why})
			}
			panic(unsupported{fmt.Sprintf("invoke on %T", v)})
		}
		if recv.t == nil {
			w.goPanicStr("invalid memory address or nil pointer dereference (method " + c.Method.Name() + " on nil interface)")
		}
		f := w.lookupMethod(recv.t, c.Method)
		if f == nil {
			panic(unsupported{"no method " + c.Method.Name() + " on " + recv.t.String()})
		}
		fn = f
		args = make([]value, 0, len(c.Args)+1)
		args = append(args, recv.v)
	}
	for _, a := range c.Args {
		args = append(args, fr.get(a))
	}
	return fn, args
}

type mkey struct {
	t types.Type
	m *types.Func
}

func (w *W) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := mkey{t, m}
	if f, ok := w.methods[k]; ok {
		return f
	}
	f := w.sh.prog.LookupMethod(t, m.Pkg(), m.Name())
	w.methods[k] = f
	return f
}

func (w *W) methodByName(t types.Type, pkg *types.Package, name string) *ssa.Function {
	sel := w.sh.prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return w.sh.prog.MethodValue(sel)
}

func (w *W) boundsCheck(idx *Term, n int) {
	if idx.isConst() {
		if int64(idx.c) < 0 || int64(idx.c) >= int64(n) {
			w.goPanicStr(fmt.Sprintf("index out of range [%d] with length %d", int64(idx.c), n))
		}
		return
	}
	if !w.decide(w.tc.Cmp(OUlt, idx, w.tc.BV(64, uint64(n)))) {
		w.goPanicStr(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
}

func (w *W) toInt64(v value, t types.Type) *Term {
	x, ok := v.(*Term)
	if !ok {
		panic(unsupported{fmt.Sprintf("toInt64 of %T", v)})
	}
	if x.w == 64 {
		return x
	}
	if isSigned(t) {
		return w.tc.Sext(x, 64)
	}
	return w.tc.Zext(x, 64)
}

func (w *W) indexAddr(fr *frame, in *ssa.IndexAddr) value {
	x := fr.get(in.X)
	idx := w.toInt64(fr.get(in.Index), in.Index.Type())
	var elems []value
	switch a := x.(type) {
	case []value:
		elems = a
	case *value:
		if a == nil {
			w.goPanicStr("invalid memory address or nil pointer dereference")
		}
		arr, ok := (*a).(array)
		if !ok {
			panic(unsupported{fmt.Sprintf("IndexAddr into %T", *a)})
		}
		elems = arr
	case poison:
		panic(unsupported{"poison " + a.why})
	default:
		panic(unsupported{fmt.Sprintf("IndexAddr of %T", x)})
	}
	w.boundsCheck(idx, len(elems))
	if idx.isConst() {
		return &elems[idx.c]
	}
	if len(elems) <= 1024 {
		ok := true
		for i := range elems {
			if _, isT := elems[i].(*Term); !isT {
				ok = false
				break
			}
		}
		if ok && onlyLoadStore(in) {
			return symPtr{elems: elems, idx: idx}
		}
	}
	i := w.concretize(idx)
	return &elems[i]
}

func onlyLoadStore(in *ssa.IndexAddr) bool {
	refs := in.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
		case *ssa.Store:
			if x.Addr != in {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func (w *W) sliceToArrayPtr(t types.Type, x value) value {
	n := int(deref(t).Underlying().(*types.Array).Len())
	s, ok := x.([]value)
	if !ok {
		panic(unsupported{fmt.Sprintf("SliceToArrayPointer of %T", x)})
	}
	if len(s) < n {
		w.goPanicStr(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", len(s), n))
	}
	if s == nil {
		return (*value)(nil)
	}
	p := new(value)
	*p = array(s[:n:n])
	return p
}

func (w *W) sliceOp(fr *frame, in *ssa.Slice) value {
	x := fr.get(in.X)
	opt := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return w.toInt64(fr.get(v), v.Type())
	}
	lo, hi, mx := opt(in.Low), opt(in.High), opt(in.Max)
	var ln, cp int
	switch a := x.(type) {
	case str:
		ln, cp = a.len(), a.len()
	case []value:
		ln, cp = len(a), cap(a)
	case *value:
		if a == nil {
			w.goPanicStr("invalid memory address or nil pointer dereference")
		}
		arr := (*a).(array)
		ln, cp = len(arr), len(arr)
	default:
		panic(unsupported{fmt.Sprintf("slice of %T", x)})
	}
	K := func(i int) *Term { return w.tc.BV(64, uint64(i)) }
	if lo == nil {
		lo = K(0)
	}
	if hi == nil {
		hi = K(ln)
	}
	limit := K(cp)
	if mx != nil {
		if !w.decide(w.tc.Cmp(OUle, mx, K(cp))) {
			w.goPanicStr("slice bounds out of range [::max]")
		}
		limit = mx
	}
	if !w.decide(w.tc.Cmp(OUle, hi, limit)) {
		w.goPanicStr(fmt.Sprintf("slice bounds out of range [:%s] with capacity %d", termInt(hi), cp))
	}
	if !w.decide(w.tc.Cmp(OUle, lo, hi)) {
		w.goPanicStr(fmt.Sprintf("slice bounds out of range [%s:%s]", termInt(lo), termInt(hi)))
	}
	l, h := int(w.concretize(lo)), int(w.concretize(hi))
	m := cp
	if mx != nil {
		m = int(w.concretize(mx))
	}
	switch a := x.(type) {
	case str:
		if a.b != nil {
			return mkStr(a.b[l:h])
		}
		return str{s: a.s[l:h]}
	case []value:
		if a == nil {
			return []value(nil)
		}
		return a[l:h:m]
	case *value:
		arr := (*a).(array)
		return []value(arr)[l:h:m]
	}
	return nil
}

func termInt(t *Term) string {
	if t.isConst() {
		return fmt.Sprint(int64(t.c))
	}
	return "symbolic"
}

func (w *W) rangeIter(x value) value {
	switch a := x.(type) {
	case *Map:
		it := &mapIter{m: a}
		if a != nil {
			it.ord = append([]*mapEntry(nil), a.entries...)
			if w.mapOrder != 0 && len(it.ord) > 1 && w.initing == nil {
				it.ord = w.permute(it.ord)
			}
		}
		return it
	case str:
		return &strIter{s: a}
	}
	panic(unsupported{fmt.Sprintf("range over %T", x)})
}

// permute chooses an iteration order: mode 1 = insertion or reverse, mode 2 = any (n<=4).
func (w *W) permute(ord []*mapEntry) []*mapEntry {
	if w.mapOrder == 1 || len(ord) > 4 {
		if w.choose("maporder", 2) == 1 {
			r := make([]*mapEntry, len(ord))
			for i := range ord {
				r[len(ord)-1-i] = ord[i]
			}
			return r
		}
		return ord
	}
	rest := append([]*mapEntry(nil), ord...)
	var out []*mapEntry
	for len(rest) > 0 {
		i := 0
		if len(rest) > 1 {
			i = w.choose("maporder", len(rest))
		}
		out = append(out, rest[i])
		rest = append(rest[:i:i], rest[i+1:]...)
	}
	return out
}

func (w *W) iterNext(it value, in *ssa.Next) value {
	switch x := it.(type) {
	case *mapIter:
		for x.i < len(x.ord) {
			e := x.ord[x.i]
			x.i++
			if e.deleted {
				continue
			}
			return tuple{w.tc.T, copyVal(e.k), copyVal(e.v)}
		}
		tt := in.Type().(*types.Tuple)
		z := func(i int) value {
			t := tt.At(i).Type()
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				return nil
			}
			return w.zero(t)
		}
		return tuple{w.tc.F, z(1), z(2)}
	case *strIter:
		n := x.s.len()
		if x.i >= n {
			return tuple{w.tc.F, w.tc.BV(64, 0), w.tc.BV(32, 0)}
		}
		b := w.strByte(x.s, x.i)
		at := w.tc.BV(64, uint64(x.i))
		if w.decide(w.tc.Cmp(OUlt, b, w.tc.BV(8, 0x80))) {
			x.i++
			return tuple{w.tc.T, at, w.tc.Zext(b, 32)}
		}
		rest := x.s
		if rest.b != nil {
			rest = mkStr(rest.b[x.i:])
		} else {
			rest = str{s: rest.s[x.i:]}
		}
		f := w.stdFunc("unicode/utf8", "DecodeRuneInString")
		r := w.callSSA(w.cur, w.cur.top, f, []value{rest}, nil).(tuple)
		sz := w.concretize(r[1].(*Term))
		x.i += int(sz)
		return tuple{w.tc.T, at, r[0]}
	}
	panic(unsupported{fmt.Sprintf("next on %T", it)})
}

func (w *W) stdFunc(pkg, name string) *ssa.Function {
	p := w.sh.prog.ImportedPackage(pkg)
	if p == nil {
		panic(unsupported{"package not loaded: " + pkg})
	}
	p.Build()
	return p.Func(name)
}

func (w *W) typeAssert(in *ssa.TypeAssert, x value) value {
	itf, ok := x.(iface)
	if !ok {
		panic(unsupported{fmt.Sprintf("type assert on %T", x)})
	}
	okv := false
	var v value
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if itf.t != nil && w.implements(itf.t, it) {
			okv = true
			v = itf
		} else {
			v = iface{}
		}
	} else if itf.t != nil && types.Identical(itf.t, in.AssertedType) {
		okv = true
		v = copyVal(itf.v)
	}
	if !okv {
		if !in.CommaOk {
			ts := "nil"
			if itf.t != nil {
				ts = itf.t.String()
			}
			w.goPanicStr(fmt.Sprintf("interface conversion: interface is %s, not %s", ts, in.AssertedType))
		}
		v = w.zero(in.AssertedType)
	}
	if in.CommaOk {
		return tuple{v, w.tc.Bool(okv)}
	}
	return v
}

func (w *W) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if b, ok := w.impl[k]; ok {
		return b
	}
	b := types.Implements(t, it)
	w.impl[k] = b
	return b
}

type implKey struct {
	t  types.Type
	it *types.Interface
}

// ---- operators ----

func (w *W) unop(fr *frame, in *ssa.UnOp, x value) value {
	switch in.Op {
	case token.ARROW:
		v, ok := w.chanRecv(fr.g, x, in.X.Type())
		if in.CommaOk {
			return tuple{v, ok}
		}
		return v
	case token.MUL:
		v := w.load(x)
		return v
	case token.SUB:
		switch a := x.(type) {
		case *Term:
			return w.tc.Neg(a)
		case float64:
			return -a
		case float32:
			return -a
		case lazyFloat:
			return lazyFloat(func() float64 { return -a() })
		}
	case token.NOT:
		return w.tc.Not(x.(*Term))
	case token.XOR:
		return w.tc.BNot(x.(*Term))
	}
	panic(unsupported{fmt.Sprintf("unop %s %T", in.Op, x)})
}

func (w *W) binop(op token.Token, t, ty types.Type, x, y value) value {
	tc := w.tc
	switch op {
	case token.EQL:
		return w.eqvSafe(t, x, y)
	case token.NEQ:
		return tc.Not(w.eqvSafe(t, x, y))
	}
	switch a := x.(type) {
	case *Term:
		b, ok := y.(*Term)
		if !ok {
			panic(unsupported{fmt.Sprintf("binop %s %T %T", op, x, y)})
		}
		if a.w == 0 {
			switch op {
			case token.AND, token.LAND:
				return tc.And(a, b)
			case token.OR, token.LOR:
				return tc.Or(a, b)
			case token.XOR:
				return tc.Not(tc.Eq(a, b))
			}
			panic(unsupported{"bool binop " + op.String()})
		}
		sg := isSigned(t)
		switch op {
		case token.ADD:
			return tc.Bin(OAdd, a, b)
		case token.SUB:
			return tc.Bin(OSub, a, b)
		case token.MUL:
			return tc.Bin(OMul, a, b)
		case token.QUO, token.REM:
			if w.decide(tc.Eq(b, tc.BV(b.w, 0))) {
				w.goPanicStr("integer divide by zero")
			}
			o := OUDiv
			switch {
			case op == token.QUO && sg:
				o = OSDiv
			case op == token.REM && sg:
				o = OSRem
			case op == token.REM:
				o = OURem
			}
			// signed ops on non-negative operands are unsigned ops
			if sg && a.w <= 64 && maxU(a) < 1<<(a.w-1) && maxU(b) < 1<<(b.w-1) {
				if o == OSDiv {
					o = OUDiv
				} else if o == OSRem {
					o = OURem
				}
			}
			return tc.Bin(o, a, b)
		case token.AND:
			return tc.Bin(OBAnd, a, b)
		case token.OR:
			return tc.Bin(OBOr, a, b)
		case token.XOR:
			return tc.Bin(OBXor, a, b)
		case token.AND_NOT:
			return tc.Bin(OBAnd, a, tc.BNot(b))
		case token.SHL, token.SHR:
			if isSigned(ty) && !b.isConst() {
				if w.decide(tc.Cmp(OSlt, b, tc.BV(b.w, 0))) {
					w.goPanicStr("negative shift amount")
				}
			} else if b.isConst() && isSigned(ty) && sext64(b.c, b.w) < 0 {
				w.goPanicStr("negative shift amount")
			}
			// normalise the amount to a's width
			var amt *Term
			var over *Term = tc.F
			if b.w > a.w {
				over = tc.Not(tc.Cmp(OUlt, b, tc.BV(b.w, uint64(a.w))))
				amt = tc.Extract(b, a.w-1, 0)
			} else {
				amt = tc.Zext(b, a.w)
				if a.w < 64 && b.isConst() && b.c >= uint64(a.w) {
					over = tc.T
				}
			}
			if op == token.SHL {
				return tc.Ite(over, tc.BV(a.w, 0), tc.Bin(OShl, a, amt))
			}
			if sg {
				sat := tc.Ite(tc.Cmp(OSlt, a, tc.BV(a.w, 0)), tc.BV(a.w, ^uint64(0)), tc.BV(a.w, 0))
				return tc.Ite(over, sat, tc.Bin(OAshr, a, amt))
			}
			return tc.Ite(over, tc.BV(a.w, 0), tc.Bin(OLshr, a, amt))
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			lt, le := OUlt, OUle
			if sg {
				lt, le = OSlt, OSle
			}
			switch op {
			case token.LSS:
				return tc.Cmp(lt, a, b)
			case token.LEQ:
				return tc.Cmp(le, a, b)
			case token.GTR:
				return tc.Cmp(lt, b, a)
			case token.GEQ:
				return tc.Cmp(le, b, a)
			}
		}
	case str:
		b := y.(str)
		switch op {
		case token.ADD:
			if a.b == nil && b.b == nil {
				return str{s: a.s + b.s}
			}
			if a.len() == 0 {
				return b
			}
			if b.len() == 0 {
				return a
			}
			return str{b: append(append([]*Term(nil), w.strBytes(a)...), w.strBytes(b)...)}
		case token.LSS:
			return w.strLess(a, b)
		case token.GTR:
			return w.strLess(b, a)
		case token.LEQ:
			return tc.Not(w.strLess(b, a))
		case token.GEQ:
			return tc.Not(w.strLess(a, b))
		}
	case lazyFloat:
		return w.lazyOp(op, a, y)
	case float64:
		if b, ok := y.(lazyFloat); ok {
			return w.lazyOp(op, a, b)
		}
		return w.floatOp(op, a, y.(float64))
	case float32:
		r := w.floatOp(op, float64(a), float64(y.(float32)))
		if f, ok := r.(float64); ok {
			return float32(f)
		}
		return r
	}
	panic(unsupported{fmt.Sprintf("binop %s %T %T", op, x, y)})
}

func (w *W) eqvSafe(t types.Type, x, y value) *Term {
	// nil interface vs. typed etc. is handled in eqv; functions compare to nil only
	if f, ok := y.(*ssa.Function); ok && f == nil {
		switch a := x.(type) {
		case *ssa.Function:
			return w.tc.Bool(a == nil)
		default:
			return w.tc.F
		}
	}
	return w.eqv(t, x, y)
}

// lazyFloat is a float64 computed from symbolic integers: the integers are fixed when the value matters.
type lazyFloat func() float64

// forced returns the value of a float64 that matters.
func forced(x value) value {
	if f, ok := x.(lazyFloat); ok {
		return f()
	}
	return x
}

func (w *W) lazyOp(op token.Token, x, y value) value {
	switch op {
	case token.ADD, token.SUB, token.MUL, token.QUO:
		return lazyFloat(func() float64 {
			return w.floatOp(op, forced(x).(float64), forced(y).(float64)).(float64)
		})
	}
	return w.floatOp(op, forced(x).(float64), forced(y).(float64))
}

func (w *W) floatOp(op token.Token, a, b float64) value {
	switch op {
	case token.ADD:
		return a + b
	case token.SUB:
		return a - b
	case token.MUL:
		return a * b
	case token.QUO:
		return a / b
	case token.LSS:
		return w.tc.Bool(a < b)
	case token.LEQ:
		return w.tc.Bool(a <= b)
	case token.GTR:
		return w.tc.Bool(a > b)
	case token.GEQ:
		return w.tc.Bool(a >= b)
	}
	panic(unsupported{"float op " + op.String()})
}

func (w *W) conv(dst, src types.Type, x value) value {
	ud, us := dst.Underlying(), src.Underlying()
	if b, ok := ud.(*types.Basic); !ok || b.Kind() != types.Float64 {
		x = forced(x)
	}
	if po, ok := x.(poison); ok {
		panic(unsupported{"poison " + po.why})
	}
	switch d := ud.(type) {
	case *types.Pointer:
		// unsafe.Pointer -> *T
		switch p := x.(type) {
		case *value:
			if p != nil {
				w.checkUnsafeCast(d.Elem(), *p)
			}
			return p
		case dataPtr:
			return p
		}
		return x
	case *types.Slice:
		if s, ok := x.(str); ok {
			et := d.Elem().Underlying().(*types.Basic)
			if et.Kind() == types.Byte {
				if s.b == nil {
					r := make([]value, len(s.s))
					for i := range r {
						r[i] = w.tc.BV(8, uint64(s.s[i]))
					}
					return r
				}
				return toSlice(s.b)
			}
			// []rune
			var r []value
			it := &strIter{s: s}
			for {
				t := w.iterNext(it, nil).(tuple)
				if t[0].(*Term).isFalse() {
					break
				}
				r = append(r, t[2])
			}
			if r == nil {
				r = []value{}
			}
			return r
		}
		return x
	case *types.Basic:
		switch d.Kind() {
		case types.UnsafePointer:
			return x
		case types.String:
			switch s := x.(type) {
			case str:
				return s
			case []value:
				if us, ok := us.(*types.Slice); ok {
					if b, ok := us.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
						return w.runesToString(s)
					}
				}
				return mkStr(byteTerms(s))
			case *Term: // string(rune)
				return w.runesToString([]value{w.intConv(s, src, 32)})
			}
		case types.Float64:
			switch a := x.(type) {
			case float64:
				return a
			case float32:
				return float64(a)
			case lazyFloat:
				return a
			case *Term:
				f := lazyFloat(func() float64 {
					v := w.concretize(a)
					if isSigned(src) {
						return float64(sext64(uint64(v), a.w))
					}
					return float64(uint64(v))
				})
				if a.isConst() {
					return f()
				}
				return f
			}
		case types.Float32:
			switch a := x.(type) {
			case float64:
				return float32(a)
			case float32:
				return a
			case *Term:
				v := w.concretize(a)
				if isSigned(src) {
					return float32(sext64(uint64(v), a.w))
				}
				return float32(uint64(v))
			}
		default:
			if bw, sg, ok := basicWidth(d); ok {
				switch a := x.(type) {
				case *Term:
					return w.intConv(a, src, bw)
				case float64:
					if sg {
						return w.tc.BV(bw, uint64(int64(a)))
					}
					return w.tc.BV(bw, uint64(a))
				case float32:
					return w.tc.BV(bw, uint64(int64(a)))
				case *value: // uintptr(unsafe.Pointer)
					if a == nil {
						return w.tc.BV(bw, 0)
					}
					panic(unsupported{"pointer to uintptr"})
				}
			}
		}
	}
	panic(unsupported{fmt.Sprintf("conv %s -> %s (%T)", src, dst, x)})
}

// checkUnsafeCast rejects reinterpretation of memory as a different shape.
func (w *W) checkUnsafeCast(t types.Type, v value) {
	switch t.Underlying().(type) {
	case *types.Struct:
		if _, ok := v.(structure); ok {
			return
		}
	case *types.Array:
		if _, ok := v.(array); ok {
			return
		}
	case *types.Basic:
		if b := t.Underlying().(*types.Basic); true {
			if bw, _, ok := basicWidth(b); ok {
				if x, ok := v.(*Term); ok && x.w == bw {
					return
				}
			} else if _, ok := v.(str); ok && b.Kind() == types.String {
				return
			} else if _, ok := v.(float64); ok && b.Kind() == types.Float64 {
				return
			} else if b.Kind() == types.UnsafePointer {
				return
			}
		}
	case *types.Slice:
		if _, ok := v.([]value); ok {
			return
		}
	case *types.Interface:
		if _, ok := v.(iface); ok {
			return
		}
	default:
		return
	}
	panic(unsupported{fmt.Sprintf("unsafe cast to *%s of %T", t, v)})
}

func (w *W) intConv(a *Term, src types.Type, bw uint16) *Term {
	if a.w == bw {
		return a
	}
	if a.w > bw {
		return w.tc.Extract(a, bw-1, 0)
	}
	if isSigned(src) {
		return w.tc.Sext(a, bw)
	}
	return w.tc.Zext(a, bw)
}

func (w *W) runesToString(rs []value) value {
	var out []*Term
	for _, r := range rs {
		t := r.(*Term)
		if t.isConst() {
			for _, b := range []byte(string(rune(int32(t.c)))) {
				out = append(out, w.tc.BV(8, uint64(b)))
			}
			continue
		}
		if w.decide(w.tc.Cmp(OUlt, t, w.tc.BV(32, 0x80))) {
			out = append(out, w.tc.Extract(t, 7, 0))
			continue
		}
		f := w.stdFunc("unicode/utf8", "AppendRune")
		res := w.callSSA(w.cur, w.cur.top, f, []value{[]value(nil), t}, nil)
		out = append(out, byteTerms(res)...)
	}
	return mkStr(out)
}

// ---- builtins ----

func (w *W) callBuiltin(g *G, caller *frame, fn *ssa.Builtin, args []value) value {
	tc := w.tc
	switch fn.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		a, ok := args[0].([]value)
		if !ok {
			panic(unsupported{fmt.Sprintf("append to %T", args[0])})
		}
		var b []value
		switch s := args[1].(type) {
		case str:
			b = toSlice(w.strBytes(s))
		case []value:
			b = s
		default:
			panic(unsupported{fmt.Sprintf("append of %T", s)})
		}
		if len(b) == 0 {
			return a
		}
		n := len(a)
		if n+len(b) <= cap(a) {
			r := a[:n+len(b)]
			// the source may alias the destination: copy first
			tmp := make([]value, len(b))
			for i := range b {
				tmp[i] = copyVal(b[i])
			}
			for i := range tmp {
				w.storeCell(&r[n+i], tmp[i])
			}
			return r
		}
		nc := growCap(cap(a), n+len(b))
		r := make([]value, n+len(b), nc)
		copy(r, a)
		for i := range a {
			r[i] = copyVal(a[i])
		}
		for i := range b {
			r[n+i] = copyVal(b[i])
		}
		// spare capacity must hold zero values
		if nc > len(r) {
			var z value
			if st, ok := fn.Type().(*types.Signature); ok && st.Params().Len() > 0 {
				if sl, ok := st.Params().At(0).Type().Underlying().(*types.Slice); ok {
					full := r[:nc]
					for i := len(r); i < nc; i++ {
						z = w.zero(sl.Elem())
						full[i] = z
					}
				}
			}
		}
		return r
	case "copy":
		d := args[0].([]value)
		var s []value
		switch x := args[1].(type) {
		case str:
			s = toSlice(w.strBytes(x))
		case []value:
			s = x
		}
		n := min(len(d), len(s))
		tmp := make([]value, n)
		for i := range tmp {
			tmp[i] = copyVal(s[i])
		}
		for i := range tmp {
			w.storeCell(&d[i], tmp[i])
		}
		return tc.BV(64, uint64(n))
	case "close":
		w.chanClose(args[0])
		return nil
	case "delete":
		m, _ := args[0].(*Map)
		w.mapDelete(m, args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				for _, e := range append([]*mapEntry(nil), x.entries...) {
					w.mapRemoveEntry(x, e)
				}
			}
		case []value:
			if len(x) > 0 {
				et := fn.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
				for i := range x {
					w.storeCell(&x[i], w.zero(et))
				}
			}
		}
		return nil
	case "print", "println":
		return nil
	case "len":
		switch x := args[0].(type) {
		case str:
			return tc.BV(64, uint64(x.len()))
		case array:
			return tc.BV(64, uint64(len(x)))
		case *value:
			return tc.BV(64, uint64(len((*x).(array))))
		case []value:
			return tc.BV(64, uint64(len(x)))
		case *Map:
			if x == nil {
				return tc.BV(64, 0)
			}
			return tc.BV(64, uint64(x.n))
		case *Chan:
			if x == nil {
				return tc.BV(64, 0)
			}
			return tc.BV(64, uint64(len(x.buf)))
		}
	case "cap":
		switch x := args[0].(type) {
		case array:
			return tc.BV(64, uint64(len(x)))
		case *value:
			return tc.BV(64, uint64(len((*x).(array))))
		case []value:
			return tc.BV(64, uint64(cap(x)))
		case *Chan:
			if x == nil {
				return tc.BV(64, 0)
			}
			return tc.BV(64, uint64(x.cap))
		}
	case "min", "max":
		r := forced(args[0])
		for _, y := range args[1:] {
			y = forced(y)
			switch a := r.(type) {
			case *Term:
				b := y.(*Term)
				op := OUlt
				st := fn.Type().(*types.Signature)
				if isSigned(st.Params().At(0).Type()) {
					op = OSlt
				}
				lt := tc.Cmp(op, a, b)
				if fn.Name() == "min" {
					r = tc.Ite(lt, a, b)
				} else {
					r = tc.Ite(lt, b, a)
				}
			case float64:
				if fn.Name() == "min" {
					r = min(a, y.(float64))
				} else {
					r = max(a, y.(float64))
				}
			default:
				panic(unsupported{fmt.Sprintf("min/max of %T", r)})
			}
		}
		return r
	case "panic":
		panic(targetPanic{args[0]})
	case "recover":
		// caller is the deferred function's frame; its caller is the panicking frame.
		if caller != nil && caller.caller != nil && caller.caller.panicking {
			f := caller.caller
			f.panicking = false
			p := f.panicv.(targetPanic)
			f.panicv = nil
			if it, ok := p.v.(iface); ok {
				return it
			}
			return iface{t: types.Typ[types.String], v: str{s: "panic"}}
		}
		return iface{}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*value); ok && p != nil {
			return p
		}
		w.goPanicStr(fmt.Sprintf("value method %s.%s called using nil pointer", args[1].(str).s, args[2].(str).s))
	case "ssa:deferstack":
		return caller
	case "SliceData":
		s, _ := args[0].([]value)
		if cap(s) == 0 {
			if s == nil {
				return (*value)(nil)
			}
			return dataPtr{sl: s}
		}
		return dataPtr{sl: s[:cap(s)]}
	case "StringData":
		return dataPtr{s: args[0].(str), isStr: true}
	case "String":
		n := int(w.concretize(args[1].(*Term)))
		switch p := args[0].(type) {
		case dataPtr:
			if p.isStr {
				if p.s.b != nil {
					return mkStr(p.s.b[:n])
				}
				return str{s: p.s.s[:n]}
			}
			return mkStr(byteTerms(p.sl[:n]))
		case *value:
			if n == 0 {
				return str{}
			}
			if p != nil && n == 1 {
				return mkStr([]*Term{(*p).(*Term)})
			}
		}
	case "Slice":
		n := int(w.concretize(args[1].(*Term)))
		switch p := args[0].(type) {
		case dataPtr:
			if p.isStr {
				return toSlice(w.strBytes(p.s)[:n])
			}
			return p.sl[:n]
		case *value:
			if p == nil && n == 0 {
				return []value(nil)
			}
		}
	}
	panic(unsupported{fmt.Sprintf("builtin %s on %T", fn.Name(), args)})
}

// growCap mimics the runtime's growth policy (not its size-class rounding).
func growCap(old, need int) int {
	nc := old
	if need > 2*old {
		nc = need
	} else if old < 256 {
		nc = 2 * old
	} else {
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	if nc < 4 && need <= 4 {
		nc = need
	}
	return nc
}
