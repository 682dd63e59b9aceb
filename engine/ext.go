package main

import (
	"encoding/binary"
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type extFn func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value

var externals = map[string]extFn{}

const vxPath = "github.com/netsec-ethz/fpki/pkg/zvx"

// packages whose functions have no effect on the properties (logging, tracing)
var noopPkgs = map[string]bool{
	"github.com/golang/glog": true,
	"k8s.io/klog/v2":         true,
	"log":                    true,
}

// packages whose initialiser is not executed (their globals stay zero)
var skipInit = map[string]bool{
	"runtime": true, "internal/cpu": true, "internal/godebug": true, "os": true, "syscall": true, "internal/poll": true,
	"net": true, "reflect": true, "internal/reflectlite": true, "crypto": true, "log": true, "testing": true,
	"internal/runtime/atomic": true, "internal/syscall/unix": true, "internal/testlog": true, "internal/bisect": true,
	"crypto/x509": true, "math/rand": true, "math/rand/v2": true,
}

func reg(names string, f extFn) {
	for _, n := range strings.Fields(names) {
		externals[n] = f
	}
}

func (w *W) newInput(name, kind string, bw uint16, n int) *inputRec {
	rec := &inputRec{name: name, kind: kind, w: bw}
	id := w.nondetN
	w.nondetN++
	switch kind {
	case "int":
		rec.terms = []*Term{w.tc.Var(fmt.Sprintf("in%d!%s", id, name), bw)}
	case "bytes":
		if n == 32 {
			v := w.tc.Var(fmt.Sprintf("in%d!%s", id, name), 256)
			rec.terms = w.splitHash(v)
		} else {
			for i := 0; i < n; i++ {
				rec.terms = append(rec.terms, w.tc.Var(fmt.Sprintf("in%d!%s!%d", id, name, i), 8))
			}
		}
	}
	w.inputs = append(w.inputs, rec)
	return rec
}

func argStr(v value) string {
	s := v.(str)
	if s.b != nil {
		panic(unsupported{"symbolic name"})
	}
	return s.s
}

func (w *W) getSide(k any) any { return w.side[k] }

type mutexState struct {
	locked  bool
	readers int
}

func (w *W) mutex(p value) *mutexState {
	c, ok := p.(*value)
	if !ok || c == nil {
		w.goPanicStr("invalid memory address or nil pointer dereference (mutex)")
	}
	if s, ok := w.side[c].(*mutexState); ok {
		return s
	}
	s := &mutexState{}
	w.side[c] = s
	return s
}

type wgState struct{ n int64 }

func (w *W) wg(p value) *wgState {
	c := p.(*value)
	if c == nil {
		w.goPanicStr("invalid memory address or nil pointer dereference (WaitGroup)")
	}
	if s, ok := w.side[c].(*wgState); ok {
		return s
	}
	s := &wgState{}
	w.side[c] = s
	return s
}

type condState struct{ waiting []*bool }

func (w *W) lockMutex(g *G, p value) {
	m := w.mutex(p)
	w.schedPoint(g, "lock")
	if m.locked || m.readers > 0 {
		w.block(g, "mutex lock", func() bool { return !m.locked && m.readers == 0 })
	}
	m.locked = true
}

func (w *W) unlockMutex(g *G, p value) {
	m := w.mutex(p)
	if !m.locked {
		panic(violation{"no-panic", "fatal error: sync: unlock of unlocked mutex"})
	}
	m.locked = false
	w.schedPoint(g, "unlock")
}

type shaState struct{ buf []*Term }

func concInt(v value) (int64, bool) {
	t, ok := v.(*Term)
	if !ok || !t.isConst() {
		return 0, false
	}
	return sext64(t.c, t.w), true
}

func init() {
	vx := func(n string) string { return vxPath + "." + n }
	intIn := func(bw uint16) extFn {
		return func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
			return w.newInput(argStr(args[0]), "int", bw, 0).terms[0]
		}
	}
	reg(vx("U8"), intIn(8))
	reg(vx("U16"), intIn(16))
	reg(vx("U32"), intIn(32))
	reg(vx("U64")+" "+vx("Int")+" "+vx("I64"), intIn(64))
	reg(vx("Bool"), intIn(0))
	reg(vx("IntRange"), func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		t := w.newInput(argStr(args[0]), "int", 64, 0).terms[0]
		lo, hi := args[1].(*Term), args[2].(*Term)
		w.assume(w.tc.And(w.tc.Cmp(OSle, lo, t), w.tc.Cmp(OSle, t, hi)))
		return t
	})
	reg(vx("Choose"), func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		n := w.concretize(args[1].(*Term))
		if n <= 1 {
			return w.tc.BV(64, 0)
		}
		name := argStr(args[0])
		i := w.choose(name, int(n))
		w.inputs = append(w.inputs, &inputRec{name: name, kind: "choose", val: uint64(i)})
		return w.tc.BV(64, uint64(i))
	})
	reg(vx("Bytes"), func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		n := w.concretize(args[1].(*Term))
		return toSlice(w.newInput(argStr(args[0]), "bytes", 8, int(n)).terms)
	})
	reg(vx("String"), func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		n := w.concretize(args[1].(*Term))
		if n == 0 {
			w.newInput(argStr(args[0]), "bytes", 8, 0)
			return str{}
		}
		return mkStr(w.newInput(argStr(args[0]), "bytes", 8, int(n)).terms)
	})
	reg(vx("Hash32"), func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		return array(toSlice(w.newInput(argStr(args[0]), "bytes", 8, 32).terms))
	})
	reg(vx("Param"), func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		if v, ok := w.sh.params[argStr(args[0])]; ok {
			return w.tc.BV(64, uint64(v))
		}
		return args[1]
	})
	reg(vx("Assume"), func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		w.assume(args[0].(*Term))
		return nil
	})
	reg(vx("Assert")+" "+vx("Check"), func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		w.assertProp(args[0].(*Term), argStr(args[1]))
		return nil
	})
	reg(vx("Reach"), func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		w.local.Reach[argStr(args[0])]++
		return nil
	})
	reg(vx("Unsupported"), func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		panic(unsupported{argStr(args[0])})
	})
	reg(vx("Observe"), func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		it := args[1].(iface)
		v := it.v
		if s, ok := v.([]value); ok {
			c := make([]value, len(s))
			for i := range s {
				c[i] = copyVal(s[i])
			}
			v = c
		}
		if it.t == nil {
			w.obs = append(w.obs, obsRec{argStr(args[0]), iface{}, nil})
		} else {
			w.obs = append(w.obs, obsRec{argStr(args[0]), copyVal(v), it.t})
		}
		return nil
	})
	reg(vx("Symbolic"), func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value { return w.tc.T })
	cfg := func(f func(w *W, n int)) extFn {
		return func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
			n := 0
			if len(args) > 0 {
				n = int(w.concretize(args[0].(*Term)))
			}
			f(w, n)
			return nil
		}
	}
	reg(vx("MapOrder"), cfg(func(w *W, n int) { w.mapOrder = n }))
	reg(vx("Sched"), cfg(func(w *W, n int) {
		if n < 0 {
			w.schedMode = 0
			return
		}
		w.schedMode, w.maxPreempt = 1, n
		w.noNative = true
	}))
	reg(vx("Delays"), cfg(func(w *W, n int) {
		w.schedMode, w.maxPreempt = 2, n
		w.noNative = true
	}))
	reg(vx("SelectNondet"), cfg(func(w *W, n int) { w.selectNondet = true }))
	reg(vx("NoNative"), cfg(func(w *W, n int) { w.noNative = true }))
	reg(vx("MustTerminate"), cfg(func(w *W, n int) { w.mustTerm = true }))
	reg(vx("MaxSteps"), cfg(func(w *W, n int) { w.maxSteps = int64(n) }))
	reg(vx("SymClock"), cfg(func(w *W, n int) { w.symClock = true }))
	reg(vx("OracleHash"), cfg(func(w *W, n int) { w.oracleHash = true }))
	reg(vx("LooseHash"), cfg(func(w *W, n int) { w.looseHash = true }))
	reg(vx("Yield"), func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		if w.schedMode == 0 {
			w.yield(g)
		} else {
			w.schedPoint(g, "yield")
		}
		return nil
	})
	reg(vx("And"), func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		return w.tc.And(args[0].(*Term), args[1].(*Term))
	})
	reg(vx("Or"), func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		return w.tc.Or(args[0].(*Term), args[1].(*Term))
	})
	reg(vx("Implies"), func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		return w.tc.Or(w.tc.Not(args[0].(*Term)), args[1].(*Term))
	})
	reg(vx("IteInt"), func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		return w.tc.Ite(args[0].(*Term), args[1].(*Term), args[2].(*Term))
	})
	eqb := func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		return w.bytesEq(byteTerms(args[0]), byteTerms(args[1]))
	}
	reg(vx("EqBytes")+" bytes.Equal", eqb)
	reg(vx("ifaceEq"), func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		a, b := args[0].(iface), args[1].(iface)
		if a.t != nil && b.t != nil && types.Identical(a.t, b.t) && !types.Comparable(a.t) {
			return w.tc.F
		}
		return w.eqv(nil, a, b)
	})
	reg(vx("Opaque"), func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		tag := argStr(args[0])
		var in []*Term
		for _, p := range args[1].([]value) {
			bt := byteTerms(p)
			in = append(in, w.tc.BV(32, uint64(len(bt))))
			in = append(in, bt...)
		}
		return toSlice(w.encode("opaque:"+tag, in, 32, nil))
	})

	// ---- bytes / strings primitives ----
	reg("bytes.Compare internal/bytealg.Compare", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		x, y := byteTerms(args[0]), byteTerms(args[1])
		return w.tc.Ite(w.bytesLess(x, y), w.tc.BV(64, ^uint64(0)), w.tc.Ite(w.bytesEq(x, y), w.tc.BV(64, 0), w.tc.BV(64, 1)))
	})
	reg("internal/bytealg.CompareString strings.Compare", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		x, y := args[0].(str), args[1].(str)
		return w.tc.Ite(w.strLess(x, y), w.tc.BV(64, ^uint64(0)), w.tc.Ite(w.strEq(x, y), w.tc.BV(64, 0), w.tc.BV(64, 1)))
	})
	idxByte := func(w *W, b []*Term, c *Term) value {
		// symbolic result: first position as an ite chain would lose concreteness of slicing;
		// fork instead.
		for i, x := range b {
			if w.decide(w.tc.Eq(x, c)) {
				return w.tc.BV(64, uint64(i))
			}
		}
		return w.tc.BV(64, ^uint64(0))
	}
	reg("internal/bytealg.IndexByte bytes.IndexByte", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		return idxByte(w, byteTerms(args[0]), args[1].(*Term))
	})
	reg("internal/bytealg.IndexByteString strings.IndexByte internal/stringslite.IndexByte", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		return idxByte(w, w.strBytes(args[0].(str)), args[1].(*Term))
	})
	lastIdx := func(w *W, b []*Term, c *Term) value {
		for i := len(b) - 1; i >= 0; i-- {
			if w.decide(w.tc.Eq(b[i], c)) {
				return w.tc.BV(64, uint64(i))
			}
		}
		return w.tc.BV(64, ^uint64(0))
	}
	reg("internal/bytealg.LastIndexByte bytes.LastIndexByte", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		return lastIdx(w, byteTerms(args[0]), args[1].(*Term))
	})
	reg("internal/bytealg.LastIndexByteString strings.LastIndexByte", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		return lastIdx(w, w.strBytes(args[0].(str)), args[1].(*Term))
	})
	count := func(w *W, b []*Term, c *Term) value {
		r := w.tc.BV(64, 0)
		for _, x := range b {
			r = w.tc.Bin(OAdd, r, w.tc.B2BV(w.tc.Eq(x, c), 64))
		}
		return r
	}
	reg("internal/bytealg.Count", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		return count(w, byteTerms(args[0]), args[1].(*Term))
	})
	reg("internal/bytealg.CountString", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		return count(w, w.strBytes(args[0].(str)), args[1].(*Term))
	})
	index := func(w *W, s, sep []*Term) value {
		for i := 0; i+len(sep) <= len(s); i++ {
			if w.decide(w.bytesEq(s[i:i+len(sep)], sep)) {
				return w.tc.BV(64, uint64(i))
			}
		}
		return w.tc.BV(64, ^uint64(0))
	}
	reg("strings.Index internal/stringslite.Index internal/bytealg.IndexString", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		return index(w, w.strBytes(args[0].(str)), w.strBytes(args[1].(str)))
	})
	reg("bytes.Index internal/bytealg.Index", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		return index(w, byteTerms(args[0]), byteTerms(args[1]))
	})
	reg("internal/bytealg.Equal", eqb)
	reg("internal/bytealg.MakeNoZero", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		n := w.concretize(args[0].(*Term))
		s := make([]value, n)
		for i := range s {
			s[i] = w.tc.BV(8, 0)
		}
		return s
	})
	reg("unique.Make", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		t := fn.Signature.Params().At(0).Type()
		k := t.String()
		for _, p := range w.uniq[k] {
			if c := w.eqv(t, *p, args[0]); c.isTrue() {
				return structure{p}
			} else if !c.isConst() {
				panic(unsupported{"unique.Make of a symbolic value"})
			}
		}
		p := new(value)
		*p = args[0]
		if w.uniq == nil {
			w.uniq = map[string][]*value{}
		}
		w.uniq[k] = append(w.uniq[k], p)
		return structure{p}
	})
	reg("strings.Clone internal/stringslite.Clone", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value { return args[0] })
	reg("internal/abi.NoEscape internal/abi.Escape runtime.KeepAlive", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value { return args[0] })
	reg("strings.HasPrefix", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		s, p := args[0].(str), args[1].(str)
		if s.len() < p.len() {
			return w.tc.F
		}
		return w.bytesEq(w.strBytes(s)[:p.len()], w.strBytes(p))
	})
	reg("strings.HasSuffix", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		s, p := args[0].(str), args[1].(str)
		if s.len() < p.len() {
			return w.tc.F
		}
		return w.bytesEq(w.strBytes(s)[s.len()-p.len():], w.strBytes(p))
	})

	// ---- math ----
	f1 := func(name string, f func(float64) float64) {
		reg("math."+name, func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value { return f(forced(args[0]).(float64)) })
	}
	f1("Log2", math.Log2)
	f1("Log", math.Log)
	f1("Log10", math.Log10)
	f1("Ceil", math.Ceil)
	f1("Floor", math.Floor)
	f1("Sqrt", math.Sqrt)
	f1("Abs", math.Abs)
	f1("Trunc", math.Trunc)
	f1("Round", math.Round)
	f1("Exp", math.Exp)
	reg("math.Pow", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		return math.Pow(forced(args[0]).(float64), forced(args[1]).(float64))
	})
	reg("math.Float64bits", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		return w.tc.BV(64, math.Float64bits(forced(args[0]).(float64)))
	})
	reg("math.Float64frombits", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		return math.Float64frombits(uint64(w.concretize(args[0].(*Term))))
	})
	reg("math.Float32bits", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		return w.tc.BV(32, uint64(math.Float32bits(args[0].(float32))))
	})

	// ---- sync ----
	reg("(*sync.Mutex).Lock (*internal/sync.Mutex).Lock (*sync.RWMutex).Lock", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		w.lockMutex(g, args[0])
		return nil
	})
	reg("(*sync.Mutex).Unlock (*internal/sync.Mutex).Unlock (*sync.RWMutex).Unlock", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		w.unlockMutex(g, args[0])
		return nil
	})
	reg("(*sync.Mutex).TryLock (*internal/sync.Mutex).TryLock (*sync.RWMutex).TryLock", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		m := w.mutex(args[0])
		w.schedPoint(g, "trylock")
		if m.locked || m.readers > 0 {
			return w.tc.F
		}
		m.locked = true
		return w.tc.T
	})
	reg("(*sync.RWMutex).RLock", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		m := w.mutex(args[0])
		w.schedPoint(g, "rlock")
		if m.locked {
			w.block(g, "rlock", func() bool { return !m.locked })
		}
		m.readers++
		return nil
	})
	reg("(*sync.RWMutex).RUnlock", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		m := w.mutex(args[0])
		if m.readers == 0 {
			panic(violation{"no-panic", "fatal error: sync: RUnlock of unlocked RWMutex"})
		}
		m.readers--
		w.schedPoint(g, "runlock")
		return nil
	})
	reg("(*sync.WaitGroup).Add", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		s := w.wg(args[0])
		s.n += w.concretize(args[1].(*Term))
		if s.n < 0 {
			w.goPanicMsg("sync: negative WaitGroup counter")
		}
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		s := w.wg(args[0])
		s.n--
		if s.n < 0 {
			w.goPanicMsg("sync: negative WaitGroup counter")
		}
		w.schedPoint(g, "wg.Done")
		return nil
	})
	reg("(*sync.WaitGroup).Wait", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		s := w.wg(args[0])
		w.schedPoint(g, "wg.Wait")
		if s.n > 0 {
			w.block(g, "WaitGroup.Wait", func() bool { return s.n == 0 })
		}
		return nil
	})
	reg("(*sync.WaitGroup).Go", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		s := w.wg(args[0])
		s.n++
		f := args[1]
		w.spawn(fr, &nativeFn{"wg.Go", func(w *W, g *G, _ []value) value {
			w.call(g, nil, f, nil)
			s.n--
			return nil
		}}, nil)
		return nil
	})
	type onceState struct {
		done, running bool
	}
	reg("(*sync.Once).Do", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		p := args[0].(*value)
		// stored in the object so that package-level Onces used in init stay done
		s, ok := w.side[p].(*onceState)
		if !ok {
			s = &onceState{}
			if w.initing == nil {
				w.side[p] = s
			}
		}
		w.schedPoint(g, "once")
		if s.done {
			return nil
		}
		if s.running {
			w.block(g, "once", func() bool { return s.done })
			return nil
		}
		s.running = true
		defer func() { s.done = true }()
		w.call(g, fr, args[1], nil)
		return nil
	})
	reg("(*sync.Pool).Get", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		p := args[0].(*value)
		if s, ok := w.side[p].(*[]value); ok && len(*s) > 0 {
			v := (*s)[len(*s)-1]
			*s = (*s)[:len(*s)-1]
			return v
		}
		st := (*p).(structure)
		nf := st[len(st)-1]
		if isNilFunc(nf) {
			return iface{}
		}
		return w.call(g, fr, nf, nil)
	})
	reg("(*sync.Pool).Put", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		p := args[0].(*value)
		s, ok := w.side[p].(*[]value)
		if !ok {
			s = &[]value{}
			if w.initing == nil {
				w.side[p] = s
			}
		}
		*s = append(*s, args[1])
		return nil
	})
	reg("(*sync.Cond).Wait", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		p := args[0].(*value)
		cs, ok := w.side[p].(*condState)
		if !ok {
			cs = &condState{}
			w.side[p] = cs
		}
		woken := false
		cs.waiting = append(cs.waiting, &woken)
		st := (*p).(structure)
		var l iface
		for _, f := range st {
			if i, ok := f.(iface); ok {
				l = i
			}
		}
		unlock := w.methodByName(l.t, nil, "Unlock")
		lock := w.methodByName(l.t, nil, "Lock")
		w.call(g, fr, unlock, []value{l.v})
		w.block(g, "cond wait", func() bool { return woken })
		w.call(g, fr, lock, []value{l.v})
		return nil
	})
	wake := func(all bool) extFn {
		return func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
			cs, _ := w.side[args[0].(*value)].(*condState)
			if cs == nil {
				return nil
			}
			for len(cs.waiting) > 0 {
				*cs.waiting[0] = true
				cs.waiting = cs.waiting[1:]
				if !all {
					break
				}
			}
			return nil
		}
	}
	reg("(*sync.Cond).Signal", wake(false))
	reg("(*sync.Cond).Broadcast", wake(true))
	smap := func(w *W, p value) *Map {
		c := p.(*value)
		if m, ok := w.side[c].(*Map); ok {
			return m
		}
		m := newMap(types.NewInterfaceType(nil, nil))
		w.side[c] = m
		return m
	}
	reg("(*sync.Map).Load", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		w.schedPoint(g, "sync.Map")
		e := w.mapFind(smap(w, args[0]), args[1])
		if e == nil {
			return tuple{iface{}, w.tc.F}
		}
		return tuple{e.v, w.tc.T}
	})
	reg("(*sync.Map).Store", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		w.schedPoint(g, "sync.Map")
		w.mapSet(smap(w, args[0]), args[1], args[2])
		return nil
	})
	reg("(*sync.Map).LoadOrStore", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		w.schedPoint(g, "sync.Map")
		m := smap(w, args[0])
		if e := w.mapFind(m, args[1]); e != nil {
			return tuple{e.v, w.tc.T}
		}
		w.mapSet(m, args[1], args[2])
		return tuple{args[2], w.tc.F}
	})
	reg("(*sync.Map).Delete", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		w.mapDelete(smap(w, args[0]), args[1])
		return nil
	})
	reg("(*sync.Map).Range", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		m := smap(w, args[0])
		for _, e := range append([]*mapEntry(nil), m.entries...) {
			if e.deleted {
				continue
			}
			if !w.decide(w.call(g, fr, args[1], []value{e.k, e.v}).(*Term)) {
				break
			}
		}
		return nil
	})

	// ---- atomics ----
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		ld := func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
			w.schedPoint(g, "atomic")
			return w.load(args[0])
		}
		stv := func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
			w.schedPoint(g, "atomic")
			w.store(args[0], args[1])
			return nil
		}
		sw := func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
			w.schedPoint(g, "atomic")
			o := w.load(args[0])
			w.store(args[0], args[1])
			return o
		}
		cas := func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
			w.schedPoint(g, "atomic")
			o := w.load(args[0])
			if w.decide(w.eqv(nil, o, args[1])) {
				w.store(args[0], args[2])
				return w.tc.T
			}
			return w.tc.F
		}
		add := func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
			w.schedPoint(g, "atomic")
			n := w.tc.Bin(OAdd, w.load(args[0]).(*Term), args[1].(*Term))
			w.store(args[0], n)
			return n
		}
		reg("sync/atomic.Load"+ty, ld)
		reg("sync/atomic.Store"+ty, stv)
		reg("sync/atomic.Swap"+ty, sw)
		reg("sync/atomic.CompareAndSwap"+ty, cas)
		reg("sync/atomic.Add"+ty, add)
	}
	reg("(*sync/atomic.Value).Load", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		w.schedPoint(g, "atomic")
		return (*args[0].(*value)).(structure)[0]
	})
	reg("(*sync/atomic.Value).Store", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		w.schedPoint(g, "atomic")
		w.storeCell(&(*args[0].(*value)).(structure)[0], args[1])
		return nil
	})

	// ---- runtime ----
	reg("runtime.Gosched", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		// fair: a loop that spins lets every other goroutine run
		if w.schedMode != 0 {
			w.schedPoint(g, "gosched")
		}
		g.ready = nil
		if len(w.runnable()) <= 1 {
			w.fireTimerIfIdle()
		}
		if next := w.pickOther(g); next != g {
			w.transfer(g, next)
		}
		return nil
	})
	konst := func(v uint64) extFn {
		return func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value { return w.tc.BV(64, v) }
	}
	reg("runtime.GOMAXPROCS runtime.NumCPU", konst(8))
	reg("runtime.NumGoroutine", konst(1))
	nop := func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value { return w.noopResult(fn) }
	reg("runtime.GC runtime.SetFinalizer runtime/debug.FreeOSMemory runtime.ReadMemStats", nop)
	reg("fmt.Print fmt.Println fmt.Printf", nop)
	reg("os.TempDir", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value { return str{s: "/tmp"} })
	reg("github.com/netsec-ethz/fpki/pkg/util/debug.Chan2str", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value { return str{s: "0xc0"} })
	reg("os.Getenv", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value { return str{} })
	reg("(*internal/godebug.Setting).Value", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value { return str{} })
	reg("(*internal/godebug.Setting).IncNonDefault internal/godebug.New", nop)
	reg("runtime.Caller", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		return tuple{w.tc.BV(64, 0), str{s: "file"}, w.tc.BV(64, 0), w.tc.F}
	})

	// ---- time ----
	reg("time.Now", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		tp := w.stdFunc("time", "Unix")
		if w.symClock {
			sec := w.newInput("now", "int", 64, 0).terms[0]
			lo, hi := w.tc.BV(64, 0), w.tc.BV(64, 1<<33)
			c := w.tc.And(w.tc.Cmp(OSle, lo, sec), w.tc.Cmp(OSle, sec, hi))
			if w.lastNow != nil {
				c = w.tc.And(c, w.tc.Cmp(OSle, w.lastNow, sec))
			}
			w.lastNow = sec
			w.assume(c)
			return w.callSSA(g, fr, tp, []value{sec, w.tc.BV(64, 0)}, nil)
		}
		base := int64(1_700_000_000)
		return w.callSSA(g, fr, tp, []value{w.tc.BV(64, uint64(base+w.vnow/1e9)), w.tc.BV(64, uint64(w.vnow%1e9))}, nil)
	})
	reg("time.Sleep", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		d := w.concretize(args[0].(*Term))
		done := false
		w.addTimer(d, 0, func() { done = true })
		w.block(g, "sleep", func() bool { return done })
		return nil
	})
	mkTimerObj := func(w *W, fn *ssa.Function, d, period int64, f func(c *Chan)) value {
		obj := new(value)
		t := deref(fn.Signature.Results().At(0).Type())
		*obj = w.zero(t)
		w.chanID++
		c := &Chan{cap: 1, id: w.chanID}
		(*obj).(structure)[0] = c
		tm := w.addTimer(d, period, func() { f(c) })
		w.side[obj] = tm
		return obj
	}
	fireTime := func(w *W) func(c *Chan) {
		return func(c *Chan) {
			tt := w.stdFunc("time", "Unix")
			v := w.callSSA(w.gs[0], nil, tt, []value{w.tc.BV(64, uint64(1_700_000_000+w.vnow/1e9)), w.tc.BV(64, 0)}, nil)
			if len(c.buf) == 0 || len(c.recvq) > 0 {
				w.trySend(c, v)
			}
		}
	}
	reg("time.NewTimer", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		return mkTimerObj(w, fn, w.concretize(args[0].(*Term)), 0, fireTime(w))
	})
	reg("time.NewTicker", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		d := w.concretize(args[0].(*Term))
		if d <= 0 {
			w.goPanicMsg("non-positive interval for NewTicker")
		}
		return mkTimerObj(w, fn, d, d, fireTime(w))
	})
	reg("time.After time.Tick", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		d := w.concretize(args[0].(*Term))
		w.chanID++
		c := &Chan{cap: 1, id: w.chanID}
		p := int64(0)
		if fn.Name() == "Tick" {
			p = d
		}
		f := fireTime(w)
		w.addTimer(d, p, func() { f(c) })
		return c
	})
	reg("time.AfterFunc", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		f := args[1]
		return mkTimerObj(w, fn, w.concretize(args[0].(*Term)), 0, func(c *Chan) {
			w.spawn(w.gs[0].top, f, nil)
		})
	})
	stop := func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		was := false
		if p, ok := args[0].(*value); ok && p != nil {
			if tm, ok := w.side[p].(*timer); ok {
				was = tm.active
				tm.active = false
			}
		}
		if fn.Signature.Results().Len() == 0 {
			return nil
		}
		return w.tc.Bool(was)
	}
	reg("(*time.Timer).Stop (*time.Ticker).Stop", stop)
	reg("(*time.Timer).Reset (*time.Ticker).Reset", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		d := w.concretize(args[1].(*Term))
		was := false
		if tm, ok := w.side[args[0].(*value)].(*timer); ok {
			was = tm.active
			tm.active = true
			tm.at = w.vnow + d
			if tm.period > 0 {
				tm.period = d
			}
		}
		if fn.Signature.Results().Len() == 0 {
			return nil
		}
		return w.tc.Bool(was)
	})
	reg("time.initLocal", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value { return nil })
	reg("time.runtimeNano time.now runtime.nanotime", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		return w.noopResult(fn)
	})
	reg("(*time.Location).get", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		if p, ok := args[0].(*value); ok && p == nil {
			return w.global(w.sh.prog.ImportedPackage("time").Var("utcLoc"))
		}
		return args[0]
	})

	// ---- hashing ----
	reg("crypto/sha256.Sum256 github.com/minio/sha256-simd.Sum256", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		return array(toSlice(w.sha256Sum(byteTerms(args[0]))))
	})
	newSha := func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		obj := new(value)
		*obj = structure{}
		w.side[obj] = &shaState{}
		return iface{t: types.NewPointer(w.vxType("Sha")), v: obj}
	}
	reg("crypto/sha256.New github.com/minio/sha256-simd.New", newSha)
	shaM := func(n string) string { return "(*" + vxPath + ".Sha)." + n }
	reg(shaM("Write"), func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		s := w.side[args[0].(*value)].(*shaState)
		b := byteTerms(args[1])
		s.buf = append(s.buf, b...)
		return tuple{w.tc.BV(64, uint64(len(b))), iface{}}
	})
	reg(shaM("Sum"), func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		s := w.side[args[0].(*value)].(*shaState)
		pre := args[1].([]value)
		return append(append([]value(nil), pre...), toSlice(w.sha256Sum(s.buf))...)
	})
	reg(shaM("Reset"), func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		w.side[args[0].(*value)].(*shaState).buf = nil
		return nil
	})

	// ---- crypto/rand ----
	reg("crypto/rand.Read", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		s := args[0].([]value)
		rec := w.newInput("rand", "bytes", 8, len(s))
		for i := range s {
			w.storeCell(&s[i], rec.terms[i])
		}
		return tuple{w.tc.BV(64, uint64(len(s))), iface{}}
	})
	rnd := func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		w.opaqueN++
		n := args[len(args)-1].(*Term)
		t := w.tc.Var(fmt.Sprintf("rnd!%d", w.opaqueN), n.w)
		w.assume(w.tc.Cmp(OUlt, t, n))
		return t
	}
	reg("math/rand.Intn math/rand.Int63n math/rand.Int31n math/rand/v2.IntN (*math/rand.Rand).Intn", rnd)
	reg("math/rand.Int math/rand.Int63", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		w.opaqueN++
		t := w.tc.Var(fmt.Sprintf("rnd!%d", w.opaqueN), 64)
		w.assume(w.tc.Cmp(OUlt, t, w.tc.BV(64, 1<<62)))
		return t
	})

	// ---- sort ----
	reg("sort.Slice sort.SliceStable", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		it := args[0].(iface)
		s := it.v.([]value)
		less := args[1]
		lt := func(i, j int) bool {
			return w.decide(w.call(g, fr, less, []value{w.tc.BV(64, uint64(i)), w.tc.BV(64, uint64(j))}).(*Term))
		}
		for i := 1; i < len(s); i++ {
			for j := i; j > 0 && lt(j, j-1); j-- {
				a, b := copyVal(s[j]), copyVal(s[j-1])
				w.storeCell(&s[j], b)
				w.storeCell(&s[j-1], a)
			}
		}
		return nil
	})
	reg("internal/reflectlite.Swapper reflect.Swapper", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		s := args[0].(iface).v.([]value)
		return &nativeFn{"swapper", func(w *W, g *G, a []value) value {
			i, j := w.concretize(a[0].(*Term)), w.concretize(a[1].(*Term))
			x, y := copyVal(s[i]), copyVal(s[j])
			w.storeCell(&s[i], y)
			w.storeCell(&s[j], x)
			return nil
		}}
	})

	// ---- errors / fmt ----
	reg("errors.Is", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		return w.callSSA(g, fr, w.sh.vxPkg.Func("ErrorsIs"), args, nil)
	})
	reg("errors.As", errorsAs)
	reg("fmt.Errorf", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		var errs []value
		va, _ := args[1].([]value)
		s := w.format(g, fr, argStrSym(args[0]), va, &errs, true)
		obj := new(value)
		es := errs
		*obj = structure{s, es}
		return iface{t: types.NewPointer(w.vxType("FmtError")), v: obj}
	})
	reg("fmt.Sprintf", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		va, _ := args[1].([]value)
		return w.format(g, fr, argStrSym(args[0]), va, nil, false)
	})
	reg("fmt.Sprint fmt.Sprintln", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		va, _ := args[0].([]value)
		var parts []string
		for range va {
			parts = append(parts, "%v")
		}
		f := strings.Join(parts, " ")
		if fn.Name() == "Sprintln" {
			f += "\n"
		}
		return w.format(g, fr, f, va, nil, false)
	})
	reg("fmt.Fprintf fmt.Fprintln fmt.Fprint", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		dst := args[0].(iface)
		if dst.t == nil || strings.HasSuffix(dst.t.String(), "os.File") {
			return w.noopResult(fn)
		}
		var s str
		if fn.Name() == "Fprintf" {
			va, _ := args[2].([]value)
			s = w.format(g, fr, argStrSym(args[1]), va, nil, false)
		} else {
			va, _ := args[1].([]value)
			var parts []string
			for range va {
				parts = append(parts, "%v")
			}
			f := strings.Join(parts, " ")
			if fn.Name() == "Fprintln" {
				f += "\n"
			}
			s = w.format(g, fr, f, va, nil, false)
		}
		m := w.methodByName(dst.t, nil, "Write")
		return w.call(g, fr, m, []value{dst.v, toSlice(w.strBytes(s))})
	})
	reg("reflect.DeepEqual", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		a, b := args[0].(iface), args[1].(iface)
		if a.t == nil || b.t == nil {
			return w.tc.Bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return w.tc.F
		}
		return w.deepEq(a.v, b.v, 0)
	})
	_ = binary.BigEndian
}

func argStrSym(v value) string {
	s := v.(str)
	if s.b != nil {
		return s.String()
	}
	return s.s
}

func (w *W) deepEq(a, b value, depth int) *Term {
	if depth > 50 {
		panic(unsupported{"deepEq depth"})
	}
	switch x := a.(type) {
	case []value:
		y := b.([]value)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return w.tc.F
		}
		r := w.tc.T
		for i := range x {
			r = w.tc.And(r, w.deepEq(x[i], y[i], depth+1))
		}
		return r
	case array:
		y := b.(array)
		r := w.tc.T
		for i := range x {
			r = w.tc.And(r, w.deepEq(x[i], y[i], depth+1))
		}
		return r
	case structure:
		y := b.(structure)
		r := w.tc.T
		for i := range x {
			r = w.tc.And(r, w.deepEq(x[i], y[i], depth+1))
		}
		return r
	case *value:
		y := b.(*value)
		if x == y {
			return w.tc.T
		}
		if x == nil || y == nil {
			return w.tc.F
		}
		return w.deepEq(*x, *y, depth+1)
	case iface:
		y := b.(iface)
		if x.t == nil || y.t == nil {
			return w.tc.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return w.tc.F
		}
		return w.deepEq(x.v, y.v, depth+1)
	case *Map:
		y := b.(*Map)
		if (x == nil) != (y == nil) {
			return w.tc.F
		}
		if x == nil {
			return w.tc.T
		}
		if x.n != y.n {
			return w.tc.F
		}
		r := w.tc.T
		for _, e := range x.entries {
			o := w.mapFind(y, e.k)
			if o == nil {
				return w.tc.F
			}
			r = w.tc.And(r, w.deepEq(e.v, o.v, depth+1))
		}
		return r
	}
	return w.eqv(nil, a, b)
}

func errorsAs(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
	err := args[0].(iface)
	tgt := args[1].(iface)
	pt, ok := tgt.t.Underlying().(*types.Pointer)
	if !ok {
		w.goPanicMsg("errors: target must be a non-nil pointer")
	}
	et := pt.Elem()
	var walk func(e iface) bool
	walk = func(e iface) bool {
		for e.t != nil {
			if it, isI := et.Underlying().(*types.Interface); isI {
				if w.implements(e.t, it) {
					w.store(tgt.v, e)
					return true
				}
			} else if types.Identical(e.t, et) {
				w.store(tgt.v, e.v)
				return true
			}
			u := w.methodByName(e.t, nil, "Unwrap")
			if u == nil {
				return false
			}
			r := w.call(g, fr, u, []value{e.v})
			switch x := r.(type) {
			case iface:
				e = x
			case []value:
				for _, y := range x {
					if walk(y.(iface)) {
						return true
					}
				}
				return false
			default:
				return false
			}
		}
		return false
	}
	return w.tc.Bool(walk(err))
}

// format implements the fmt verbs that the code uses. In error messages symbolic data is abstracted.
func (w *W) format(g *G, fr *frame, f string, args []value, errs *[]value, lossy bool) str {
	var out []*Term
	lit := func(s string) {
		for i := 0; i < len(s); i++ {
			out = append(out, w.tc.BV(8, uint64(s[i])))
		}
	}
	ai := 0
	for i := 0; i < len(f); {
		if f[i] != '%' {
			out = append(out, w.tc.BV(8, uint64(f[i])))
			i++
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.*[]", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			lit(f[i:])
			break
		}
		spec := f[i : j+1]
		verb := f[j]
		i = j + 1
		if verb == '%' {
			lit("%")
			continue
		}
		if strings.Contains(spec, "*") {
			panic(unsupported{"format " + spec})
		}
		if ai >= len(args) {
			lit("%!" + string(verb) + "(MISSING)")
			continue
		}
		a := args[ai].(iface)
		ai++
		if verb == 'w' {
			if errs != nil && a.t != nil {
				*errs = append(*errs, a)
			}
			spec = strings.Replace(spec, "w", "v", 1)
			verb = 'v'
		}
		out = append(out, w.formatOne(g, fr, spec, verb, a, lossy)...)
	}
	if ai < len(args) {
		lit("%!(EXTRA)")
	}
	return mkStr(out)
}

func (w *W) strTerms(s string) []*Term { return w.strBytes(str{s: s}) }

func (w *W) formatOne(g *G, fr *frame, spec string, verb byte, a iface, lossy bool) []*Term {
	if a.t == nil {
		return w.strTerms(fmt.Sprintf(spec, nil))
	}
	if verb == 'T' {
		return w.strTerms(a.t.String())
	}
	if verb == 'p' {
		return w.strTerms("0xc000000000")
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		for _, mn := range []string{"Error", "String"} {
			m := w.methodByName(a.t, nil, mn)
			if m != nil && m.Signature.Results().Len() == 1 && m.Signature.Params().Len() == 0 {
				if lossy {
					// the text of wrapped errors is rarely used; avoid executing formatting code with symbolic data
					var s str
					ok := true
					func() {
						s, ok = w.call(g, fr, m, []value{a.v}).(str)
					}()
					if ok {
						return w.strBytes(s)
					}
				}
				s, ok := w.call(g, fr, m, []value{a.v}).(str)
				if ok {
					return w.fmtStr(spec, verb, s)
				}
			}
		}
	}
	switch x := forced(a.v).(type) {
	case str:
		return w.fmtStr(spec, verb, x)
	case float64:
		return w.strTerms(fmt.Sprintf(spec, x))
	case float32:
		return w.strTerms(fmt.Sprintf(spec, x))
	case *Term:
		if x.isConst() {
			if x.w == 0 {
				return w.strTerms(fmt.Sprintf(spec, x.c != 0))
			}
			if isSigned(a.t) {
				if x.w == 32 {
					return w.strTerms(fmt.Sprintf(spec, int32(sext64(x.c, x.w))))
				}
				return w.strTerms(fmt.Sprintf(spec, sext64(x.c, x.w)))
			}
			return w.strTerms(fmt.Sprintf(spec, x.c))
		}
		if lossy {
			return w.strTerms("<sym>")
		}
		if x.w == 0 {
			if w.decide(x) {
				return w.strTerms("true")
			}
			return w.strTerms("false")
		}
		if spec == "%d" || spec == "%v" {
			if isSigned(a.t) {
				f := w.stdFunc("strconv", "FormatInt")
				return w.strBytes(w.callSSA(g, fr, f, []value{w.tc.Sext(x, 64), w.tc.BV(64, 10)}, nil).(str))
			}
			f := w.stdFunc("strconv", "FormatUint")
			return w.strBytes(w.callSSA(g, fr, f, []value{w.tc.Zext(x, 64), w.tc.BV(64, 10)}, nil).(str))
		}
		v := w.concretize(x)
		if isSigned(a.t) {
			return w.strTerms(fmt.Sprintf(spec, sext64(uint64(v), x.w)))
		}
		return w.strTerms(fmt.Sprintf(spec, uint64(v)))
	case []value:
		return w.fmtBytes(spec, verb, []value(x), a.t, lossy)
	case array:
		return w.fmtBytes(spec, verb, []value(x), a.t, lossy)
	case *value:
		if x == nil {
			return w.strTerms("<nil>")
		}
		return w.strTerms("<ptr>")
	}
	if lossy {
		return w.strTerms("<value>")
	}
	return w.strTerms("<value>")
}

func (w *W) fmtStr(spec string, verb byte, s str) []*Term {
	if s.b == nil {
		return w.strTerms(fmt.Sprintf(spec, s.s))
	}
	if verb == 'x' {
		return w.hexTerms(s.b)
	}
	if len(spec) == 2 && (verb == 's' || verb == 'v') {
		return s.b
	}
	if verb == 'q' {
		return append(append(w.strTerms("\""), s.b...), w.strTerms("\"")...)
	}
	return s.b
}

func (w *W) hexTerms(b []*Term) []*Term {
	var out []*Term
	for _, t := range b {
		for _, nib := range []*Term{w.tc.Extract(t, 7, 4), w.tc.Extract(t, 3, 0)} {
			n8 := w.tc.Zext(nib, 8)
			out = append(out, w.tc.Ite(w.tc.Cmp(OUlt, n8, w.tc.BV(8, 10)), w.tc.Bin(OAdd, n8, w.tc.BV(8, '0')), w.tc.Bin(OAdd, n8, w.tc.BV(8, 'a'-10))))
		}
	}
	return out
}

func (w *W) fmtBytes(spec string, verb byte, x []value, t types.Type, lossy bool) []*Term {
	isBytes := true
	for _, e := range x {
		if tt, ok := e.(*Term); !ok || tt.w != 8 {
			isBytes = false
		}
	}
	if isBytes {
		b := byteTerms(x)
		conc := true
		bs := make([]byte, len(b))
		for i, tt := range b {
			if !tt.isConst() {
				conc = false
			} else {
				bs[i] = byte(tt.c)
			}
		}
		if conc {
			return w.strTerms(fmt.Sprintf(spec, bs))
		}
		if verb == 'x' {
			return w.hexTerms(b)
		}
		if verb == 's' {
			return b
		}
		return w.strTerms("<bytes>")
	}
	if lossy {
		return w.strTerms("<slice>")
	}
	// generic slice: [a b c]
	var et types.Type
	switch u := t.Underlying().(type) {
	case *types.Slice:
		et = u.Elem()
	case *types.Array:
		et = u.Elem()
	}
	out := w.strTerms("[")
	for i, e := range x {
		if i > 0 {
			out = append(out, w.strTerms(" ")...)
		}
		var it iface
		if ie, ok := e.(iface); ok {
			it = ie
		} else {
			it = iface{t: et, v: e}
		}
		out = append(out, w.formatOne(w.cur, w.cur.top, "%v", 'v', it, lossy)...)
	}
	return append(out, w.strTerms("]")...)
}
