package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"go/types"
	"math/big"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type dec struct {
	dir bool
	val uint64
}

type item struct {
	prefix []dec
	model  map[string]Val
}

// violation is raised by Assert failures, uncaught panics, deadlocks.
type violation struct {
	label string
	msg   string
}

type inputRec struct {
	name  string
	kind  string // int, bytes, choose
	terms []*Term
	w     uint16
	val   uint64
}

type hashApp struct {
	in  []*Term
	cat *Term // concatenation (nil for empty)
	h   *Term // 256 bit
}

type obsRec struct {
	name string
	v    value
	t    types.Type
}

// Shared is the state common to all workers exploring one harness.
type Shared struct {
	prog     *ssa.Program
	vxPkg    *ssa.Package
	entry    *ssa.Function
	stubs    map[string]*ssa.Function
	params   map[string]int64
	harness  string
	deadline time.Time
	maxPaths int
	maxSteps int64
	qTimeout int
	seed     int64
	nSamples int

	mu       sync.Mutex
	cond     *sync.Cond
	queue    []*item
	active   int
	stop     bool
	started  int
	stats    Stats
	viol     []*Cex
	violSeen map[string]int
	samples  []*Vector
	rng      *rand.Rand
}

type Stats struct {
	Paths, Completed, Infeasible, Budget, Unsupported, Unknown int
	Asserts, AssertsConst, AssertQueries                       int
	Forks                                                      int
	Decisions                                                  int
	Steps                                                      int64
	Blocks                                                     int64
	Queries, QSat, QUnsat, QUnknown, Fallbacks, Cached         int
	SolverSec                                                  float64
	Hashes                                                     int
	Left                                                       int
	Switches                                                   int
	Why                                                        map[string]int
	Reach                                                      map[string]int
	Funcs                                                      map[string]int
	Stubs                                                      map[string]int
	AssertLabels                                               map[string]int
	MaxStepsPath                                               int64
	Mem                                                        uint64
	Hangs                                                      int
}

// Vector is one concrete assignment with expected observations.
type Vector struct {
	Harness  string           `json:"harness"`
	Inputs   []VecInput       `json:"inputs"`
	Obs      []VecObs         `json:"obs,omitempty"`
	Params   map[string]int64 `json:"params"`
	Expect   string           `json:"expect,omitempty"`
	Label    string           `json:"label,omitempty"`
	Msg      string           `json:"msg,omitempty"`
	NoNative bool             `json:"no_native,omitempty"`
}

type VecInput struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  string `json:"val"` // decimal for ints, hex for bytes
}

type VecObs struct {
	Name string `json:"name"`
	Val  string `json:"val"`
}

type Cex struct {
	Vec   *Vector
	Label string
	Msg   string
	Kind  string
	Real  bool // hashes consistent with the real SHA-256
	Stack string
}

// W is one worker.
type W struct {
	id int
	sh *Shared
	tc *TC
	sv *Solver

	globals  map[*ssa.Global]*value
	uniq     map[string][]*value // unique.Make: canonical values by type
	inited   map[*ssa.Package]bool
	initing  *ssa.Package
	noUndo   bool
	noStub   bool
	bodyOnly *ssa.Function
	b64      map[b64Quantum][]*Term
	undo     []undoRec
	consts   map[*ssa.Const]value
	names    map[*ssa.Function]string
	methods  map[mkey]*ssa.Function
	impl     map[implKey]bool
	fnHits   map[*ssa.Function]int
	stubHits map[string]int

	// per path
	prefix    []dec
	pos       int
	trace     []dec
	known     map[*Term]bool
	inputs    []*inputRec
	nondetN   int
	hashes    []*hashApp
	hashByLen map[int][]*hashApp
	obs       []obsRec
	steps     int64
	maxSteps  int64
	blockHits int64
	pc        int
	lastWhere string

	gs           []*G
	cur          *G
	mainWake     chan any
	crossPanic   any
	wgNative     sync.WaitGroup
	schedMode    int
	maxPreempt   int
	preemptions  int
	switches     int
	selectNondet bool
	pollCount    int
	chanID       int
	timers       []*timer
	timerFires   int
	vnow         int64
	mapOrder     int
	side         map[any]any
	symClock     bool
	looseHash    bool
	oracleHash   bool
	oracleN      int
	lastNow      *Term
	noNative     bool
	mustTerm     bool
	opaqueN      int
	codes        []*codeApp

	unknowns int
	local    Stats
}

func newWorker(id int, sh *Shared) *W {
	w := &W{id: id, sh: sh, tc: newTC()}
	w.sv = newSolver(w.tc, sh.qTimeout)
	w.globals = map[*ssa.Global]*value{}
	w.inited = map[*ssa.Package]bool{}
	w.consts = map[*ssa.Const]value{}
	w.names = map[*ssa.Function]string{}
	w.methods = map[mkey]*ssa.Function{}
	w.impl = map[implKey]bool{}
	w.fnHits = map[*ssa.Function]int{}
	w.stubHits = map[string]int{}
	w.local = newStats()
	return w
}

func newStats() Stats {
	return Stats{Why: map[string]int{}, Reach: map[string]int{}, Funcs: map[string]int{}, Stubs: map[string]int{}, AssertLabels: map[string]int{}}
}

func (w *W) vxType(name string) types.Type {
	return w.sh.vxPkg.Pkg.Scope().Lookup(name).Type()
}

func (w *W) addPC(t *Term) {
	if t.isTrue() {
		return
	}
	w.pc++
	w.tc.learn(t, true)
	w.sv.assert(t)
}

func (w *W) inPrefix() bool { return w.pos < len(w.prefix) }

func (w *W) pushItem(d dec, m map[string]Val) {
	np := make([]dec, len(w.trace)+1)
	copy(np, w.trace)
	np[len(w.trace)] = d
	w.local.Forks++
	sh := w.sh
	sh.mu.Lock()
	sh.queue = append(sh.queue, &item{prefix: np, model: m})
	sh.mu.Unlock()
	sh.cond.Signal()
}

// decide resolves a branch condition, forking when both sides are feasible.
func (w *W) decide(c *Term) bool {
	if c.isConst() {
		return c.c != 0
	}
	if w.initing != nil {
		panic(unsupported{"symbolic branch in package init"})
	}
	neg := false
	base := c
	if c.op == ONot {
		neg, base = true, c.a[0]
	}
	if v, ok := w.known[base]; ok {
		return v != neg
	}
	var dir bool
	if w.inPrefix() {
		dir = w.prefix[w.pos].dir
		w.pos++
		w.trace = append(w.trace, dec{dir: dir})
	} else {
		w.checkTime()
		dir = w.tc.evalBool(c)
		alt := c
		if dir {
			alt = w.tc.Not(c)
		}
		res, m := w.sv.check(alt, true)
		switch res {
		case resSat:
			w.pushItem(dec{dir: !dir}, m)
		case resUnknown:
			w.unknowns++
		}
		w.local.Decisions++
		w.trace = append(w.trace, dec{dir: dir})
	}
	w.known[base] = dir != neg
	if dir {
		w.addPC(c)
	} else {
		w.addPC(w.tc.Not(c))
	}
	return dir
}

func (w *W) checkTime() {
	if time.Now().After(w.sh.deadline) {
		panic(pathEnd{"timeout", "time budget"})
	}
}

// concretize forks over the feasible values of t.
func (w *W) concretize(t *Term) int64 {
	if t.isConst() {
		return int64(t.c)
	}
	if t.w > 64 {
		panic(unsupported{"concretize wide term"})
	}
	if w.initing != nil {
		panic(unsupported{"symbolic value in package init"})
	}
	for n := 0; ; n++ {
		if n > 5000 {
			panic(unsupported{"concretize: too many values"})
		}
		if w.inPrefix() {
			d := w.prefix[w.pos]
			w.pos++
			w.trace = append(w.trace, d)
			eq := w.tc.Eq(t, w.tc.BV(t.w, d.val))
			if d.dir {
				w.addPC(eq)
				return int64(d.val)
			}
			w.addPC(w.tc.Not(eq))
			continue
		}
		w.checkTime()
		if os.Getenv("VX_CONC") != "" {
			fmt.Fprintln(os.Stderr, "concretize", w.cur.top.stack())
		}
		v := w.tc.evalU(t)
		eq := w.tc.Eq(t, w.tc.BV(t.w, v))
		res, m := w.sv.check(w.tc.Not(eq), true)
		switch res {
		case resSat:
			w.pushItem(dec{dir: false, val: v}, m)
		case resUnknown:
			w.unknowns++
		}
		w.local.Decisions++
		w.trace = append(w.trace, dec{dir: true, val: v})
		w.addPC(eq)
		return int64(v)
	}
}

// choose forks over 0..n-1 unconditionally.
func (w *W) choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	if w.inPrefix() {
		d := w.prefix[w.pos]
		w.pos++
		w.trace = append(w.trace, d)
		return int(d.val)
	}
	w.checkTime()
	for i := n - 1; i >= 1; i-- {
		m := make(map[string]Val, len(w.tc.model))
		for k, v := range w.tc.model {
			m[k] = v
		}
		w.pushItem(dec{val: uint64(i)}, m)
	}
	w.local.Decisions++
	w.trace = append(w.trace, dec{val: 0})
	return 0
}

func (w *W) assume(c *Term) {
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		panic(pathEnd{"infeasible", "assume"})
	}
	if w.inPrefix() {
		w.addPC(c)
		return
	}
	if !w.tc.evalBool(c) {
		res, m := w.sv.check(c, true)
		switch res {
		case resUnsat:
			panic(pathEnd{"infeasible", "assume"})
		case resUnknown:
			panic(pathEnd{"unknown", "assume"})
		}
		w.tc.setModel(m)
	}
	w.addPC(c)
}

// assertProp checks a property on the current path.
func (w *W) assertProp(c *Term, label string) {
	if !w.inPrefix() {
		w.local.Asserts++
		w.local.AssertLabels[label]++
	}
	if c.isTrue() {
		if !w.inPrefix() {
			w.local.AssertsConst++
		}
		return
	}
	if w.inPrefix() {
		// already decided on the path that created this prefix
		w.addPC(c)
		return
	}
	w.checkTime()
	w.local.AssertQueries++
	if c.isFalse() {
		w.reportCex(nil, label, "assertion is false", "assert")
		panic(pathEnd{"violated", label})
	}
	res, m := w.sv.check(w.tc.Not(c), true)
	switch res {
	case resUnknown:
		w.unknowns++
		w.local.Unknown++
		w.local.Why["assert undecided: "+label]++
	case resSat:
		w.reportCexModel(w.tc.Not(c), m, label, "assertion violated", "assert")
	}
	if !w.tc.evalBool(c) {
		r2, m2 := w.sv.check(c, true)
		if r2 != resSat {
			panic(pathEnd{"violated", label})
		}
		w.tc.setModel(m2)
	}
	w.addPC(c)
}

func (w *W) reportCex(extra *Term, label, msg, kind string) {
	w.reportCexModel(extra, nil, label, msg, kind)
}

func (w *W) reportCexModel(extra *Term, m map[string]Val, label, msg, kind string) {
	key := label
	if kind == "panic" {
		key = label + msg
	}
	w.sh.mu.Lock()
	n := w.sh.violSeen[key]
	w.sh.violSeen[key]++
	w.sh.mu.Unlock()
	if n >= 6 {
		return
	}
	save := w.tc.model
	if m != nil {
		w.tc.setModel(m)
	}
	real := w.realize(extra, true)
	vec := w.vector()
	vec.Label, vec.Msg = label, msg
	cx := &Cex{Vec: vec, Label: label, Msg: msg, Kind: kind, Real: real}
	if w.cur != nil && w.cur.top != nil {
		cx.Stack = w.cur.top.stack()
	}
	w.tc.setModel(save)
	w.sh.mu.Lock()
	w.sh.viol = append(w.sh.viol, cx)
	w.sh.mu.Unlock()
}

// hashConsistent tells whether all hash variables have their real values under the model.
func (w *W) hashConsistent() bool {
	for _, h := range w.hashes {
		if h.h.isConst() {
			continue
		}
		if w.tc.evalBig(h.h).Cmp(w.realHash(h)) != 0 {
			return false
		}
	}
	return true
}

func (w *W) realHash(h *hashApp) *big.Int {
	b := make([]byte, len(h.in))
	for i, t := range h.in {
		b[i] = byte(w.tc.evalU(t))
	}
	s := sha256.Sum256(b)
	return new(big.Int).SetBytes(s[:])
}

// realize searches a model of PC ∧ extra in which hash variables carry real SHA-256 values.
func (w *W) realize(extra *Term, deep bool) bool {
	if w.hashConsistent() {
		return true
	}
	if deep && w.realizeRandom(extra) {
		return true
	}
	base := w.tc.model
	if w.realizeSeq(extra) {
		return true
	}
	if len(w.hashes) > 40 || !deep {
		return false
	}
	free := w.freeInputs()
	rng := rand.New(rand.NewSource(11))
	t0 := time.Now()
	for time.Since(t0) < 12*time.Second && len(free) > 0 {
		w.tc.setModel(base)
		cons := w.tc.T
		if extra != nil {
			cons = extra
		}
		for _, v := range free {
			if v.w < 16 || rng.Intn(2) == 0 {
				continue
			}
			b := make([]byte, (int(v.w)+7)/8)
			rng.Read(b)
			x := new(big.Int).SetBytes(b)
			// keep some of the bits of the model
			if rng.Intn(2) == 0 {
				mask := new(big.Int).Lsh(big.NewInt(1), uint(v.w)/2)
				mask.Sub(mask, big.NewInt(1))
				x.And(x, mask)
				old := w.tc.evalBig(v)
				x.Or(x, new(big.Int).AndNot(old, mask))
			}
			x.And(x, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(v.w)), big.NewInt(1)))
			c := w.tc.T
			if v.w > 64 {
				c = w.tc.Eq(v, w.tc.BigBV(v.w, x))
			} else {
				c = w.tc.Eq(v, w.tc.BV(v.w, x.Uint64()))
			}
			cons = w.tc.And(cons, c)
		}
		res, m := w.sv.check(cons, true)
		if res != resSat {
			continue
		}
		w.tc.setModel(m)
		if w.realizeSeq(cons) {
			return true
		}
	}
	w.tc.setModel(base)
	return false
}

// realizeSeq fixes the hash applications one after the other to the input of the current model.
func (w *W) realizeSeq(extra *Term) bool {
	cons := w.tc.T
	if extra != nil {
		cons = extra
	}
	var todo []*hashApp
	for _, h := range w.hashes {
		if !h.h.isConst() {
			todo = append(todo, h)
		}
	}
	for len(todo) > 0 {
		// an application whose input carries the value of another one comes after that one
		next := 0
		ins := make([][]byte, len(todo))
		outs := make([][]byte, len(todo))
		for i, h := range todo {
			ins[i] = make([]byte, len(h.in))
			for j, t := range h.in {
				ins[i][j] = byte(w.tc.evalU(t))
			}
			outs[i] = w.tc.evalBig(h.h).FillBytes(make([]byte, 32))
		}
	pick:
		for i := range todo {
			for j := range todo {
				if j != i && len(ins[i]) >= 32 && bytes.Contains(ins[i], outs[j]) {
					continue pick
				}
			}
			next = i
			break
		}
		h := todo[next]
		todo = append(todo[:next:next], todo[next+1:]...)
		real := w.realHash(h)
		add := w.tc.Eq(h.h, w.tc.BigBV(256, real))
		if h.cat != nil {
			add = w.tc.And(add, w.tc.Eq(h.cat, w.tc.BigBV(h.cat.w, w.tc.evalBig(h.cat))))
		}
		c2 := w.tc.And(cons, add)
		res, m := w.sv.check(c2, true)
		if res != resSat {
			return false
		}
		w.tc.setModel(m)
		cons = c2
	}
	return w.hashConsistent()
}

func (w *W) freeInputs() []*Term {
	var free []*Term
	seen := map[*Term]bool{}
	for _, in := range w.inputs {
		for _, t := range in.terms {
			for t.op == OExtract || t.op == OZext {
				t = t.a[0]
			}
			if t.op == OVar && !seen[t] {
				seen[t] = true
				free = append(free, t)
			}
		}
	}
	return free
}

// realizeRandom mutates the free inputs of the model until path condition ∧ extra hold under real SHA-256
// values (needed when they constrain bits of hash values).
func (w *W) realizeRandom(extra *Term) bool {
	if len(w.hashes) == 0 || len(w.hashes) > 60 {
		return false
	}
	base := w.tc.model
	free := w.freeInputs()
	if len(free) == 0 {
		return false
	}
	rng := rand.New(rand.NewSource(7))
	t0 := time.Now()
	for try := 0; try < 20000 && time.Since(t0) < 3*time.Second; try++ {
		m := make(map[string]Val, len(base))
		for k, v := range base {
			m[k] = v
		}
		for _, v := range free {
			if try == 0 || rng.Intn(2) == 0 {
				continue
			}
			x := new(big.Int)
			if v.w > 64 {
				if b := m[v.name].b; b != nil {
					x.Set(b)
				}
			} else {
				x.SetUint64(m[v.name].u)
			}
			// flip one random bit or a random byte
			for k := 0; k < 1+rng.Intn(8); k++ {
				b := rng.Intn(int(v.w) + 1)
				if b < int(v.w) {
					x.SetBit(x, b, x.Bit(b)^1)
				}
			}
			m[v.name] = mkVal(x, v.w)
		}
		w.tc.setModel(m)
		for _, h := range w.hashes {
			if !h.h.isConst() {
				w.tc.assign(h.h, Val{b: w.realHash(h)})
			}
		}
		ok := extra == nil || w.tc.evalBool(extra)
		for _, c := range w.sv.pc {
			if !ok {
				break
			}
			ok = w.tc.evalBool(c)
		}
		if ok {
			return true
		}
	}
	w.tc.setModel(base)
	return false
}

func (w *W) vector() *Vector {
	v := &Vector{Harness: w.sh.harness, Params: w.sh.params, NoNative: w.noNative}
	for _, in := range w.inputs {
		vi := VecInput{Name: in.name, Kind: in.kind}
		switch in.kind {
		case "choose":
			vi.Val = fmt.Sprint(in.val)
		case "int":
			u := w.tc.evalU(in.terms[0])
			vi.Val = fmt.Sprint(u)
		case "bytes":
			b := make([]byte, len(in.terms))
			for i, t := range in.terms {
				b[i] = byte(w.tc.evalU(t))
			}
			vi.Val = hex.EncodeToString(b)
		}
		v.Inputs = append(v.Inputs, vi)
	}
	for _, o := range w.obs {
		v.Obs = append(v.Obs, VecObs{Name: o.name, Val: w.obsString(o.v, o.t)})
	}
	return v
}

// obsString renders an observed value in the canonical form that the native side produces too.
func (w *W) obsString(v value, t types.Type) string {
	switch x := v.(type) {
	case *Term:
		if x.w == 0 {
			return fmt.Sprint(w.tc.evalBool(x))
		}
		u := w.tc.evalU(x)
		if isSigned(t) {
			return fmt.Sprint(sext64(u, x.w))
		}
		return fmt.Sprint(u)
	case str:
		b := make([]byte, x.len())
		for i, t := range w.strBytes(x) {
			b[i] = byte(w.tc.evalU(t))
		}
		return "s:" + hex.EncodeToString(b)
	case []value:
		if x == nil {
			return "[]"
		}
		var et types.Type
		if s, ok := t.Underlying().(*types.Slice); ok {
			et = s.Elem()
		}
		return w.obsSeq(x, et)
	case array:
		var et types.Type
		if s, ok := t.Underlying().(*types.Array); ok {
			et = s.Elem()
		}
		return w.obsSeq(x, et)
	case iface:
		if x.t == nil {
			return "nil"
		}
		if b, ok := x.t.Underlying().(*types.Basic); ok && b.Info()&(types.IsInteger|types.IsString|types.IsBoolean) != 0 {
			return w.obsString(x.v, x.t)
		}
		switch x.t.Underlying().(type) {
		case *types.Slice, *types.Array:
			return w.obsString(x.v, x.t)
		}
		return "non-nil"
	case *value:
		if x == nil {
			return "nil"
		}
		return "non-nil"
	}
	return "?"
}

func (w *W) obsSeq(x []value, et types.Type) string {
	if len(x) > 0 {
		if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			bs := make([]byte, len(x))
			for i := range x {
				bs[i] = byte(w.tc.evalU(x[i].(*Term)))
			}
			return "b:" + hex.EncodeToString(bs)
		}
	} else if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
		return "b:"
	}
	var sb strings.Builder
	sb.WriteString("[")
	for i := range x {
		if i > 0 {
			sb.WriteString(",")
		}
		sb.WriteString(w.obsString(x[i], et))
	}
	sb.WriteString("]")
	return sb.String()
}

// ---- hashing ----

// sha256Sum models SHA-256 as a collision-free function.
func (w *W) sha256Sum(in []*Term) []*Term {
	conc := true
	for _, t := range in {
		if !t.isConst() {
			conc = false
			break
		}
	}
	if conc && w.initing != nil {
		return w.realSum(in)
	}
	var cat *Term
	if len(in) > 0 {
		cat = w.concatTerms(in)
	}
	for _, h := range w.hashByLen[len(in)] {
		if h.cat == cat {
			return w.splitHash(h.h)
		}
	}
	h := &hashApp{in: in, cat: cat}
	if w.oracleHash {
		// an ideal hash: equal inputs (decided by forking) have equal values, others fresh constants
		for _, o := range w.hashByLen[len(in)] {
			if o.cat != nil && cat != nil && w.decide(w.tc.Eq(o.cat, cat)) {
				return w.splitHash(o.h)
			}
		}
		var s [32]byte
		if conc {
			b := make([]byte, len(in))
			for i, t := range in {
				b[i] = byte(t.c)
			}
			s = sha256.Sum256(b)
		} else {
			w.oracleN++
			s = sha256.Sum256([]byte(fmt.Sprintf("oracle %d", w.oracleN)))
		}
		h.h = w.tc.BigBV(256, new(big.Int).SetBytes(s[:]))
		w.local.Hashes++
		w.hashes = append(w.hashes, h)
		w.hashByLen[len(in)] = append(w.hashByLen[len(in)], h)
		return w.splitHash(h.h)
	}
	if conc {
		b := make([]byte, len(in))
		for i, t := range in {
			b[i] = byte(t.c)
		}
		s := sha256.Sum256(b)
		h.h = w.tc.BigBV(256, new(big.Int).SetBytes(s[:]))
	} else {
		h.h = w.tc.Var(fmt.Sprintf("sha!%d", len(w.hashes)), 256)
		if _, ok := w.tc.model[h.h.name]; !ok {
			w.tc.assign(h.h, Val{b: w.realHash(h)})
		}
	}
	w.local.Hashes++
	if w.looseHash {
		w.hashes = append(w.hashes, h)
		w.hashByLen[len(in)] = append(w.hashByLen[len(in)], h)
		return w.splitHash(h.h)
	}
	var ax []*Term
	for ln, hs := range w.hashByLenOrdered() {
		_ = ln
		for _, o := range hs {
			if o.h.isConst() && h.h.isConst() {
				continue
			}
			eqh := w.tc.Eq(o.h, h.h)
			if len(o.in) != len(in) {
				ax = append(ax, w.tc.Not(eqh))
			} else {
				eqi := w.tc.T
				if cat != nil {
					eqi = w.tc.Eq(o.cat, cat)
				}
				ax = append(ax, w.tc.Eq(eqi, eqh))
			}
		}
	}
	w.hashes = append(w.hashes, h)
	w.hashByLen[len(in)] = append(w.hashByLen[len(in)], h)
	w.addAxioms(ax)
	return w.splitHash(h.h)
}

func (w *W) hashByLenOrdered() [][]*hashApp {
	var ks []int
	for k := range w.hashByLen {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	r := make([][]*hashApp, 0, len(ks))
	for _, k := range ks {
		r = append(r, w.hashByLen[k])
	}
	return r
}

func (w *W) addAxioms(ax []*Term) {
	bad := false
	for _, a := range ax {
		if a.isTrue() {
			continue
		}
		w.addPC(a)
		if !w.inPrefix() && !bad && !w.tc.evalBool(a) {
			bad = true
		}
	}
	if bad {
		res, m := w.sv.check(nil, true)
		switch res {
		case resUnsat:
			panic(pathEnd{"infeasible", "axioms"})
		case resUnknown:
			panic(pathEnd{"unknown", "axioms"})
		}
		w.tc.setModel(m)
	}
}

func (w *W) realSum(in []*Term) []*Term {
	b := make([]byte, len(in))
	for i, t := range in {
		b[i] = byte(t.c)
	}
	s := sha256.Sum256(b)
	r := make([]*Term, 32)
	for i := range r {
		r[i] = w.tc.BV(8, uint64(s[i]))
	}
	return r
}

func (w *W) splitHash(h *Term) []*Term {
	r := make([]*Term, 32)
	for i := range r {
		hi := uint16(255 - 8*i)
		r[i] = w.tc.Extract(h, hi, hi-7)
	}
	return r
}

// codeApp is an application of an injective n-byte encoding (used for serialisers, signatures).
type codeApp struct {
	tag string
	in  []*Term
	cat *Term
	out *Term
	obj value
}

// encode models an injective, deterministic function from term lists to nbytes bytes.
func (w *W) encode(tag string, in []*Term, nbytes int, obj value) []*Term {
	var cat *Term
	if len(in) > 0 {
		cat = w.concatTerms(in)
	}
	for _, c := range w.codes {
		if c.tag == tag && len(c.in) == len(in) && c.cat == cat && c.out.w == uint16(8*nbytes) {
			return w.splitBytes(c.out, nbytes)
		}
	}
	c := &codeApp{tag: tag, in: in, cat: cat, obj: obj}
	name := fmt.Sprintf("code!%s!%d", tag, len(w.codes))
	c.out = w.tc.Var(name, uint16(8*nbytes))
	if _, ok := w.tc.model[name]; !ok {
		var sb strings.Builder
		sb.WriteString(tag)
		for _, t := range in {
			sb.WriteString("|")
			sb.WriteString(w.tc.evalBig(t).String())
		}
		var acc []byte
		for i := 0; len(acc) < nbytes; i++ {
			s := sha256.Sum256([]byte(fmt.Sprintf("%s#%d", sb.String(), i)))
			acc = append(acc, s[:]...)
		}
		b := new(big.Int).SetBytes(acc[:nbytes])
		w.tc.assign(c.out, mkVal(b, c.out.w))
	}
	var ax []*Term
	for _, o := range w.codes {
		if o.out.w != c.out.w {
			continue
		}
		eqo := w.tc.Eq(o.out, c.out)
		if o.tag != tag || len(o.in) != len(in) || (cat != nil && o.cat.w != cat.w) {
			ax = append(ax, w.tc.Not(eqo))
			continue
		}
		eqi := w.tc.T
		if cat != nil {
			eqi = w.tc.Eq(o.cat, cat)
		}
		ax = append(ax, w.tc.Eq(eqi, eqo))
	}
	w.codes = append(w.codes, c)
	w.addAxioms(ax)
	return w.splitBytes(c.out, nbytes)
}

func (w *W) splitBytes(t *Term, n int) []*Term {
	r := make([]*Term, n)
	for i := range r {
		hi := uint16(8*n - 1 - 8*i)
		r[i] = w.tc.Extract(t, hi, hi-7)
	}
	return r
}

// ---- path execution ----

func (w *W) runPath(it *item) {
	w.tc.reset()
	if it.model != nil {
		w.tc.setModel(it.model)
	}
	w.prefix = it.prefix
	w.pos = 0
	w.trace = w.trace[:0]
	w.known = map[*Term]bool{}
	w.inputs = nil
	w.nondetN = 0
	w.hashes = nil
	w.hashByLen = map[int][]*hashApp{}
	w.codes = nil
	w.obs = nil
	w.steps = 0
	w.maxSteps = w.sh.maxSteps
	w.undo = w.undo[:0]
	w.schedMode, w.maxPreempt, w.preemptions, w.selectNondet = 0, 0, 0, false
	w.chanID = 0
	w.timers = nil
	w.timerFires = 0
	w.pollCount = 0
	w.vnow = 0
	w.mapOrder = 0
	w.side = map[any]any{}
	w.symClock = false
	w.looseHash = false
	w.oracleHash = false
	w.oracleN = 0
	w.lastNow = nil
	w.noNative = false
	w.mustTerm = false
	w.opaqueN = 0
	w.crossPanic = nil
	w.mainWake = make(chan any)
	g0 := &G{id: 0, wake: make(chan struct{}), started: true}
	w.gs = []*G{g0}
	w.cur = g0
	unk0 := w.unknowns
	w.sv.beginPath()
	w.tc.bounds = nil
	outcome := ""
	why := ""
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch x := r.(type) {
			case pathEnd:
				outcome, why = x.kind, x.why
			case unsupported:
				outcome, why = "unsupported", x.why
			case targetPanic:
				outcome, why = "panic", w.panicString(x.v)
			case violation:
				outcome, why = "panic", x.msg
			default:
				if os.Getenv("VX_DEBUG") != "" {
					panic(r)
				}
				outcome, why = "unsupported", fmt.Sprintf("engine: %v", r)
			}
		}()
		w.call(g0, nil, w.sh.entry, nil)
		outcome = "ok"
	}()
	func() {
		defer func() {
			if r := recover(); r != nil {
				engineWarn(fmt.Sprintf("end of path: %v", r))
			}
		}()
		switch outcome {
		case "panic":
			w.reportCex(nil, "no-panic", why, "panic")
		case "deadlock":
			w.reportCex(nil, "no-deadlock", why, "deadlock")
		case "budget":
			if w.mustTerm {
				w.reportCex(nil, "terminates", why, "hang")
			}
		case "ok":
			w.maybeSample()
		}
	}()
	w.killAll()
	w.sv.endPath()
	for i := len(w.undo) - 1; i >= 0; i-- {
		u := w.undo[i]
		if u.f != nil {
			u.f()
		} else {
			*u.p = u.old
		}
	}
	w.undo = w.undo[:0]
	st := &w.local
	st.Paths++
	st.Steps += w.steps
	st.Blocks += w.blockHits
	w.blockHits = 0
	st.Switches += w.switches
	w.switches = 0
	if w.steps > st.MaxStepsPath {
		st.MaxStepsPath = w.steps
	}
	if w.unknowns > unk0 {
		st.Unknown++
	}
	switch outcome {
	case "ok":
		st.Completed++
	case "infeasible":
		st.Infeasible++
	case "unsupported":
		st.Unsupported++
		st.Why["unsupported: "+why]++
	case "budget":
		st.Budget++
		st.Why["budget: "+why]++
	case "timeout":
		st.Why["time budget exhausted"]++
		w.sh.mu.Lock()
		w.sh.queue = append(w.sh.queue, it)
		w.sh.stop = true
		w.sh.mu.Unlock()
	case "unknown":
		st.Unknown++
		st.Why["unknown: "+why]++
	}
}

func (w *W) maybeSample() {
	sh := w.sh
	sh.mu.Lock()
	n := sh.stats.Completed + 1
	sh.stats.Completed++ // rough global counter for sampling; corrected at the end
	take := len(sh.samples) < sh.nSamples
	slot := len(sh.samples)
	if !take && sh.nSamples > 0 {
		slot = sh.rng.Intn(n)
		take = slot < sh.nSamples
	}
	sh.mu.Unlock()
	if !take || w.noNative {
		return
	}
	save := w.tc.model
	if !w.realize(nil, false) {
		w.tc.setModel(save)
		return
	}
	v := w.vector()
	v.Expect = "ok"
	w.tc.setModel(save)
	sh.mu.Lock()
	if slot < len(sh.samples) {
		sh.samples[slot] = v
	} else {
		sh.samples = append(sh.samples, v)
	}
	sh.mu.Unlock()
}

func (w *W) loop() {
	sh := w.sh
	defer w.sv.close()
	for {
		sh.mu.Lock()
		for len(sh.queue) == 0 && sh.active > 0 && !sh.stop {
			sh.cond.Wait()
		}
		if sh.stop || len(sh.queue) == 0 {
			sh.mu.Unlock()
			sh.cond.Broadcast()
			break
		}
		it := sh.queue[len(sh.queue)-1]
		sh.queue = sh.queue[:len(sh.queue)-1]
		sh.active++
		sh.started++
		if sh.maxPaths > 0 && sh.started >= sh.maxPaths {
			sh.stop = true
		}
		sh.mu.Unlock()
		w.runPath(it)
		sh.mu.Lock()
		sh.active--
		if time.Now().After(sh.deadline) {
			sh.stop = true
		}
		sh.mu.Unlock()
		sh.cond.Broadcast()
	}
	w.mergeStats()
}

func (w *W) mergeStats() {
	sh := w.sh
	sh.mu.Lock()
	defer sh.mu.Unlock()
	d, s := &sh.stats, &w.local
	d.Paths += s.Paths
	d.Infeasible += s.Infeasible
	d.Budget += s.Budget
	d.Unsupported += s.Unsupported
	d.Unknown += s.Unknown
	d.Asserts += s.Asserts
	d.AssertsConst += s.AssertsConst
	d.AssertQueries += s.AssertQueries
	d.Forks += s.Forks
	d.Decisions += s.Decisions
	d.Steps += s.Steps
	d.Blocks += s.Blocks
	d.Hashes += s.Hashes
	d.Switches += s.Switches
	d.MaxStepsPath = max(d.MaxStepsPath, s.MaxStepsPath)
	d.Queries += w.sv.queries
	d.QSat += w.sv.qSat
	d.QUnsat += w.sv.qUnsat
	d.QUnknown += w.sv.qUnknown
	d.Fallbacks += w.sv.fallbacks
	d.Cached += w.sv.cached
	d.SolverSec += w.sv.time.Seconds()
	for k, v := range s.Why {
		d.Why[k] += v
	}
	for k, v := range s.Reach {
		d.Reach[k] += v
	}
	for k, v := range s.AssertLabels {
		d.AssertLabels[k] += v
	}
	for f, n := range w.fnHits {
		p := fnPkgPath(f)
		if strings.HasPrefix(p, "github.com/netsec-ethz/fpki") {
			pos := f.Prog.Fset.Position(f.Pos())
			if strings.Contains(pos.Filename, "zz_vx") || strings.Contains(pos.Filename, "zvx") || f.Synthetic != "" {
				continue
			}
			d.Funcs[f.String()] += n
		}
	}
	for k, v := range w.stubHits {
		d.Stubs[k] += v
	}
}

func (w *W) panicString(v value) string {
	it, ok := v.(iface)
	if !ok || it.t == nil {
		return "panic"
	}
	switch x := it.v.(type) {
	case str:
		return x.String()
	}
	f := w.methodByName(it.t, nil, "Error")
	if f == nil {
		return "panic of type " + it.t.String()
	}
	var res string
	func() {
		defer func() { recover() }()
		res = w.call(w.cur, nil, f, []value{it.v}).(str).String()
	}()
	return "error: " + res
}

func violationFromPanic(w *W, tp targetPanic, where string) violation {
	return violation{label: "no-panic", msg: w.panicString(tp.v) + " in " + where}
}

// explore runs all paths of one harness.
func (sh *Shared) explore(nw int) {
	sh.cond = sync.NewCond(&sh.mu)
	sh.stats = newStats()
	sh.violSeen = map[string]int{}
	sh.rng = rand.New(rand.NewSource(sh.seed))
	sh.queue = []*item{{}}
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			newWorker(i, sh).loop()
		}()
	}
	wg.Wait()
	sh.stats.Left = len(sh.queue)
}

var warned sync.Map

func engineWarn(s string) {
	if _, dup := warned.LoadOrStore(s, true); !dup {
		fmt.Fprintln(os.Stderr, "engine: "+s)
	}
}
