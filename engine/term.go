package main

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"strings"
)

// Terms: quantifier-free bit-vector expressions. Width 0 means Bool.

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OShl
	OLshr
	OAshr
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OUlt
	OUle
	OSlt
	OSle
	OConcat
	OExtract
	OZext
	OSext
)

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OAdd: "bvadd", OSub: "bvsub",
	OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OShl: "bvshl", OLshr: "bvlshr",
	OAshr: "bvashr", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg", OUlt: "bvult",
	OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat"}

type Term struct {
	op     Op
	n      uint8
	w      uint16
	hi, lo uint16
	a      [3]*Term
	c      uint64   // constant, w<=64
	big    *big.Int // constant, w>64
	name   string
	id     uint32

	evGen uint32
	ev    uint64
	evBig *big.Int

	loc  uint32 // position among the terms of a query
	sent uint32 // solver epoch in which this term was defined
}

type tkey struct {
	op         Op
	w          uint16
	hi, lo     uint16
	a0, a1, a2 uint32
	c          uint64
	s          string
}

// TC is a term context (hash-consing table); not safe for concurrent use.
type TC struct {
	tab       map[tkey]*Term
	nextID    uint32
	gen       uint32
	model     map[string]Val
	nextEpoch uint32
	small     [65][]*Term
	T, F      *Term
	bounds    map[*Term][2]int64 // of variables, on the current path
}

// Val is a concrete value of a term.
type Val struct {
	u uint64
	b *big.Int
}

func newTC() *TC {
	c := &TC{tab: map[tkey]*Term{}, gen: 1, model: map[string]Val{}}
	c.T = c.mk(&Term{op: OConst, w: 0, c: 1})
	c.F = c.mk(&Term{op: OConst, w: 0, c: 0})
	return c
}

func (c *TC) reset() {
	// keep ids increasing; drop the table when it is large.
	if len(c.tab) > 400000 {
		t, f := c.T, c.F
		c.tab = map[tkey]*Term{}
		c.T, c.F = t, f
		c.tab[tkey{op: OConst, c: 1}] = t
		c.tab[tkey{op: OConst, c: 0}] = f
	}
	c.model = map[string]Val{}
	c.gen++
}

func (c *TC) mk(t *Term) *Term {
	k := tkey{op: t.op, w: t.w, hi: t.hi, lo: t.lo, c: t.c, s: t.name}
	if t.n > 0 {
		k.a0 = t.a[0].id + 1
	}
	if t.n > 1 {
		k.a1 = t.a[1].id + 1
	}
	if t.n > 2 {
		k.a2 = t.a[2].id + 1
	}
	if t.big != nil {
		k.s = string(t.big.Bytes())
	}
	if x, ok := c.tab[k]; ok {
		return x
	}
	c.nextID++
	t.id = c.nextID
	c.tab[k] = t
	return t
}

func mask(w uint16) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (c *TC) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}

func (c *TC) BV(w uint16, v uint64) *Term {
	if w == 0 {
		return c.Bool(v != 0)
	}
	if w > 64 {
		return c.BigBV(w, new(big.Int).SetUint64(v))
	}
	v &= mask(w)
	if v < 256 && w <= 64 {
		if c.small[w] == nil {
			c.small[w] = make([]*Term, 256)
		}
		if t := c.small[w][v]; t != nil {
			return t
		}
		t := c.mk(&Term{op: OConst, w: w, c: v})
		c.small[w][v] = t
		return t
	}
	return c.mk(&Term{op: OConst, w: w, c: v})
}

func (c *TC) BigBV(w uint16, v *big.Int) *Term {
	if w <= 64 {
		return c.BV(w, new(big.Int).And(v, new(big.Int).SetUint64(mask(w))).Uint64())
	}
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	v = new(big.Int).Mod(v, m)
	return c.mk(&Term{op: OConst, w: w, big: v})
}

// bigBytes is the constant of the given big-endian bytes (more than 8).
func (c *TC) bigBytes(b []byte) *Term {
	k := b
	for len(k) > 0 && k[0] == 0 {
		k = k[1:]
	}
	if t, ok := c.tab[tkey{op: OConst, w: uint16(8 * len(b)), s: string(k)}]; ok {
		return t
	}
	return c.mk(&Term{op: OConst, w: uint16(8 * len(b)), big: new(big.Int).SetBytes(b)})
}

func (c *TC) Var(name string, w uint16) *Term {
	return c.mk(&Term{op: OVar, w: w, name: name})
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.c == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.c == 0 }

// bigv returns the constant as big.Int.
func (t *Term) bigv() *big.Int {
	if t.big != nil {
		return t.big
	}
	return new(big.Int).SetUint64(t.c)
}

func sext64(v uint64, w uint16) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func constEq(a, b *Term) bool {
	if a.big != nil || b.big != nil {
		return a.bigv().Cmp(b.bigv()) == 0
	}
	return a.c == b.c
}

func (c *TC) Not(a *Term) *Term {
	if a.isConst() {
		return c.Bool(a.c == 0)
	}
	if a.op == ONot {
		return a.a[0]
	}
	return c.mk(&Term{op: ONot, n: 1, a: [3]*Term{a}})
}

func (c *TC) And(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return c.F
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() || a == b {
		return a
	}
	if a.op == ONot && a.a[0] == b || b.op == ONot && b.a[0] == a {
		return c.F
	}
	return c.mk(&Term{op: OAnd, n: 2, a: [3]*Term{a, b}})
}

func (c *TC) Or(a, b *Term) *Term {
	if a.isTrue() || b.isTrue() {
		return c.T
	}
	if a.isFalse() {
		return b
	}
	if b.isFalse() || a == b {
		return a
	}
	if a.op == ONot && a.a[0] == b || b.op == ONot && b.a[0] == a {
		return c.T
	}
	return c.mk(&Term{op: OOr, n: 2, a: [3]*Term{a, b}})
}

func (c *TC) Ite(g, a, b *Term) *Term {
	if g.isConst() {
		if g.c != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w != b.w {
		panic(fmt.Sprintf("ite width mismatch %d %d", a.w, b.w))
	}
	if g.op == ONot {
		return c.Ite(g.a[0], b, a)
	}
	if a.w == 0 {
		if a.isTrue() {
			return c.Or(g, b)
		}
		if a.isFalse() {
			return c.And(c.Not(g), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(g), a)
		}
		if b.isFalse() {
			return c.And(g, a)
		}
	}
	return c.mk(&Term{op: OIte, n: 3, w: a.w, a: [3]*Term{g, a, b}})
}

func (c *TC) Eq(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return c.Bool(constEq(a, b))
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isConst() {
			if b.c != 0 {
				return a
			}
			return c.Not(a)
		}
	}
	if b.isConst() {
		switch a.op {
		case OZext:
			in := a.a[0]
			bv := b.bigv()
			if bv.BitLen() > int(in.w) {
				return c.F
			}
			return c.Eq(in, c.BigBV(in.w, bv))
		case OIte:
			// push constant comparison into ite with constant leaves.
			x, y := a.a[1], a.a[2]
			if x.isConst() || y.isConst() {
				return c.Ite(a.a[0], c.Eq(x, b), c.Eq(y, b))
			}
		case OConcat:
			lo := a.a[1]
			return c.And(c.Eq(a.a[0], c.Extract(b, a.w-1, lo.w)), c.Eq(lo, c.Extract(b, lo.w-1, 0)))
		case OAdd:
			if a.a[1].isConst() {
				return c.Eq(a.a[0], c.Bin(OSub, b, a.a[1]))
			}
		case OBXor:
			if a.a[1].isConst() {
				return c.Eq(a.a[0], c.Bin(OBXor, b, a.a[1]))
			}
		}
	}
	if a.w > 0 && a.w <= 64 && (a.op == OAdd || a.op == OSub || b.op == OAdd || b.op == OSub) {
		if d := c.linCancel(OSub, a, b); d != nil && d.isConst() {
			return c.Bool(d.c == 0)
		}
		if len(c.bounds) > 0 {
			if lo, hi, ok := c.diffRange(a, b); ok && (lo > 0 || hi < 0) {
				return c.F
			}
		}
	}
	if a.op == OConcat && b.op == OConcat && a.a[1].w == b.a[1].w {
		return c.And(c.Eq(a.a[0], b.a[0]), c.Eq(a.a[1], b.a[1]))
	}
	if a.op == OZext && b.op == OZext && a.a[0].w == b.a[0].w {
		return c.Eq(a.a[0], b.a[0])
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return c.mk(&Term{op: OEq, n: 2, a: [3]*Term{a, b}})
}

func evalBin(op Op, w uint16, a, b uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sext64(a, w), sext64(b, w)
		if y == 0 {
			if x >= 0 {
				return m
			}
			return 1
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sext64(a, w), sext64(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAshr:
		x := sext64(a, w)
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(x>>b) & m
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBXor:
		return a ^ b
	}
	panic("evalBin")
}

func evalBinBig(op Op, w uint16, a, b *big.Int) *big.Int {
	r := new(big.Int)
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	switch op {
	case OAdd:
		r.Add(a, b)
	case OSub:
		r.Sub(a, b)
	case OMul:
		r.Mul(a, b)
	case OBAnd:
		r.And(a, b)
	case OBOr:
		r.Or(a, b)
	case OBXor:
		r.Xor(a, b)
	case OShl:
		if b.Cmp(big.NewInt(int64(w))) >= 0 {
			return r
		}
		r.Lsh(a, uint(b.Uint64()))
	case OLshr:
		if b.Cmp(big.NewInt(int64(w))) >= 0 {
			return r
		}
		r.Rsh(a, uint(b.Uint64()))
	case OUDiv:
		if b.Sign() == 0 {
			return r.Sub(m, big.NewInt(1))
		}
		r.Div(a, b)
	case OURem:
		if b.Sign() == 0 {
			return r.Set(a)
		}
		r.Mod(a, b)
	default:
		panic("evalBinBig: unsupported op")
	}
	return r.Mod(r, m)
}

// Bin builds a binary bit-vector operation (result width = operand width).
func (c *TC) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("bin %s width mismatch %d %d", opNames[op], a.w, b.w))
	}
	w := a.w
	if a.isConst() && b.isConst() {
		if w <= 64 {
			return c.BV(w, evalBin(op, w, a.c, b.c))
		}
		return c.BigBV(w, evalBinBig(op, w, a.bigv(), b.bigv()))
	}
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor: // commutative: constant right
		if a.isConst() {
			a, b = b, a
		}
	}
	if b.isConst() && w <= 64 {
		k := b.c
		switch op {
		case OAdd:
			if k == 0 {
				return a
			}
			if a.op == OAdd && a.a[1].isConst() {
				return c.Bin(OAdd, a.a[0], c.BV(w, a.a[1].c+k))
			}
		case OSub:
			if k == 0 {
				return a
			}
			return c.Bin(OAdd, a, c.BV(w, -k))
		case OMul:
			if k == 0 {
				return b
			}
			if k == 1 {
				return a
			}
			if k&(k-1) == 0 {
				return c.Bin(OShl, a, c.BV(w, uint64(bits.TrailingZeros64(k))))
			}
		case OUDiv:
			if k == 1 {
				return a
			}
			if k != 0 && k&(k-1) == 0 {
				return c.Bin(OLshr, a, c.BV(w, uint64(bits.TrailingZeros64(k))))
			}
		case OURem:
			if k != 0 && k&(k-1) == 0 {
				return c.Bin(OBAnd, a, c.BV(w, k-1))
			}
		case OSDiv:
			if k == 1 {
				return a
			}
		case OBAnd:
			if k == 0 {
				return b
			}
			if k == mask(w) {
				return a
			}
			// low mask
			if k&(k+1) == 0 {
				n := uint16(bits.Len64(k))
				return c.Zext(c.Extract(a, n-1, 0), w)
			}
			if a.op == OZext && k&mask(a.a[0].w) == mask(a.a[0].w) {
				return a
			}
			// single bit
			if k&(k-1) == 0 {
				p := uint16(bits.TrailingZeros64(k))
				x := c.Zext(c.Extract(a, p, p), w)
				return c.shlConst(x, p)
			}
		case OBOr, OBXor:
			if k == 0 {
				return a
			}
		case OShl:
			if k == 0 {
				return a
			}
			if k >= uint64(w) {
				return c.BV(w, 0)
			}
			return c.shlConst(a, uint16(k))
		case OLshr:
			if k == 0 {
				return a
			}
			if k >= uint64(w) {
				return c.BV(w, 0)
			}
			return c.Zext(c.Extract(a, w-1, uint16(k)), w)
		case OAshr:
			if k == 0 {
				return a
			}
			if k >= uint64(w) {
				k = uint64(w) - 1
			}
			return c.Sext(c.Extract(a, w-1, uint16(k)), w)
		}
	}
	if a.isConst() && w <= 64 && a.c == 0 {
		switch op {
		case OShl, OLshr, OAshr, OUDiv, OURem:
			if op == OShl || op == OLshr || op == OAshr {
				return a
			}
		}
	}
	if a == b {
		switch op {
		case OSub, OBXor:
			return c.BV(w, 0)
		case OBAnd, OBOr:
			return a
		}
	}
	if (op == OAdd || op == OSub) && w <= 64 {
		if r := c.linCancel(op, a, b); r != nil {
			return r
		}
	}
	if op == OBOr {
		// or of disjoint zext/shl pieces => concat
		if r := c.orConcat(a, b); r != nil {
			return r
		}
		if r := c.orConcat(b, a); r != nil {
			return r
		}
	}
	return c.mk(&Term{op: op, n: 2, w: w, a: [3]*Term{a, b}})
}

// learn notes the bounds of variables that follow from a constraint of the path.
func (c *TC) learn(t *Term, pos bool) {
	switch t.op {
	case ONot:
		c.learn(t.a[0], !pos)
	case OAnd:
		if pos {
			for i := uint8(0); i < t.n; i++ {
				c.learn(t.a[i], true)
			}
		}
	case OSlt, OSle:
		a, b, strict := t.a[0], t.a[1], t.op == OSlt
		if !pos { // not a < b: b <= a
			a, b, strict = b, a, !strict
		}
		k := int64(0)
		if strict {
			k = 1
		}
		if a.op == OVar && a.w == 64 && b.isConst() && int64(b.c) > -1<<62 {
			x := c.boundsOf(a)
			c.setBounds(a, [2]int64{x[0], min(x[1], int64(b.c)-k)})
		}
		if b.op == OVar && b.w == 64 && a.isConst() && int64(a.c) < 1<<62 {
			x := c.boundsOf(b)
			c.setBounds(b, [2]int64{max(x[0], int64(a.c)+k), x[1]})
		}
	}
}

func (c *TC) boundsOf(t *Term) [2]int64 {
	if b, ok := c.bounds[t]; ok {
		return b
	}
	return [2]int64{math.MinInt64, math.MaxInt64}
}

func (c *TC) setBounds(t *Term, b [2]int64) {
	if c.bounds == nil {
		c.bounds = map[*Term][2]int64{}
	}
	c.bounds[t] = b
}

const bigBound = 1 << 61

// span returns the signed range of a 64-bit term; the terms below it do not overflow when ok.
func (c *TC) span(t *Term, depth int) (lo, hi int64, ok bool) {
	if depth == 0 {
		return 0, 0, false
	}
	switch t.op {
	case OConst:
		lo = int64(t.c)
		hi = lo
	case OVar:
		b, has := c.bounds[t]
		if !has {
			return 0, 0, false
		}
		lo, hi = b[0], b[1]
	case OZext:
		if t.a[0].w > 60 {
			return 0, 0, false
		}
		lo, hi = int64(minU(t)), int64(maxU(t))
	case OAdd, OSub:
		l1, h1, ok1 := c.span(t.a[0], depth-1)
		if !ok1 {
			return 0, 0, false
		}
		l2, h2, ok2 := c.span(t.a[1], depth-1)
		if !ok2 {
			return 0, 0, false
		}
		if t.op == OAdd {
			lo, hi = l1+l2, h1+h2
		} else {
			lo, hi = l1-h2, h1-l2
		}
	default:
		return 0, 0, false
	}
	return lo, hi, lo >= -bigBound && hi <= bigBound && lo <= hi
}

// diffRange returns the range of a-b, as integers, when neither side overflows.
func (c *TC) diffRange(a, b *Term) (lo, hi int64, ok bool) {
	if a.w != 64 {
		return 0, 0, false
	}
	if _, _, ok := c.span(a, 8); !ok {
		return 0, 0, false
	}
	if _, _, ok := c.span(b, 8); !ok {
		return 0, 0, false
	}
	var k uint64
	ps, ok := linParts(a, false, nil, &k)
	if !ok {
		return 0, 0, false
	}
	if ps, ok = linParts(b, true, ps, &k); !ok {
		return 0, 0, false
	}
	lo, hi = int64(k), int64(k)
	if lo < -bigBound || lo > bigBound {
		return 0, 0, false
	}
	for _, p := range ps {
		if p.k == 0 {
			continue
		}
		l, h, ok := c.span(p.t, 8)
		if !ok {
			return 0, 0, false
		}
		switch int64(p.k) {
		case 1:
			lo, hi = lo+l, hi+h
		case -1:
			lo, hi = lo-h, hi-l
		default:
			return 0, 0, false
		}
		if lo < -bigBound || hi > bigBound || lo > hi {
			return 0, 0, false
		}
	}
	return lo, hi, true
}

// cmpByBounds decides a comparison from the bounds of the variables; nil when it cannot.
func (c *TC) cmpByBounds(op Op, a, b *Term) *Term {
	if op == OUlt || op == OUle {
		if l, _, ok := c.span(a, 8); !ok || l < 0 {
			return nil
		}
		if l, _, ok := c.span(b, 8); !ok || l < 0 {
			return nil
		}
	}
	lo, hi, ok := c.diffRange(a, b)
	if !ok {
		return nil
	}
	switch op {
	case OUlt, OSlt:
		if hi < 0 {
			return c.T
		}
		if lo >= 0 {
			return c.F
		}
	case OUle, OSle:
		if hi <= 0 {
			return c.T
		}
		if lo > 0 {
			return c.F
		}
	}
	return nil
}

type linPart struct {
	t *Term
	k uint64 // coefficient modulo 2^w
}

// linParts flattens sums and differences into terms with coefficients and a constant.
// It gives up (false) when there are more than 12 parts.
func linParts(t *Term, neg bool, ps []linPart, k *uint64) ([]linPart, bool) {
	sign := uint64(1)
	if neg {
		sign = ^uint64(0)
	}
	switch {
	case t.isConst():
		*k += sign * t.c
		return ps, true
	case t.op == OAdd || t.op == OSub:
		var ok bool
		if ps, ok = linParts(t.a[0], neg, ps, k); !ok {
			return ps, false
		}
		return linParts(t.a[1], neg != (t.op == OSub), ps, k)
	}
	for i := range ps {
		if ps[i].t == t {
			ps[i].k += sign
			return ps, true
		}
	}
	if len(ps) >= 12 {
		return ps, false
	}
	return append(ps, linPart{t, sign}), true
}

// linCancel rebuilds a op b when some of its summands cancel out or constants can be joined; nil when not.
func (c *TC) linCancel(op Op, a, b *Term) *Term {
	sum := func(t *Term) bool { return t.op == OAdd || t.op == OSub }
	if !sum(a) && !sum(b) {
		return nil
	}
	w := a.w
	var k uint64
	ps, ok := linParts(a, false, nil, &k)
	if !ok {
		return nil
	}
	ps, ok = linParts(b, op == OSub, ps, &k)
	if !ok {
		return nil
	}
	cancelled := false
	for _, p := range ps {
		if p.k&mask(w) == 0 {
			cancelled = true
		}
	}
	konst := func(t *Term) bool { return t.op == OAdd && t.a[1].isConst() }
	if !cancelled && !(konst(a) || konst(b)) {
		return nil
	}
	// positive parts first, then the negative ones, then the constant.
	var r *Term
	var negs []*Term
	for _, p := range ps {
		pk := p.k & mask(w)
		switch pk {
		case 0:
		case mask(w):
			negs = append(negs, p.t)
		default:
			x := p.t
			if pk != 1 {
				x = c.Bin(OMul, p.t, c.BV(w, pk))
			}
			if r == nil {
				r = x
			} else {
				r = c.mk(&Term{op: OAdd, n: 2, w: w, a: [3]*Term{r, x}})
			}
		}
	}
	for _, x := range negs {
		if r == nil {
			r = c.BV(w, 0)
		}
		r = c.mk(&Term{op: OSub, n: 2, w: w, a: [3]*Term{r, x}})
	}
	if r == nil {
		return c.BV(w, k)
	}
	if k &= mask(w); k != 0 {
		if r.isConst() {
			return c.BV(w, r.c+k)
		}
		r = c.mk(&Term{op: OAdd, n: 2, w: w, a: [3]*Term{r, c.BV(w, k)}})
	}
	return r
}

// shlConst: concat(extract(a,w-1-k,0), 0_k)
func (c *TC) shlConst(a *Term, k uint16) *Term {
	if k == 0 {
		return a
	}
	return c.Concat(c.Extract(a, a.w-1-k, 0), c.BV(k, 0))
}

// orConcat: hi = concat(x, 0_k), lo = zext(y) with y.w<=k  => concat(x, zext_k(y)).
func (c *TC) orConcat(hi, lo *Term) *Term {
	if hi.op == OConcat && hi.a[1].isConst() && hi.a[1].bigv().Sign() == 0 {
		k := hi.a[1].w
		if lo.op == OZext && lo.a[0].w <= k {
			return c.Concat(hi.a[0], c.Zext(lo.a[0], k))
		}
	}
	return nil
}

func (c *TC) BNot(a *Term) *Term {
	if a.isConst() {
		if a.w <= 64 {
			return c.BV(a.w, ^a.c)
		}
		m := new(big.Int).Lsh(big.NewInt(1), uint(a.w))
		m.Sub(m, big.NewInt(1))
		return c.BigBV(a.w, m.Xor(m, a.bigv()))
	}
	if a.op == OBNot {
		return a.a[0]
	}
	return c.mk(&Term{op: OBNot, n: 1, w: a.w, a: [3]*Term{a}})
}

func (c *TC) Neg(a *Term) *Term {
	if a.isConst() && a.w <= 64 {
		return c.BV(a.w, -a.c)
	}
	return c.mk(&Term{op: ONeg, n: 1, w: a.w, a: [3]*Term{a}})
}

// maxU returns an upper bound for the unsigned value (w<=64).
func maxU(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.c
	case OZext:
		return maxU(t.a[0])
	case OIte:
		return max(maxU(t.a[1]), maxU(t.a[2]))
	case OBAnd:
		return min(maxU(t.a[0]), maxU(t.a[1]))
	case OURem:
		if t.a[1].isConst() && t.a[1].c > 0 {
			return t.a[1].c - 1
		}
	case OAdd:
		x, y := maxU(t.a[0]), maxU(t.a[1])
		if s := x + y; s >= x && s <= mask(t.w) {
			return s
		}
	}
	return mask(t.w)
}

func minU(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.c
	case OZext:
		return minU(t.a[0])
	case OIte:
		return min(minU(t.a[1]), minU(t.a[2]))
	case OAdd:
		x, y := maxU(t.a[0]), maxU(t.a[1])
		if s := x + y; s >= x && s <= mask(t.w) {
			return minU(t.a[0]) + minU(t.a[1])
		}
	}
	return 0
}

func (c *TC) Cmp(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("cmp width mismatch %d %d", a.w, b.w))
	}
	w := a.w
	if a == b {
		return c.Bool(op == OUle || op == OSle)
	}
	if a.isConst() && b.isConst() {
		if w > 64 {
			x, y := new(big.Int).Set(a.bigv()), new(big.Int).Set(b.bigv())
			if op == OSlt || op == OSle {
				half := new(big.Int).Lsh(big.NewInt(1), uint(w-1))
				full := new(big.Int).Lsh(big.NewInt(1), uint(w))
				if x.Cmp(half) >= 0 {
					x.Sub(x, full)
				}
				if y.Cmp(half) >= 0 {
					y.Sub(y, full)
				}
			}
			r := x.Cmp(y)
			return c.Bool(r < 0 || r == 0 && (op == OUle || op == OSle))
		}
		switch op {
		case OUlt:
			return c.Bool(a.c < b.c)
		case OUle:
			return c.Bool(a.c <= b.c)
		case OSlt:
			return c.Bool(sext64(a.c, w) < sext64(b.c, w))
		case OSle:
			return c.Bool(sext64(a.c, w) <= sext64(b.c, w))
		}
	}
	if w <= 64 {
		half := uint64(1) << (w - 1)
		ma, mb := maxU(a), maxU(b)
		na, nb := minU(a), minU(b)
		if ma < half && mb < half { // both non-negative: signed == unsigned
			if op == OSlt {
				op = OUlt
			} else if op == OSle {
				op = OUle
			}
		}
		if op == OUlt {
			if ma < nb {
				return c.T
			}
			if na >= mb {
				return c.F
			}
		} else if op == OUle {
			if ma <= nb {
				return c.T
			}
			if na > mb {
				return c.F
			}
		} else {
			// signed with one side known negative constant / nonneg
			if a.isConst() && a.c >= half && mb < half {
				return c.T
			}
			if b.isConst() && b.c >= half && ma < half {
				return c.F
			}
		}
		if len(c.bounds) > 0 {
			if r := c.cmpByBounds(op, a, b); r != nil {
				return r
			}
		}
		if (op == OUlt || op == OUle) && a.op == OZext && b.op == OZext && a.a[0].w == b.a[0].w {
			return c.Cmp(op, a.a[0], b.a[0])
		}
		if (op == OUlt || op == OUle) && a.op == OZext && b.isConst() && b.c <= mask(a.a[0].w) {
			return c.Cmp(op, a.a[0], c.BV(a.a[0].w, b.c))
		}
		if (op == OUlt || op == OUle) && b.op == OZext && a.isConst() && a.c <= mask(b.a[0].w) {
			return c.Cmp(op, c.BV(b.a[0].w, a.c), b.a[0])
		}
	}
	return c.mk(&Term{op: op, n: 2, a: [3]*Term{a, b}})
}

func (c *TC) Concat(a, b *Term) *Term {
	if a.w == 0 || b.w == 0 {
		panic("concat bool")
	}
	w := a.w + b.w
	if a.isConst() && b.isConst() {
		if w <= 64 {
			return c.BV(w, a.c<<b.w|b.c)
		}
		v := new(big.Int).Lsh(a.bigv(), uint(b.w))
		return c.BigBV(w, v.Or(v, b.bigv()))
	}
	if a.op == OExtract && b.op == OExtract && a.a[0] == b.a[0] && a.lo == b.hi+1 {
		return c.Extract(a.a[0], a.hi, b.lo)
	}
	// right-assoc merge: concat(concat(x,y), b) where y,b adjacent
	if a.op == OConcat {
		y := a.a[1]
		if y.op == OExtract && b.op == OExtract && y.a[0] == b.a[0] && y.lo == b.hi+1 {
			return c.Concat(a.a[0], c.Extract(y.a[0], y.hi, b.lo))
		}
		if y.isConst() && b.isConst() {
			return c.Concat(a.a[0], c.Concat(y, b))
		}
	}
	if a.isConst() && a.bigv().Sign() == 0 {
		return c.Zext(b, w)
	}
	return c.mk(&Term{op: OConcat, n: 2, w: w, a: [3]*Term{a, b}})
}

func (c *TC) Extract(a *Term, hi, lo uint16) *Term {
	if lo == 0 && hi == a.w-1 {
		return a
	}
	if hi < lo || hi >= a.w {
		panic(fmt.Sprintf("bad extract %d %d of %d", hi, lo, a.w))
	}
	w := hi - lo + 1
	switch a.op {
	case OConst:
		if a.w <= 64 {
			return c.BV(w, a.c>>lo)
		}
		return c.BigBV(w, new(big.Int).Rsh(a.big, uint(lo)))
	case OExtract:
		return c.Extract(a.a[0], a.lo+hi, a.lo+lo)
	case OConcat:
		l := a.a[1]
		if hi < l.w {
			return c.Extract(l, hi, lo)
		}
		if lo >= l.w {
			return c.Extract(a.a[0], hi-l.w, lo-l.w)
		}
		return c.Concat(c.Extract(a.a[0], hi-l.w, 0), c.Extract(l, l.w-1, lo))
	case OZext:
		in := a.a[0]
		if hi < in.w {
			return c.Extract(in, hi, lo)
		}
		if lo >= in.w {
			return c.BV(w, 0)
		}
		return c.Zext(c.Extract(in, in.w-1, lo), w)
	case OSext:
		in := a.a[0]
		if hi < in.w {
			return c.Extract(in, hi, lo)
		}
	case OIte:
		if a.a[1].isConst() && a.a[2].isConst() {
			return c.Ite(a.a[0], c.Extract(a.a[1], hi, lo), c.Extract(a.a[2], hi, lo))
		}
	case OBAnd, OBOr, OBXor:
		return c.Bin(a.op, c.Extract(a.a[0], hi, lo), c.Extract(a.a[1], hi, lo))
	case OBNot:
		return c.BNot(c.Extract(a.a[0], hi, lo))
	case OAdd, OSub, OMul:
		if lo == 0 && w <= 64 {
			return c.Bin(a.op, c.Extract(a.a[0], hi, 0), c.Extract(a.a[1], hi, 0))
		}
	}
	return c.mk(&Term{op: OExtract, n: 1, w: w, hi: hi, lo: lo, a: [3]*Term{a}})
}

func (c *TC) Zext(a *Term, w uint16) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.BigBV(w, a.bigv())
	}
	if a.op == OZext {
		return c.Zext(a.a[0], w)
	}
	return c.mk(&Term{op: OZext, n: 1, w: w, a: [3]*Term{a}})
}

func (c *TC) Sext(a *Term, w uint16) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.BV(w, uint64(sext64(a.c, a.w)))
	}
	if a.op == OZext {
		return c.Zext(a.a[0], w)
	}
	return c.mk(&Term{op: OSext, n: 1, w: w, a: [3]*Term{a}})
}

// B2BV converts a Bool to a 1-bit..w vector.
func (c *TC) B2BV(b *Term, w uint16) *Term { return c.Ite(b, c.BV(w, 1), c.BV(w, 0)) }

// ---- evaluation under the current model ----

func (c *TC) setModel(m map[string]Val) { c.model = m; c.gen++ }

// assign sets one variable that was not yet evaluated under the current model.
func (c *TC) assign(v *Term, x Val) { c.model[v.name] = x; v.evGen = 0 }

func (c *TC) evalBool(t *Term) bool { c.eval(t); return t.ev != 0 }

func (c *TC) evalU(t *Term) uint64 { c.eval(t); return t.ev }

func (c *TC) evalBig(t *Term) *big.Int {
	c.eval(t)
	if t.w > 64 {
		return t.evBig
	}
	return new(big.Int).SetUint64(t.ev)
}

func (c *TC) eval(t *Term) {
	if t.evGen == c.gen {
		return
	}
	// iterative post-order to avoid deep recursion
	stack := []*Term{t}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		if x.evGen == c.gen {
			stack = stack[:len(stack)-1]
			continue
		}
		ready := true
		for i := uint8(0); i < x.n; i++ {
			if x.a[i].evGen != c.gen {
				stack = append(stack, x.a[i])
				ready = false
			}
		}
		if !ready {
			continue
		}
		c.eval1(x)
		x.evGen = c.gen
		stack = stack[:len(stack)-1]
	}
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func valOf(t *Term) *big.Int {
	if t.w > 64 {
		return t.evBig
	}
	return new(big.Int).SetUint64(t.ev)
}

func (c *TC) eval1(x *Term) {
	setBig := func(v *big.Int) {
		if x.w > 64 {
			x.evBig = v
		} else {
			x.ev = v.Uint64() & mask(x.w)
		}
	}
	a := x.a
	switch x.op {
	case OConst:
		x.ev, x.evBig = x.c, x.big
	case OVar:
		v, ok := c.model[x.name]
		if !ok {
			v = Val{b: new(big.Int)}
		}
		if x.w > 64 {
			if v.b == nil {
				v.b = new(big.Int).SetUint64(v.u)
			}
			x.evBig = v.b
		} else {
			x.ev = v.u & (mask(max(x.w, 1)))
		}
	case ONot:
		x.ev = 1 - a[0].ev
	case OAnd:
		x.ev = a[0].ev & a[1].ev
	case OOr:
		x.ev = a[0].ev | a[1].ev
	case OIte:
		y := a[2]
		if a[0].ev != 0 {
			y = a[1]
		}
		x.ev, x.evBig = y.ev, y.evBig
	case OEq:
		if a[0].w > 64 {
			x.ev = b2u(a[0].evBig.Cmp(a[1].evBig) == 0)
		} else {
			x.ev = b2u(a[0].ev == a[1].ev)
		}
	case OUlt, OUle, OSlt, OSle:
		if a[0].w > 64 {
			r := a[0].evBig.Cmp(a[1].evBig)
			if x.op == OSlt || x.op == OSle {
				panic("wide signed cmp")
			}
			x.ev = b2u(r < 0 || r == 0 && x.op == OUle)
			return
		}
		p, q, w := a[0].ev, a[1].ev, a[0].w
		switch x.op {
		case OUlt:
			x.ev = b2u(p < q)
		case OUle:
			x.ev = b2u(p <= q)
		case OSlt:
			x.ev = b2u(sext64(p, w) < sext64(q, w))
		case OSle:
			x.ev = b2u(sext64(p, w) <= sext64(q, w))
		}
	case OConcat:
		if x.w <= 64 {
			x.ev = a[0].ev<<a[1].w | a[1].ev
		} else {
			v := new(big.Int).Lsh(valOf(a[0]), uint(a[1].w))
			setBig(v.Or(v, valOf(a[1])))
		}
	case OExtract:
		if a[0].w <= 64 {
			x.ev = a[0].ev >> x.lo & mask(x.w)
		} else {
			v := new(big.Int).Rsh(a[0].evBig, uint(x.lo))
			if x.w <= 64 {
				// low word
				m := new(big.Int).SetUint64(mask(x.w))
				x.ev = m.And(m, v).Uint64()
			} else {
				m := new(big.Int).Lsh(big.NewInt(1), uint(x.w))
				setBig(v.Mod(v, m))
			}
		}
	case OZext:
		if x.w <= 64 {
			x.ev = a[0].ev
		} else {
			setBig(valOf(a[0]))
		}
	case OSext:
		x.ev = uint64(sext64(a[0].ev, a[0].w)) & mask(x.w)
	case OBNot:
		if x.w <= 64 {
			x.ev = ^a[0].ev & mask(x.w)
		} else {
			m := new(big.Int).Lsh(big.NewInt(1), uint(x.w))
			m.Sub(m, big.NewInt(1))
			setBig(m.Xor(m, a[0].evBig))
		}
	case ONeg:
		x.ev = -a[0].ev & mask(x.w)
	default:
		if x.w <= 64 {
			x.ev = evalBin(x.op, x.w, a[0].ev, a[1].ev)
		} else {
			setBig(evalBinBig(x.op, x.w, a[0].evBig, a[1].evBig))
		}
	}
}

// ---- SMT-LIB ----

func sortStr(w uint16) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constStr(t *Term) string {
	if t.w == 0 {
		if t.c != 0 {
			return "true"
		}
		return "false"
	}
	if t.w%4 == 0 {
		s := t.bigv().Text(16)
		n := int(t.w) / 4
		return "#x" + strings.Repeat("0", n-len(s)) + s
	}
	s := t.bigv().Text(2)
	return "#b" + strings.Repeat("0", int(t.w)-len(s)) + s
}

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		return constStr(t)
	case OVar:
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

// body renders the node with references for its arguments.
func (t *Term) body() string {
	switch t.op {
	case OConst, OVar:
		return t.ref()
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.hi, t.lo, t.a[0].ref())
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a[0].w, t.a[0].ref())
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a[0].w, t.a[0].ref())
	}
	var sb strings.Builder
	sb.WriteString("(")
	sb.WriteString(opNames[t.op])
	for i := uint8(0); i < t.n; i++ {
		sb.WriteString(" ")
		sb.WriteString(t.a[i].ref())
	}
	sb.WriteString(")")
	return sb.String()
}
