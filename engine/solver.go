package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"
)

type satRes int

const (
	resUnknown satRes = iota
	resSat
	resUnsat
)

// Solver drives one live SMT process. Every query is sent after (reset), so that the solver may use its
// non-incremental strategies; only the constraints that share variables (transitively) with the
// query are sent (the current model satisfies the other ones).
type Solver struct {
	cmd                    *exec.Cmd
	in                     *bufio.Writer
	inPipe                 io.WriteCloser
	out                    *bufio.Reader
	tc                     *TC
	pc                     []*Term
	pcVar                  []int32 // a representative variable of each constraint (-1: none)
	uf                     []int32 // union-find over variable ids
	vid                    map[*Term]int32
	toMS                   int
	queries                int
	qSat, qUnsat, qUnknown int
	fallbacks, cached      int
	time                   time.Duration
	bin                    []string
	base                   bool
}

func newSolver(tc *TC, toMS int) *Solver {
	s := &Solver{tc: tc, toMS: toMS, vid: map[*Term]int32{}}
	s.bin = []string{"z3-new", "-in", "-smt2", "-memory:2500"}
	if v := os.Getenv("VX_SOLVER"); v != "" {
		s.bin[0] = v
	}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inPipe = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) beginPath() {
	s.pc = s.pc[:0]
	s.pcVar = s.pcVar[:0]
	for i := range s.uf {
		s.uf[i] = int32(i)
	}
}

func (s *Solver) endPath() {}

func (s *Solver) find(x int32) int32 {
	for s.uf[x] != x {
		s.uf[x] = s.uf[s.uf[x]]
		x = s.uf[x]
	}
	return x
}

// forVars calls f for every variable below t.
func (s *Solver) forVars(t *Term, f func(int32)) {
	s.tc.nextEpoch++
	ep := s.tc.nextEpoch
	stack := []*Term{t}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if x.op == OConst || x.sent == ep {
			continue
		}
		x.sent = ep
		if x.op == OVar {
			id, ok := s.vid[x]
			if !ok {
				id = int32(len(s.uf))
				s.uf = append(s.uf, id)
				s.vid[x] = id
			}
			f(id)
			continue
		}
		for i := uint8(0); i < x.n; i++ {
			stack = append(stack, x.a[i])
		}
	}
}

func (s *Solver) assert(t *Term) {
	if t.isTrue() {
		return
	}
	rep := int32(-1)
	s.forVars(t, func(v int32) {
		r := s.find(v)
		if rep < 0 {
			rep = r
		} else if r != rep {
			s.uf[r] = rep
		}
	})
	s.pc = append(s.pc, t)
	s.pcVar = append(s.pcVar, rep)
}

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		return "(error \"" + err.Error() + "\")"
	}
	return strings.TrimSpace(l)
}

// collect returns the terms in the constraints that matter to extra, children first, and the constraints.
func (s *Solver) collect(extra *Term) (items, as []*Term) {
	if extra == nil {
		as = s.pc
	} else {
		want := map[int32]bool{}
		s.forVars(extra, func(v int32) { want[s.find(v)] = true })
		for i, t := range s.pc {
			if s.pcVar[i] < 0 || want[s.find(s.pcVar[i])] {
				as = append(as, t)
			}
		}
		as = append(as, extra)
	}
	s.tc.nextEpoch++
	ep := s.tc.nextEpoch
	var stack []*Term
	for _, t := range as {
		stack = append(stack[:0], t)
		for len(stack) > 0 {
			x := stack[len(stack)-1]
			if x.op == OConst || x.sent == ep {
				stack = stack[:len(stack)-1]
				continue
			}
			ready := true
			for i := uint8(0); i < x.n; i++ {
				y := x.a[i]
				if y.op != OConst && y.sent != ep {
					stack = append(stack, y)
					ready = false
				}
			}
			if !ready {
				continue
			}
			items = append(items, x)
			x.loc = uint32(len(items))
			x.sent = ep
			stack = stack[:len(stack)-1]
		}
	}
	return items, as
}

// text renders declarations and assertions; it returns the variables in it.
func (s *Solver) text(items, as []*Term) (string, []*Term) {
	var sb strings.Builder
	var vars []*Term
	for _, x := range items {
		if x.op == OVar {
			sb.WriteString("(declare-const ")
			sb.WriteString(x.ref())
			sb.WriteByte(' ')
			sb.WriteString(sortStr(x.w))
			sb.WriteString(")\n")
			vars = append(vars, x)
		} else {
			sb.WriteString("(define-fun ")
			sb.WriteString(x.ref())
			sb.WriteString(" () ")
			sb.WriteString(sortStr(x.w))
			sb.WriteByte(' ')
			sb.WriteString(x.body())
			sb.WriteString(")\n")
		}
	}
	for _, t := range as {
		sb.WriteString("(assert ")
		sb.WriteString(t.ref())
		sb.WriteString(")\n")
	}
	return sb.String(), vars
}

// The answers of the solver to earlier queries, of all workers. Queries that differ in the names of variables only are
// the same.
type answer struct {
	res  satRes
	vals []Val // of the variables in their order
}

var answers = struct {
	sync.RWMutex
	m map[[16]byte]answer
	n int // values in the models
}{m: map[[16]byte]answer{}}

// queryKey identifies a query up to the names of its variables.
func queryKey(items, as []*Term, wantModel bool) (k [16]byte) {
	buf := make([]byte, 0, 32*len(items)+5*len(as)+1)
	arg := func(t *Term) {
		if t.op == OConst {
			buf = append(buf, 0)
			buf = binary.LittleEndian.AppendUint16(buf, t.w)
			if t.w <= 64 {
				buf = binary.LittleEndian.AppendUint64(buf, t.c)
			} else {
				b := t.bigv().Bytes()
				buf = binary.LittleEndian.AppendUint32(buf, uint32(len(b)))
				buf = append(buf, b...)
			}
			return
		}
		buf = append(buf, 1)
		buf = binary.LittleEndian.AppendUint32(buf, t.loc)
	}
	if wantModel {
		buf = append(buf, 1)
	}
	for _, x := range items {
		buf = append(buf, 2, byte(x.op), x.n)
		buf = binary.LittleEndian.AppendUint16(buf, x.w)
		buf = binary.LittleEndian.AppendUint16(buf, x.hi)
		buf = binary.LittleEndian.AppendUint16(buf, x.lo)
		for i := uint8(0); i < x.n; i++ {
			arg(x.a[i])
		}
	}
	buf = append(buf, 3)
	for _, t := range as {
		arg(t)
	}
	h := sha256.Sum256(buf)
	copy(k[:], h[:])
	return k
}

// check decides PC ∧ extra; on sat returns a model extending the current one. Unless extra is nil, the current
// model has to satisfy PC.
func (s *Solver) check(extra *Term, wantModel bool) (satRes, map[string]Val) {
	if extra != nil && extra.isFalse() {
		return resUnsat, nil
	}
	t0 := time.Now()
	items, as := s.collect(extra)
	key := queryKey(items, as, wantModel)
	answers.RLock()
	ans, hit := answers.m[key]
	answers.RUnlock()
	if hit {
		s.cached++
		var m map[string]Val
		if ans.res == resSat && wantModel {
			m = make(map[string]Val, len(s.tc.model)+len(ans.vals))
			for k, v := range s.tc.model {
				m[k] = v
			}
			i := 0
			for _, x := range items {
				if x.op == OVar {
					m[x.name] = ans.vals[i]
					i++
				}
			}
		}
		s.time += time.Since(t0)
		return ans.res, m
	}
	txt, vars := s.text(items, as)
	s.queries++
	var m map[string]Val
	res := resUnknown
	wide := false
	for _, v := range vars {
		wide = wide || v.w > 64
	}
	if len(txt) < 6000 && !wide {
		if !s.base {
			s.in.WriteString("(reset)\n(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :timeout 300)\n(set-logic QF_BV)\n")
			s.base = true
		}
		s.in.WriteString("(push 1)\n")
		res, m = s.ask(txt, vars, wantModel)
		s.in.WriteString("(pop 1)\n")
	}
	if res == resUnknown {
		s.in.WriteString("(reset)\n(set-option :print-success false)\n(set-option :produce-models true)\n")
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n(set-logic QF_BV)\n", s.toMS)
		s.base = false
		res, m = s.ask(txt, vars, wantModel)
	}
	if res == resUnknown {
		res, m = s.fallback(txt, vars, wantModel)
	}
	d := time.Since(t0)
	s.time += d
	if dumpDir != "" && d > time.Duration(dumpMS)*time.Millisecond {
		os.WriteFile(fmt.Sprintf("%s/q%d-%d.smt2", dumpDir, d.Milliseconds(), time.Now().UnixNano()%100000), []byte("(set-logic QF_BV)\n"+txt+"(check-sat)\n"), 0644)
	}
	if res != resUnknown {
		ans := answer{res: res}
		ok := true
		if res == resSat && wantModel {
			for _, v := range vars {
				x, has := m[v.name]
				ok = ok && has
				ans.vals = append(ans.vals, x)
			}
		}
		answers.Lock()
		if ok && len(answers.m) < 1000000 && answers.n+len(ans.vals) < 40000000 {
			answers.m[key] = ans
			answers.n += len(ans.vals)
		}
		answers.Unlock()
	}
	switch res {
	case resSat:
		s.qSat++
		if wantModel {
			full := make(map[string]Val, len(s.tc.model)+len(m))
			for k, v := range s.tc.model {
				full[k] = v
			}
			for k, v := range m {
				full[k] = v
			}
			m = full
		}
	case resUnsat:
		s.qUnsat++
	default:
		s.qUnknown++
	}
	return res, m
}

func (s *Solver) ask(txt string, vars []*Term, wantModel bool) (satRes, map[string]Val) {
	s.in.WriteString(txt)
	s.in.WriteString("(check-sat)\n")
	s.in.Flush()
	r := s.readLine()
	var m map[string]Val
	switch r {
	case "sat":
		if wantModel {
			var bad bool
			m, bad = s.getModel(vars)
			if bad {
				return resUnknown, nil
			}
		}
		return resSat, m
	case "unsat":
		return resUnsat, nil
	}
	if strings.HasPrefix(r, "(error") {
		engineWarn("solver error: " + r)
		s.close()
		s.start()
		s.base = false
	}
	return resUnknown, nil
}

// fallback asks fresh processes of other solvers.
func (s *Solver) fallback(txt string, vars []*Term, wantModel bool) (satRes, map[string]Val) {
	s.fallbacks++
	for _, bin := range [][]string{
		{"z3", "-in", "-smt2", fmt.Sprintf("-T:%d", (s.toMS*2)/1000+1)},
		{"cvc5", "--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit=%d", s.toMS*3)},
	} {
		var sb strings.Builder
		sb.WriteString("(set-option :produce-models true)\n(set-logic QF_BV)\n")
		sb.WriteString(txt)
		sb.WriteString("(check-sat)\n")
		if wantModel && len(vars) > 0 {
			sb.WriteString("(get-value (")
			for _, v := range vars {
				sb.WriteString(v.ref() + " ")
			}
			sb.WriteString("))\n")
		}
		cmd := exec.Command(bin[0], bin[1:]...)
		cmd.Stdin = strings.NewReader(sb.String())
		out, _ := cmd.Output()
		txt := strings.TrimSpace(string(out))
		if strings.HasPrefix(txt, "unsat") {
			return resUnsat, nil
		}
		if strings.HasPrefix(txt, "sat") {
			m := map[string]Val{}
			if !wantModel || len(vars) == 0 {
				return resSat, m
			}
			if parseModel(txt[3:], vars, m) {
				return resSat, m
			}
		}
	}
	return resUnknown, nil
}

func (s *Solver) getModel(all []*Term) (map[string]Val, bool) {
	m := map[string]Val{}
	if len(all) == 0 {
		return m, false
	}
	const chunk = 400
	for i := 0; i < len(all); i += chunk {
		vs := all[i:min(i+chunk, len(all))]
		var sb strings.Builder
		sb.WriteString("(get-value (")
		for _, v := range vs {
			sb.WriteString(v.ref())
			sb.WriteByte(' ')
		}
		sb.WriteString("))\n")
		s.in.WriteString(sb.String())
		s.in.Flush()
		var txt strings.Builder
		depth, started := 0, false
		for {
			l := s.readLine()
			if strings.HasPrefix(l, "(error") {
				engineWarn("get-value: " + l)
				return nil, true
			}
			txt.WriteString(l)
			txt.WriteByte('\n')
			inq := false
			for _, ch := range l {
				if ch == '|' {
					inq = !inq
				}
				if inq {
					continue
				}
				if ch == '(' {
					depth++
					started = true
				} else if ch == ')' {
					depth--
				}
			}
			if started && depth == 0 {
				break
			}
		}
		if !parseModel(txt.String(), vs, m) {
			engineWarn("cannot parse model: " + txt.String())
			return nil, true
		}
	}
	return m, false
}

// parseModel parses ((|x| #x..) (|y| true) ...) — in the order of vs.
func parseModel(txt string, vs []*Term, m map[string]Val) bool {
	pos := 0
	for _, v := range vs {
		key := v.ref()
		i := strings.Index(txt[pos:], "("+key)
		if i < 0 {
			// solvers may print without bars for simple names
			key = v.name
			i = strings.Index(txt[pos:], "("+key+" ")
			if i < 0 {
				return false
			}
		}
		pos += i + 1 + len(key)
		j := strings.IndexByte(txt[pos:], ')')
		if j < 0 {
			return false
		}
		val := strings.TrimSpace(txt[pos : pos+j])
		if strings.HasPrefix(val, "(_ bv") { // not expected
			f := strings.Fields(val[5:])
			b, ok := new(big.Int).SetString(f[0], 10)
			if !ok {
				return false
			}
			m[v.name] = mkVal(b, v.w)
			pos += j
			continue
		}
		pos += j
		switch {
		case val == "true":
			m[v.name] = Val{u: 1}
		case val == "false":
			m[v.name] = Val{}
		case strings.HasPrefix(val, "#x"):
			if v.w <= 64 {
				u, err := strconv.ParseUint(val[2:], 16, 64)
				if err != nil {
					return false
				}
				m[v.name] = Val{u: u}
			} else {
				b, ok := new(big.Int).SetString(val[2:], 16)
				if !ok {
					return false
				}
				m[v.name] = Val{b: b}
			}
		case strings.HasPrefix(val, "#b"):
			b, ok := new(big.Int).SetString(val[2:], 2)
			if !ok {
				return false
			}
			m[v.name] = mkVal(b, v.w)
		default:
			return false
		}
	}
	return true
}

func mkVal(b *big.Int, w uint16) Val {
	if w > 64 {
		return Val{b: b}
	}
	return Val{u: b.Uint64()}
}

var dumpDir = os.Getenv("VX_DUMP")
var dumpMS = func() int { n, err := strconv.Atoi(os.Getenv("VX_DUMPMS")); if err != nil { return 150 }; return n }()
