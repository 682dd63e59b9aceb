// Package zvx is the harness interface of the verification engine.
//
// Under the engine every function of the first group is an intrinsic that introduces symbolic
// values, assumptions and assertions. Natively (go test -overlay) the same functions read the
// concrete values of a counterexample / validation vector, so a harness is an ordinary Go program.
package zvx

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime/debug"
	"strconv"
	"strings"
	"time"
)

// ---- types used by the engine itself ----

// RuntimeError is the dynamic type of runtime panics under the engine.
type RuntimeError string

func (e RuntimeError) Error() string { return "runtime error: " + string(e) }
func (e RuntimeError) RuntimeError() {}

// FmtError is the result of fmt.Errorf under the engine.
type FmtError struct {
	Msg  string
	Errs []error
}

func (e *FmtError) Error() string   { return e.Msg }
func (e *FmtError) Unwrap() []error { return e.Errs }

// ErrorsIs replaces errors.Is under the engine.
func ErrorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	return errorsIs(err, target)
}

func errorsIs(err, target error) bool {
	for {
		if ifaceEq(err, target) {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if errorsIs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

// ifaceEq is an intrinsic: equality that is false for uncomparable dynamic types.
func ifaceEq(a, b error) bool { return a == b }

// SyncMap backs sync.Map under the engine.
type SyncMap struct{ M map[any]any }

// ---- nondeterministic inputs ----

type in struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  string `json:"val"`
}

type obs struct {
	Name string `json:"name"`
	Val  string `json:"val"`
}

type vector struct {
	Harness string           `json:"harness"`
	Inputs  []in             `json:"inputs"`
	Obs     []obs            `json:"obs"`
	Params  map[string]int64 `json:"params"`
	Expect  string           `json:"expect"`
	Label   string           `json:"label"`
}

type assertFailed struct{ msg string }
type diverged struct{ msg string }

var cur *vector
var pos, opos int
var obsMismatch []string
var failed []string

func next(name, kind string) string {
	for cur != nil && pos < len(cur.Inputs) && cur.Inputs[pos].Kind == "skip" {
		pos++
	}
	if cur == nil || pos >= len(cur.Inputs) {
		panic(diverged{"no more inputs at " + name})
	}
	i := cur.Inputs[pos]
	if i.Name != name || i.Kind != kind {
		panic(diverged{fmt.Sprintf("input %d is %s/%s, want %s/%s", pos, i.Name, i.Kind, name, kind)})
	}
	pos++
	return i.Val
}

func num(name string) uint64 {
	u, err := strconv.ParseUint(next(name, "int"), 10, 64)
	if err != nil {
		panic(err)
	}
	return u
}

// Bool is an arbitrary boolean.
func Bool(name string) bool { return num(name) != 0 }

// U8 is an arbitrary byte.
func U8(name string) uint8 { return uint8(num(name)) }

// U16 is an arbitrary uint16.
func U16(name string) uint16 { return uint16(num(name)) }

// U32 is an arbitrary uint32.
func U32(name string) uint32 { return uint32(num(name)) }

// U64 is an arbitrary uint64.
func U64(name string) uint64 { return num(name) }

// Int is an arbitrary int.
func Int(name string) int { return int(num(name)) }

// I64 is an arbitrary int64.
func I64(name string) int64 { return int64(num(name)) }

// IntRange is an arbitrary (symbolic) int with lo <= v <= hi.
func IntRange(name string, lo, hi int) int {
	v := Int(name)
	Assume(v >= lo && v <= hi)
	return v
}

// Choose forks the exploration over 0..n-1 and returns a concrete value.
func Choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	i, err := strconv.Atoi(next(name, "choose"))
	if err != nil {
		panic(err)
	}
	return i
}

// Bytes returns n arbitrary bytes.
func Bytes(name string, n int) []byte {
	b, err := hex.DecodeString(next(name, "bytes"))
	if err != nil || len(b) != n {
		panic(diverged{"bytes length of " + name})
	}
	return b
}

// String returns a string of n arbitrary bytes.
func String(name string, n int) string { return string(Bytes(name, n)) }

// Hash32 returns 32 arbitrary bytes (one wide variable).
func Hash32(name string) (r [32]byte) {
	copy(r[:], Bytes(name, 32))
	return r
}

// Param is a bound chosen by the check's tier.
func Param(name string, def int) int {
	if cur != nil {
		if v, ok := cur.Params[name]; ok {
			return int(v)
		}
	}
	return def
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(diverged{"assumption violated"})
	}
}

// Assert states a property.
func Assert(c bool, label string) {
	if !c {
		failed = append(failed, label)
		panic(assertFailed{label})
	}
}

// Check states a property but lets the run continue natively.
func Check(c bool, label string) {
	if !c {
		failed = append(failed, label)
	}
}

// Reach marks a point that some feasible path must reach (vacuity guard).
func Reach(label string) {}

// Unsupported ends the path as not explored: the harness cannot represent what happens.
func Unsupported(what string) { panic("unsupported: " + what) }

// Observe compares a value computed by the encoding with the value computed natively.
func Observe(name string, v any) {
	if cur == nil || opos >= len(cur.Obs) {
		return
	}
	o := cur.Obs[opos]
	opos++
	got := render(reflect.ValueOf(v))
	if o.Name != name || got != o.Val {
		obsMismatch = append(obsMismatch, fmt.Sprintf("%s: native %s, encoding %s=%s", name, got, o.Name, o.Val))
	}
}

func render(v reflect.Value) string {
	if !v.IsValid() {
		return "nil"
	}
	switch v.Kind() {
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprint(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprint(v.Uint())
	case reflect.String:
		return "s:" + hex.EncodeToString([]byte(v.String()))
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := make([]byte, v.Len())
			for i := range b {
				b[i] = byte(v.Index(i).Uint())
			}
			return "b:" + hex.EncodeToString(b)
		}
		var sb strings.Builder
		sb.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				sb.WriteString(",")
			}
			sb.WriteString(render(v.Index(i)))
		}
		sb.WriteString("]")
		return sb.String()
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		switch e := v.Elem(); e.Kind() {
		case reflect.Pointer, reflect.Struct, reflect.Map, reflect.Func, reflect.Chan:
			return "non-nil"
		default:
			return render(e)
		}
	case reflect.Pointer:
		if v.IsNil() {
			return "nil"
		}
		return "non-nil"
	}
	return "?"
}

// ---- engine configuration (no-ops natively) ----

// Symbolic tells whether the harness runs under the engine.
func Symbolic() bool { return false }

// MapOrder selects the modelled map iteration orders: 0 insertion, 1 insertion+reverse, 2 all (n<=4).
func MapOrder(mode int) {}

// Sched makes goroutine scheduling nondeterministic with at most p preemptions.
func Sched(p int) {}

// Delays makes goroutine scheduling nondeterministic with at most n deviations from a deterministic schedule.
func Delays(n int) {}

// SelectNondet makes the choice among ready select cases nondeterministic.
func SelectNondet() {}

// NoNative declares that runs of this harness cannot be replayed natively.
func NoNative() {}

// MustTerminate makes exceeding the step limit a violation.
func MustTerminate() {}

// MaxSteps overrides the per-path step limit.
func MaxSteps(n int) {}

// SymClock makes time.Now return arbitrary non-decreasing instants.
func SymClock() {}

// OracleHash models SHA-256 as an ideal hash: whether two inputs are equal is decided by forking, unequal
// inputs have different, otherwise meaningless, values.
func OracleHash() {}

// LooseHash drops the collision-freedom axioms of SHA-256 (hashes become unconstrained values).
func LooseHash() {}

// Yield is a scheduling point.
func Yield() {}

// And, Or, Not, Implies, Ite combine conditions without forking the exploration.
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// EqBytes compares without forking.
func EqBytes(a, b []byte) bool { return string(a) == string(b) }

// Opaque is an injective fixed-size code of the given parts (identity of serialised data).
func Opaque(tag string, parts ...[]byte) []byte {
	var out []byte
	out = append(out, []byte(tag)...)
	for _, p := range parts {
		out = append(out, []byte(fmt.Sprintf("|%d|", len(p)))...)
		out = append(out, p...)
	}
	return out
}

// Now replaces time.Now in native replays when the harness controls the clock.
var NowFn func() time.Time

// ---- native driver ----

// T is the part of *testing.T that is needed.
type T interface {
	Errorf(string, ...any)
	Logf(string, ...any)
}

// RunVectors executes the vectors of the file named by VX_FILE and prints one result line each.
func RunVectors(t T, hs map[string]func()) {
	data, err := os.ReadFile(os.Getenv("VX_FILE"))
	if err != nil {
		t.Errorf("%v", err)
		return
	}
	var vs []*vector
	if err := json.Unmarshal(data, &vs); err != nil {
		t.Errorf("%v", err)
		return
	}
	for i, v := range vs {
		f := hs[v.Harness]
		if f == nil {
			fmt.Printf("VXRESULT %d nohandler %s\n", i, v.Harness)
			continue
		}
		fmt.Printf("VXSTART %d\n", i)
		status, msg := run1(v, f)
		fmt.Printf("VXRESULT %d %s %q\n", i, status, msg)
	}
}

func run1(v *vector, f func()) (status, msg string) {
	cur, pos, opos, obsMismatch, failed = v, 0, 0, nil, nil
	defer func() {
		r := recover()
		switch x := r.(type) {
		case nil:
			if len(failed) > 0 {
				status, msg = "assert", strings.Join(failed, "; ")
			} else if len(obsMismatch) > 0 {
				status, msg = "mismatch", strings.Join(obsMismatch, "; ")
			} else {
				status = "ok"
			}
		case assertFailed:
			status, msg = "assert", x.msg
		case diverged:
			status, msg = "diverged", x.msg
			if len(failed) > 0 {
				status, msg = "assert", strings.Join(failed, "; ")
			}
		default:
			status, msg = "panic", fmt.Sprint(r)+"\n"+string(debug.Stack())
		}
	}()
	f()
	return
}

// Sha is the dynamic type of SHA-256 hash objects under the engine.
type Sha struct{}

func (s *Sha) Write(p []byte) (int, error) { panic("engine only") }
func (s *Sha) Sum(b []byte) []byte         { panic("engine only") }
func (s *Sha) Reset()                      { panic("engine only") }
func (s *Sha) Size() int                   { return 32 }
func (s *Sha) BlockSize() int              { return 64 }
