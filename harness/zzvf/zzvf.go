// Package zzvf is the harness interface of the checks. The symbolic engine
// replaces every function here by its own; the bodies below are what runs when
// a harness is compiled natively to replay the values the solver chose.
package zzvf

import (
	"fmt"
	"os"
	"reflect"
	"strings"
	"time"
)

// Failure is raised by a failing assertion.
type Failure struct{ Msg string }

// Skip is raised by a failing assumption.
type Skip struct{}

var (
	mu       quietMutex
	vector   map[string]uint64
	counts   map[string]int
	Observed []string
	Covered  map[string]bool
	sec      int64
	nsec     int64
	missing  []string
	onNow    func()
	tier     int
	known    map[string]bool
	knownHit []string
	sleepers []sleeper
	vtimers  []*Timer
	clockSet bool
	env      map[string]any
)

// Reset installs the values of one replay.
func Reset(v map[string]uint64, t int, k map[string]bool) {
	mu.Lock()
	defer mu.Unlock()
	vector = v
	counts = make(map[string]int)
	Observed = nil
	Covered = make(map[string]bool)
	sec, nsec = 1700000000, 0
	missing = nil
	onNow = nil
	tier = t
	known = k
	knownHit = nil
	sleepers = nil
	vtimers = nil
	randN = 0
	env = make(map[string]any)
}

func next(label string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	counts[label]++
	n := label
	if c := counts[label]; c > 1 {
		n = fmt.Sprintf("%s#%d", label, c)
	}
	v, ok := vector[n]
	if !ok {
		missing = append(missing, n)
	}
	return v
}

func U8(label string) uint8   { return uint8(next(label)) }
func U16(label string) uint16 { return uint16(next(label)) }
func U32(label string) uint32 { return uint32(next(label)) }
func U64(label string) uint64 { return next(label) }
func Bool(label string) bool  { return next(label) == 1 }

// Int is an arbitrary integer in [lo,hi].
func Int(label string, lo, hi int) int {
	v := int(next(label))
	if lo < 0 {
		return v + lo
	}
	if v < lo {
		v = lo
	}
	return v
}

// Choose is an arbitrary integer in [0,n), explored one by one.
func Choose(label string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(next(label))
}

// Bytes is an arbitrary byte string of length n.
func Bytes(label string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next(fmt.Sprintf("%s[%d]", label, i)))
	}
	return b
}

// Str is an arbitrary string of length n.
func Str(label string, n int) string { return string(Bytes(label, n)) }

// StrOf is an arbitrary string of length n over an alphabet.
func StrOf(label string, n int, alphabet string) string {
	b := make([]byte, n)
	for i := range b {
		k := next(fmt.Sprintf("%s[%d]", label, i))
		if k >= uint64(len(alphabet)) {
			k = 0
		}
		b[i] = alphabet[k]
	}
	return string(b)
}

func Assume(c bool) {
	if !c {
		panic(Skip{})
	}
}

func Assert(c bool, msg string) {
	if !c {
		panic(Failure{msg})
	}
}

// AssertKnown is Assert except that failures described by the condition are
// the listed known finding key.
func AssertKnown(c bool, msg string, isKnown bool, key string) {
	if c {
		return
	}
	if isKnown && known[key] {
		mu.Lock()
		knownHit = append(knownHit, key)
		mu.Unlock()
		return
	}
	panic(Failure{msg})
}

// KnownHits lists the known findings met.
func KnownHits() []string { return knownHit }

// IsKnown tells whether a known finding is listed.
func IsKnown(key string) bool { return known[key] }

func Cover(label string) {
	mu.Lock()
	defer mu.Unlock()
	Covered[label] = true
}

// Observe records a value compared between the symbolic and native runs.
func Observe(label string, v any) {
	s := label + "=" + text(reflect.ValueOf(v))
	mu.Lock()
	defer mu.Unlock()
	Observed = append(Observed, s)
}

func text(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Int, reflect.Int64:
		return fmt.Sprint(uint64(v.Int()))
	case reflect.Int32:
		return fmt.Sprint(uint32(v.Int()))
	case reflect.Int16:
		return fmt.Sprint(uint16(v.Int()))
	case reflect.Int8:
		return fmt.Sprint(uint8(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprint(v.Uint())
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	case reflect.Slice, reflect.Array:
		var s []string
		for i := 0; i < v.Len(); i++ {
			s = append(s, text(v.Index(i)))
		}
		return "[" + strings.Join(s, " ") + "]"
	}
	return "?"
}

// Symbolic tells whether the harness runs in the symbolic engine.
func Symbolic() bool { return false }

// Tier is 0 for the quick and 1 for the thorough bounds.
func Tier() int { return tier }

// Concrete forks over the possible values of x.
func Concrete(x int) int { return x }

// ConcreteStr forks over the possible values of s.
func ConcreteStr(s string) string { return s }

// Fork splits the path on a condition.
func Fork(c bool) bool { return c }

// MapOrder explores all iteration orders of small maps from here on.
func MapOrder(on bool) {}

// Preempt bounds the number of preemptive context switches.
func Preempt(n int) {}

// Delays bounds how often a goroutine other than the next one, round robin, is
// chosen when the running one blocks. Without it every choice is explored.
func Delays(n int) {}

// Stub replaces a function of the environment, named as in "os.Open" or
// "(*net.Dialer).Dial", in the symbolic run by f, which takes the receiver as
// its first argument. The native run keeps the real one.
func Stub(name string, f any) {}

// Model is Stub for a function without effects, whose replacement the native
// run can do without.
func Model(name string, f any) {}

// Env is Stub for a function that the code of the repository calls itself. It
// is replaced in the native run as well.
func Env(name string, f any) {
	mu.Lock()
	defer mu.Unlock()
	env[name] = f
}

// Call is the function to call for the real one.
func Call[F any](name string, real F) F {
	mu.Lock()
	defer mu.Unlock()
	if f, ok := env[name].(F); ok {
		return f
	}
	return real
}

// File is what a replaced file is passed on as.
type File struct{ f *os.File }

// FileIO routes the calls of a library to the replaced file functions.
func FileIO(f *os.File) *File { return &File{f} }

func (f *File) Write(b []byte) (int, error) {
	return Call("(*os.File).Write", (*os.File).Write)(f.f, b)
}

func (f *File) Read(b []byte) (int, error) {
	return Call("(*os.File).Read", (*os.File).Read)(f.f, b)
}

func (f *File) Close() error {
	return Call("(*os.File).Close", (*os.File).Close)(f.f)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// DeadlockOK accepts paths on which everything is blocked.
func DeadlockOK() {}

// Advance moves the clock by whole seconds.
func Advance(s int64) {
	mu.Lock()
	defer mu.Unlock()
	sec += s
}

// AdvanceNano moves the clock by less than a second.
func AdvanceNano(n int64) {
	mu.Lock()
	defer mu.Unlock()
	nsec += n
	if nsec >= 1000000000 {
		nsec -= 1000000000
		sec++
	}
}

// SetClock sets the clock (Unix time).
func SetClock(s, n int64) {
	mu.Lock()
	defer mu.Unlock()
	sec, nsec = s, n
}

// OnNow runs f before each reading of the clock.
func OnNow(f func()) { onNow = f }

// Now is the virtual clock.
func Now() time.Time {
	Gate("now")
	if f := onNow; f != nil {
		f()
	}
	mu.Lock()
	defer mu.Unlock()
	return time.Unix(sec, nsec)
}

// Note adds a line to the trace.
func Note(s string) {}

// Debug prints while developing.
func Debug(v ...any) {
	if os.Getenv("VF_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, v...)
	}
}

// SameMem tells whether two pointers or slices refer to the same memory.
func SameMem(a, b any) bool {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if !x.IsValid() || !y.IsValid() || x.Kind() != y.Kind() {
		return false
	}
	switch x.Kind() {
	case reflect.Pointer:
		return x.Pointer() == y.Pointer() && x.Pointer() != 0
	case reflect.Slice:
		if x.Cap() == 0 || y.Cap() == 0 {
			return false
		}
		e := x.Type().Elem().Size()
		return x.Pointer()+uintptr(x.Cap())*e == y.Pointer()+uintptr(y.Cap())*e
	}
	return false
}

// Equal compares two values structurally; nil and empty slices are equal.
func Equal(a, b any) bool { return equal(reflect.ValueOf(a), reflect.ValueOf(b)) }

func equal(x, y reflect.Value) bool {
	if !x.IsValid() || !y.IsValid() {
		return x.IsValid() == y.IsValid()
	}
	if x.Type() != y.Type() {
		return false
	}
	switch x.Kind() {
	case reflect.Interface:
		return equal(x.Elem(), y.Elem())
	case reflect.Pointer:
		if x.Pointer() == y.Pointer() {
			return true
		}
		if x.IsNil() || y.IsNil() {
			return false
		}
		return equal(x.Elem(), y.Elem())
	case reflect.Struct:
		for i := 0; i < x.NumField(); i++ {
			if !equal(x.Field(i), y.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Slice, reflect.Array:
		if x.Len() != y.Len() {
			return false
		}
		for i := 0; i < x.Len(); i++ {
			if !equal(x.Index(i), y.Index(i)) {
				return false
			}
		}
		return true
	}
	return x.Equal(y)
}

// Missing lists variables the replay asked for that the solver did not set.
func Missing() []string { return missing }
