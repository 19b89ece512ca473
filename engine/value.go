package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is a Go value of the program under analysis. Scalars (integers and
// booleans) are *Term; see the types below for the rest. float64 values are
// concrete (or *SymFloat).
type Value any

type (
	Struct []Value
	Array  []Value
	Slice  []Value
	Tuple  []Value

	// Str is an immutable string of concrete length; b is nil when concrete.
	Str struct {
		s  string
		b  []*Term
		op bool // contents unknown (formatted from symbolic values)
	}

	Iface struct {
		t types.Type
		v Value
	}

	Closure struct {
		fn  *ssa.Function
		env []Value
		nat func(in *Interp, fr *Frame, args []Value) Value // native helper closures
	}

	UnsafePtr struct{ v Value }

	// SymElem is the address of an element selected by a symbolic index.
	SymElem struct {
		elems []Value
		idx   *Term
	}

	// SymFloat is a float64 known to be an integer part plus a fraction in
	// [0,1); it supports truncation to an integer and comparison only.
	SymFloat struct{ whole *Term }

	Poison struct{ reason string }

	mapEntry struct {
		k, v Value
		live bool
	}
	Map struct {
		ents  []*mapEntry
		idx   map[string]*mapEntry // fully concrete keys
		nsym  int                  // live or dead entries with symbolic keys
		nlive int
	}

	mapIter struct {
		m    *Map
		ents []*mapEntry
	}
	strIter struct {
		s *Str
		i int
	}
)

func (s *Str) Len() int {
	if s.op {
		panic(unsupported{"contents of formatted text (" + s.s + ")"})
	}
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (in *Interp) strBytes(s *Str) []*Term {
	s.Len()
	if s.b != nil {
		return s.b
	}
	b := make([]*Term, len(s.s))
	for i := range b {
		b[i] = in.tt.Const(8, uint64(s.s[i]))
	}
	return b
}

func (s *Str) at(in *Interp, i int) *Term {
	if s.b != nil {
		return s.b[i]
	}
	return in.tt.Const(8, uint64(s.s[i]))
}

func mkStr(b []*Term) *Str {
	for _, t := range b {
		if !t.isConst() {
			return &Str{b: b}
		}
	}
	bs := make([]byte, len(b))
	for i, t := range b {
		bs[i] = byte(t.val)
	}
	return &Str{s: string(bs)}
}

func concStr(s string) *Str { return &Str{s: s} }

func (s *Str) slice(i, j int) *Str {
	if s.b != nil {
		return mkStr(s.b[i:j])
	}
	return &Str{s: s.s[i:j]}
}

func (s *Str) conc() (string, bool) {
	if s.b == nil {
		return s.s, true
	}
	return "", false
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		r := make(Struct, len(v))
		for i, x := range v {
			r[i] = copyVal(x)
		}
		return r
	case Array:
		r := make(Array, len(v))
		for i, x := range v {
			r[i] = copyVal(x)
		}
		return r
	}
	return v
}

// width returns the bit width (0 for bool) and signedness of a scalar type.
func scalar(t types.Type) (w uint8, signed, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func (in *Interp) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := scalar(u); ok {
			return in.tt.Const(w, 0)
		}
		switch u.Kind() {
		case types.String, types.UntypedString:
			return emptyStr
		case types.Float64, types.Float32, types.UntypedFloat:
			return float64(0)
		case types.Complex64, types.Complex128:
			return complex128(0)
		case types.UnsafePointer:
			return UnsafePtr{}
		case types.UntypedNil:
			return nil
		}
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = in.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(u.Len())
		a := make(Array, n)
		for i := range a {
			a[i] = in.zero(u.Elem())
		}
		return a
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Tuple:
		if u.Len() == 1 {
			return in.zero(u.At(0).Type())
		}
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = in.zero(u.At(i).Type())
		}
		return r
	}
	panic(unsupported{"zero of " + t.String()})
}

var emptyStr = &Str{}

// eq builds the equality of two values of the same static type.
func (in *Interp) eq(x, y Value) *Term {
	tt := in.tt
	switch x := x.(type) {
	case *Term:
		return tt.Eq(x, y.(*Term))
	case *Str:
		return in.strEq(x, y.(*Str))
	case float64:
		if yf, ok := y.(float64); ok {
			return tt.Bool(x == yf)
		}
	case Iface:
		yi, ok := y.(Iface)
		if !ok {
			panic(unsupported{"eq iface/non-iface"})
		}
		if x.t == nil || yi.t == nil {
			return tt.Bool(x.t == nil && yi.t == nil)
		}
		if !in.sameType(x.t, yi.t) {
			return tt.False
		}
		if !types.Comparable(x.t) {
			in.rtPanic("runtime error: comparing uncomparable type " + x.t.String())
		}
		return in.eq(x.v, yi.v)
	case *Value:
		switch yp := y.(type) {
		case *Value:
			return tt.Bool(x == yp)
		case *SymElem:
			return tt.Bool(false && x == nil)
		}
	case *SymElem:
		return tt.Bool(x == y)
	case Struct:
		r := tt.True
		ys := y.(Struct)
		for i := range x {
			r = tt.And(r, in.eq(x[i], ys[i]))
		}
		return r
	case Array:
		r := tt.True
		ys := y.(Array)
		for i := range x {
			r = tt.And(r, in.eq(x[i], ys[i]))
		}
		return r
	case *Chan:
		return tt.Bool(x == y.(*Chan))
	case *Map:
		return tt.Bool(x == y.(*Map))
	case *Closure:
		yc := y.(*Closure)
		if x == nil || yc == nil {
			return tt.Bool(x == nil && yc == nil)
		}
		return tt.Bool(x == yc)
	case *ssa.Builtin:
		return tt.False
	case Slice:
		ys := y.(Slice)
		if x == nil || ys == nil {
			return tt.Bool(x == nil && ys == nil)
		}
	case UnsafePtr:
		if yu, ok := y.(UnsafePtr); ok {
			if x.v == nil || yu.v == nil {
				return tt.Bool(isNilPtr(x.v) && isNilPtr(yu.v))
			}
			return tt.Bool(x.v == yu.v)
		}
	case nil:
		if y == nil {
			return tt.True
		}
	case Poison:
		panic(unsupported{"use of " + x.reason})
	}
	panic(unsupported{fmt.Sprintf("eq of %T and %T", x, y)})
}

func isNilPtr(v Value) bool {
	if v == nil {
		return true
	}
	p, ok := v.(*Value)
	return ok && p == nil
}

func (in *Interp) strEq(x, y *Str) *Term {
	if x.Len() != y.Len() {
		return in.tt.False
	}
	if x.b == nil && y.b == nil {
		return in.tt.Bool(x.s == y.s)
	}
	r := in.tt.True
	for i, n := 0, x.Len(); i < n; i++ {
		r = in.tt.And(r, in.tt.Eq(x.at(in, i), y.at(in, i)))
		if r.isFalse() {
			break
		}
	}
	return r
}

// strLess builds x < y.
func (in *Interp) strLess(x, y *Str) *Term {
	if x.b == nil && y.b == nil {
		return in.tt.Bool(x.s < y.s)
	}
	n := min(x.Len(), y.Len())
	r := in.tt.Bool(x.Len() < y.Len())
	for i := n - 1; i >= 0; i-- {
		a, b := x.at(in, i), y.at(in, i)
		r = in.tt.Or(in.tt.ULt(a, b), in.tt.And(in.tt.Eq(a, b), r))
	}
	return r
}

// concKey encodes a fully concrete value for use as an index key.
func concKey(sb *strings.Builder, v Value) bool {
	switch v := v.(type) {
	case *Term:
		if !v.isConst() {
			return false
		}
		fmt.Fprintf(sb, "i%d;", v.val)
	case *Str:
		if v.b != nil {
			return false
		}
		fmt.Fprintf(sb, "s%d:%s;", len(v.s), v.s)
	case float64:
		fmt.Fprintf(sb, "f%v;", v)
	case Struct:
		sb.WriteString("{")
		for _, x := range v {
			if !concKey(sb, x) {
				return false
			}
		}
		sb.WriteString("}")
	case Array:
		sb.WriteString("[")
		for _, x := range v {
			if !concKey(sb, x) {
				return false
			}
		}
		sb.WriteString("]")
	case Iface:
		if v.t == nil {
			sb.WriteString("nil;")
			return true
		}
		sb.WriteString("I" + v.t.String() + ":")
		return concKey(sb, v.v)
	case *Value:
		fmt.Fprintf(sb, "p%p;", v)
	case *Chan:
		fmt.Fprintf(sb, "c%p;", v)
	case UnsafePtr:
		return concKey(sb, v.v)
	default:
		return false
	}
	return true
}

func (in *Interp) mapFind(m *Map, k Value) *mapEntry {
	if m == nil {
		return nil
	}
	var sb strings.Builder
	if concKey(&sb, k) {
		if e := m.idx[sb.String()]; e != nil && e.live {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
		for _, e := range m.ents {
			if e.live {
				if t := in.eq(e.k, k); !t.isConst() && in.decide(t) {
					return e
				}
			}
		}
		return nil
	}
	for _, e := range m.ents {
		if e.live && in.decide(in.eq(e.k, k)) {
			return e
		}
	}
	return nil
}

func (in *Interp) mapSet(m *Map, k, v Value) {
	in.effect()
	if e := in.mapFind(m, k); e != nil {
		in.raceMap(m, true)
		old := e.v
		e.v = v
		in.undo(func() { e.v = old })
		return
	}
	in.raceMap(m, true)
	e := &mapEntry{k: copyVal(k), v: v, live: true}
	var sb strings.Builder
	n := len(m.ents)
	m.ents = append(m.ents, e)
	m.nlive++
	if concKey(&sb, k) {
		ks := sb.String()
		old := m.idx[ks]
		m.idx[ks] = e
		in.undo(func() {
			m.ents = m.ents[:n]
			m.nlive--
			if old == nil {
				delete(m.idx, ks)
			} else {
				m.idx[ks] = old
			}
		})
	} else {
		m.nsym++
		in.undo(func() { m.ents = m.ents[:n]; m.nlive--; m.nsym-- })
	}
}

func (in *Interp) mapDelete(m *Map, k Value) {
	in.effect()
	if m == nil {
		return
	}
	in.raceMap(m, true)
	if e := in.mapFind(m, k); e != nil {
		e.live = false
		m.nlive--
		in.undo(func() { e.live = true; m.nlive++ })
	}
}

func newMap() *Map { return &Map{idx: make(map[string]*mapEntry)} }

// describe renders a value for traces.
func describe(v Value) string {
	switch v := v.(type) {
	case *Term:
		return v.String()
	case *Str:
		if v.b == nil {
			return fmt.Sprintf("%q", v.s)
		}
		var sb strings.Builder
		sb.WriteString("sym\"")
		for _, b := range v.b {
			if b.isConst() {
				sb.WriteByte(byte(b.val))
			} else {
				sb.WriteString("<" + b.String() + ">")
			}
		}
		sb.WriteString("\"")
		return sb.String()
	case Struct:
		var s []string
		for _, x := range v {
			s = append(s, describe(x))
		}
		return "{" + strings.Join(s, " ") + "}"
	case Slice:
		var s []string
		for i, x := range v {
			if i > 20 {
				s = append(s, "...")
				break
			}
			s = append(s, describe(x))
		}
		return "[" + strings.Join(s, " ") + "]"
	case Iface:
		if v.t == nil {
			return "nil"
		}
		return v.t.String() + "(" + describe(v.v) + ")"
	}
	return fmt.Sprintf("%T", v)
}
