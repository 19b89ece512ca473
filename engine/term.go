package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Op is the operator of a term.
type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpEq
	OpIte
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBAnd
	OpBOr
	OpXor
	OpShl
	OpLShr
	OpAShr
	OpBNot
	OpNeg
	OpULt
	OpULe
	OpSLt
	OpSLe
	OpExtract // val = hi<<8|lo
	OpConcat
	OpZExt
	OpSExt
	OpUF
)

var opSMT = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite",
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpURem: "bvurem",
	OpSDiv: "bvsdiv", OpSRem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpXor: "bvxor",
	OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr", OpBNot: "bvnot", OpNeg: "bvneg",
	OpULt: "bvult", OpULe: "bvule", OpSLt: "bvslt", OpSLe: "bvsle", OpConcat: "concat",
}

// Term is a hash-consed SMT term: a boolean (w == 0) or a bit-vector of width
// w. lo/hi bound its unsigned value (bit-vectors only).
type Term struct {
	op   Op
	w    uint8
	a    [3]*Term
	ufa  []*Term
	val  uint64
	name string
	id   int
	lo   uint64
	hi   uint64
	size int
}

func (t *Term) isConst() bool { return t.op == OpConst }
func (t *Term) isTrue() bool  { return t.op == OpConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OpConst && t.w == 0 && t.val == 0 }

type tkey struct {
	op      Op
	w       uint8
	a, b, c int
	val     uint64
	name    string
	ufa     string
}

// TermTable holds the terms of one worker.
type TermTable struct {
	m     map[tkey]*Term
	n     int
	small [65][]*Term
	True  *Term
	False *Term
}

func NewTermTable() *TermTable {
	tt := &TermTable{m: make(map[tkey]*Term)}
	for _, w := range []int{0, 1, 8, 16, 32, 64} {
		n := 1024
		if w < 10 {
			n = 1 << w
			if w == 0 {
				n = 2
			}
		}
		s := make([]*Term, n)
		for i := range s {
			s[i] = tt.intern(tkey{op: OpConst, w: uint8(w), val: uint64(i)}, nil, nil, nil)
		}
		tt.small[w] = s
	}
	tt.False = tt.small[0][0]
	tt.True = tt.small[0][1]
	return tt
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func (tt *TermTable) intern(k tkey, a, b, c *Term) *Term {
	if a != nil {
		k.a = a.id + 1
	}
	if b != nil {
		k.b = b.id + 1
	}
	if c != nil {
		k.c = c.id + 1
	}
	if t, ok := tt.m[k]; ok {
		return t
	}
	t := &Term{op: k.op, w: k.w, a: [3]*Term{a, b, c}, val: k.val, name: k.name, id: tt.n}
	t.size = 1
	for _, x := range t.a {
		if x != nil {
			t.size += x.size
		}
	}
	if t.size > 1<<30 {
		t.size = 1 << 30
	}
	tt.n++
	t.lo, t.hi = 0, mask(t.w)
	if t.op == OpConst {
		t.lo, t.hi = t.val, t.val
	} else if t.w > 0 {
		tt.bounds(t)
	}
	tt.m[k] = t
	return t
}

// bounds computes unsigned interval bounds of a new term.
func (tt *TermTable) bounds(t *Term) {
	m := mask(t.w)
	a, b := t.a[0], t.a[1]
	switch t.op {
	case OpIte:
		x, y := t.a[1], t.a[2]
		t.lo, t.hi = min(x.lo, y.lo), max(x.hi, y.hi)
	case OpAdd:
		if s, c := bits.Add64(a.hi, b.hi, 0); c == 0 && s <= m {
			t.lo, t.hi = a.lo+b.lo, s
		} else if b.op == OpConst && b.val > m>>1 {
			// adding a negative constant
			n := (m - b.val) + 1
			if a.lo >= n {
				t.lo, t.hi = a.lo-n, a.hi-n
			}
		}
	case OpSub:
		if a.lo >= b.hi {
			t.lo, t.hi = a.lo-b.hi, a.hi-b.lo
		}
	case OpMul:
		if h, l := bits.Mul64(a.hi, b.hi); h == 0 && l <= m {
			t.lo, t.hi = a.lo*b.lo, l
		}
	case OpUDiv:
		if b.lo > 0 {
			t.lo, t.hi = a.lo/b.hi, a.hi/b.lo
		}
	case OpURem:
		if b.lo > 0 {
			t.hi = min(a.hi, b.hi-1)
		}
	case OpBAnd:
		t.hi = min(a.hi, b.hi)
	case OpBOr, OpXor:
		n := max(bits.Len64(a.hi), bits.Len64(b.hi))
		t.hi = mask(uint8(n))
		if n == 0 {
			t.hi = 0
		}
		if t.op == OpBOr {
			t.lo = max(a.lo, b.lo)
		}
	case OpLShr:
		if b.isConst() && b.val < 64 {
			t.lo, t.hi = a.lo>>b.val, a.hi>>b.val
		} else {
			t.hi = a.hi
		}
	case OpShl:
		if b.isConst() && b.val < uint64(t.w) && a.hi <= m>>b.val {
			t.lo, t.hi = a.lo<<b.val, a.hi<<b.val
		}
	case OpZExt:
		t.lo, t.hi = a.lo, a.hi
	case OpSExt:
		if a.hi <= mask(a.w)>>1 {
			t.lo, t.hi = a.lo, a.hi
		}
	case OpExtract:
		if t.val&0xff == 0 && a.hi <= m {
			t.lo, t.hi = a.lo, a.hi
		}
	case OpConcat:
		t.lo, t.hi = a.lo<<b.w|b.lo, a.hi<<b.w|b.hi
	}
}

func (tt *TermTable) Const(w uint8, v uint64) *Term {
	v &= mask(w)
	if w == 0 {
		v &= 1
	}
	if s := tt.small[w]; v < uint64(len(s)) {
		return s[v]
	}
	return tt.intern(tkey{op: OpConst, w: w, val: v}, nil, nil, nil)
}

func (tt *TermTable) Bool(b bool) *Term {
	if b {
		return tt.True
	}
	return tt.False
}

// Var returns the variable with that name; lo and hi bound its unsigned value
// (the caller must also assert them).
func (tt *TermTable) Var(name string, w uint8, lo, hi uint64) *Term {
	k := tkey{op: OpVar, w: w, name: name, val: lo, c: int(hi)}
	if t, ok := tt.m[k]; ok {
		return t
	}
	t := tt.intern(k, nil, nil, nil)
	t.val = 0
	if w > 0 {
		t.lo, t.hi = lo, min(hi, mask(w))
	}
	return t
}

// UF applies an uninterpreted function.
func (tt *TermTable) UF(name string, w uint8, args ...*Term) *Term {
	var sb strings.Builder
	for _, a := range args {
		fmt.Fprintf(&sb, "%d,", a.id)
	}
	k := tkey{op: OpUF, w: w, name: name, ufa: sb.String()}
	if t, ok := tt.m[k]; ok {
		return t
	}
	t := tt.intern(k, nil, nil, nil)
	t.ufa = args
	t.size = 10
	return t
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (tt *TermTable) Not(a *Term) *Term {
	if a.isConst() {
		return tt.Bool(a.val == 0)
	}
	if a.op == OpNot {
		return a.a[0]
	}
	return tt.intern(tkey{op: OpNot}, a, nil, nil)
}

func (tt *TermTable) And(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return tt.False
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() || a == b {
		return a
	}
	if a.op == OpNot && a.a[0] == b || b.op == OpNot && b.a[0] == a {
		return tt.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.intern(tkey{op: OpAnd}, a, b, nil)
}

func (tt *TermTable) Or(a, b *Term) *Term {
	if a.isTrue() || b.isTrue() {
		return tt.True
	}
	if a.isFalse() {
		return b
	}
	if b.isFalse() || a == b {
		return a
	}
	if a.op == OpNot && a.a[0] == b || b.op == OpNot && b.a[0] == a {
		return tt.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.intern(tkey{op: OpOr}, a, b, nil)
}

func (tt *TermTable) Eq(a, b *Term) *Term {
	if a == b {
		return tt.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq: width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(a.val == b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isConst() {
			if b.val == 1 {
				return a
			}
			return tt.Not(a)
		}
	} else {
		if a.hi < b.lo || b.hi < a.lo {
			return tt.False
		}
		if b.isConst() {
			switch a.op {
			case OpZExt:
				if b.val > mask(a.a[0].w) {
					return tt.False
				}
				return tt.Eq(a.a[0], tt.Const(a.a[0].w, b.val))
			case OpSExt:
				n := tt.Const(a.a[0].w, b.val)
				if uint64(sext(n.val, n.w))&mask(a.w) != b.val {
					return tt.False
				}
				return tt.Eq(a.a[0], n)
			case OpIte:
				x, y := a.a[1], a.a[2]
				if x.isConst() && y.isConst() {
					ex, ey := x.val == b.val, y.val == b.val
					switch {
					case ex && ey:
						return tt.True
					case ex:
						return a.a[0]
					case ey:
						return tt.Not(a.a[0])
					default:
						return tt.False
					}
				}
				if x.isConst() || y.isConst() {
					return tt.Ite(a.a[0], tt.Eq(x, b), tt.Eq(y, b))
				}
			case OpAdd:
				if a.a[1].isConst() {
					return tt.Eq(a.a[0], tt.Const(a.w, b.val-a.a[1].val))
				}
			case OpXor:
				if a.a[1].isConst() {
					return tt.Eq(a.a[0], tt.Const(a.w, b.val^a.a[1].val))
				}
			case OpConcat:
				l := a.a[1]
				return tt.And(tt.Eq(a.a[0], tt.Const(a.a[0].w, b.val>>l.w)), tt.Eq(l, tt.Const(l.w, b.val)))
			}
		} else if a.op == OpZExt && b.op == OpZExt && a.a[0].w == b.a[0].w {
			return tt.Eq(a.a[0], b.a[0])
		}
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return tt.intern(tkey{op: OpEq}, a, b, nil)
}

func (tt *TermTable) Ite(c, a, b *Term) *Term {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.w != b.w {
		panic("Ite: width mismatch")
	}
	if c.op == OpNot {
		return tt.Ite(c.a[0], b, a)
	}
	if a.w == 0 {
		switch {
		case a.isTrue():
			return tt.Or(c, b)
		case a.isFalse():
			return tt.And(tt.Not(c), b)
		case b.isTrue():
			return tt.Or(tt.Not(c), a)
		case b.isFalse():
			return tt.And(c, a)
		}
	}
	if a.op == OpIte && a.a[0] == c {
		a = a.a[1]
	}
	if b.op == OpIte && b.a[0] == c {
		b = b.a[2]
	}
	if a == b {
		return a
	}
	return tt.intern(tkey{op: OpIte, w: a.w}, c, a, b)
}

func foldBin(op Op, w uint8, x, y uint64) (uint64, bool) {
	m := mask(w)
	sx, sy := sext(x, w), sext(y, w)
	switch op {
	case OpAdd:
		return (x + y) & m, true
	case OpSub:
		return (x - y) & m, true
	case OpMul:
		return (x * y) & m, true
	case OpUDiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OpURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OpSDiv:
		if y == 0 {
			if sx < 0 {
				return 1, true
			}
			return m, true
		}
		if sy == -1 {
			return uint64(-sx) & m, true
		}
		return uint64(sx/sy) & m, true
	case OpSRem:
		if y == 0 {
			return x, true
		}
		if sy == -1 {
			return 0, true
		}
		return uint64(sx%sy) & m, true
	case OpBAnd:
		return x & y, true
	case OpBOr:
		return x | y, true
	case OpXor:
		return x ^ y, true
	case OpShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OpLShr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OpAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx>>y) & m, true
	}
	return 0, false
}

// Bin builds a bit-vector operation with both operands of equal width.
func (tt *TermTable) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Bin %s: width mismatch %d %d", opSMT[op], a.w, b.w))
	}
	w := a.w
	if a.isConst() && b.isConst() {
		if v, ok := foldBin(op, w, a.val, b.val); ok {
			return tt.Const(w, v)
		}
	}
	switch op {
	case OpAdd, OpMul, OpBAnd, OpBOr, OpXor:
		if a.isConst() {
			a, b = b, a
		}
	}
	if b.isConst() {
		switch op {
		case OpAdd:
			if b.val == 0 {
				return a
			}
			if a.op == OpAdd && a.a[1].isConst() {
				return tt.Bin(OpAdd, a.a[0], tt.Const(w, a.a[1].val+b.val))
			}
		case OpSub:
			if b.val == 0 {
				return a
			}
			return tt.Bin(OpAdd, a, tt.Const(w, -b.val))
		case OpMul:
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		case OpUDiv:
			if b.val == 1 {
				return a
			}
			if b.val != 0 && a.op == OpMul && a.a[1] == b {
				if h, l := bits.Mul64(a.a[0].hi, b.val); h == 0 && l <= mask(w) {
					return a.a[0]
				}
			}
			if b.val != 0 && a.hi/b.val == a.lo/b.val {
				return tt.Const(w, a.lo/b.val)
			}
			if b.val != 0 && b.val&(b.val-1) == 0 {
				return tt.Bin(OpLShr, a, tt.Const(w, uint64(bits.TrailingZeros64(b.val))))
			}
			// (x+c)/b with c >= b
			if a.op == OpAdd && b.val > 0 && a.a[1].isConst() && a.a[1].val >= b.val && a.a[0].hi <= mask(w)-a.a[1].val {
				c := a.a[1].val
				return tt.Bin(OpAdd, tt.Bin(OpUDiv, tt.Bin(OpAdd, a.a[0], tt.Const(w, c%b.val)), b), tt.Const(w, c/b.val))
			}
			if n := uint8(bits.Len64(max(a.hi, b.val))); b.val != 0 && n < w {
				return tt.ZExt(tt.Bin(OpUDiv, tt.Extract(a, n-1, 0), tt.Const(n, b.val)), w)
			}
		case OpURem:
			if b.val != 0 && a.hi < b.val {
				return a
			}
			if b.val != 0 && b.val&(b.val-1) == 0 {
				return tt.Bin(OpBAnd, a, tt.Const(w, b.val-1))
			}
			if n := uint8(bits.Len64(max(a.hi, b.val))); b.val != 0 && n < w {
				return tt.ZExt(tt.Bin(OpURem, tt.Extract(a, n-1, 0), tt.Const(n, b.val)), w)
			}
		case OpSDiv, OpSRem:
			if sext(b.val, w) > 0 && a.hi <= mask(w)>>1 {
				if op == OpSDiv {
					return tt.Bin(OpUDiv, a, b)
				}
				return tt.Bin(OpURem, a, b)
			}
			if op == OpSDiv && b.val == 1 {
				return a
			}
		case OpBAnd:
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
			// mask covering the whole range
			if a.hi > 0 && mask(uint8(bits.Len64(a.hi)))&^b.val == 0 {
				return a
			}
		case OpBOr, OpXor:
			if b.val == 0 {
				return a
			}
		case OpShl, OpLShr, OpAShr:
			if b.val == 0 {
				return a
			}
			if b.val >= uint64(w) && op != OpAShr {
				return tt.Const(w, 0)
			}
			if op == OpLShr && a.op == OpZExt && b.val >= uint64(a.a[0].w) {
				return tt.Const(w, 0)
			}
			if op == OpLShr && a.hi>>b.val == a.lo>>b.val {
				return tt.Const(w, a.hi>>b.val)
			}
		}
	}
	if a.isConst() && a.val == 0 {
		switch op {
		case OpShl, OpLShr, OpAShr:
			return a
		}
	}
	if a == b {
		switch op {
		case OpSub, OpXor:
			return tt.Const(w, 0)
		case OpBAnd, OpBOr:
			return a
		}
	}
	switch op {
	case OpMul, OpBAnd, OpBOr, OpXor, OpAdd:
		if a.id > b.id && !b.isConst() {
			a, b = b, a
		}
	}
	return tt.intern(tkey{op: op, w: w}, a, b, nil)
}

func (tt *TermTable) Neg(a *Term) *Term { return tt.Bin(OpSub, tt.Const(a.w, 0), a) }

func (tt *TermTable) BNot(a *Term) *Term {
	if a.isConst() {
		return tt.Const(a.w, ^a.val)
	}
	if a.op == OpBNot {
		return a.a[0]
	}
	return tt.intern(tkey{op: OpBNot, w: a.w}, a, nil, nil)
}

func (tt *TermTable) ULt(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tt.Bool(a.val < b.val)
	}
	if a == b {
		return tt.False
	}
	if a.hi < b.lo {
		return tt.True
	}
	if a.lo >= b.hi {
		return tt.False
	}
	if a.op == OpZExt && b.op == OpZExt && a.a[0].w == b.a[0].w {
		return tt.ULt(a.a[0], b.a[0])
	}
	if a.op == OpZExt && b.isConst() && b.val <= mask(a.a[0].w) {
		return tt.ULt(a.a[0], tt.Const(a.a[0].w, b.val))
	}
	if b.op == OpZExt && a.isConst() && a.val <= mask(b.a[0].w) {
		return tt.ULt(tt.Const(b.a[0].w, a.val), b.a[0])
	}
	return tt.intern(tkey{op: OpULt}, a, b, nil)
}

func (tt *TermTable) ULe(a, b *Term) *Term { return tt.Not(tt.ULt(b, a)) }

func (tt *TermTable) SLt(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tt.Bool(sext(a.val, a.w) < sext(b.val, b.w))
	}
	if a == b {
		return tt.False
	}
	h := mask(a.w) >> 1
	an, bn := a.hi <= h, b.hi <= h // known non-negative
	if an && bn {
		return tt.ULt(a, b)
	}
	ag, bg := a.lo > h, b.lo > h // known negative
	if an && bg {
		return tt.False
	}
	if ag && bn {
		return tt.True
	}
	if ag && bg {
		return tt.ULt(a, b)
	}
	if a.op == OpSExt && b.op == OpSExt && a.a[0].w == b.a[0].w {
		return tt.SLt(a.a[0], b.a[0])
	}
	return tt.intern(tkey{op: OpSLt}, a, b, nil)
}

func (tt *TermTable) SLe(a, b *Term) *Term { return tt.Not(tt.SLt(b, a)) }

func (tt *TermTable) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	if a.isConst() {
		return tt.Const(w, a.val>>lo)
	}
	switch a.op {
	case OpZExt:
		x := a.a[0]
		if lo == 0 {
			if w == x.w {
				return x
			}
			if w > x.w {
				return tt.ZExt(x, w)
			}
			return tt.Extract(x, hi, 0)
		}
		if lo >= x.w {
			return tt.Const(w, 0)
		}
		if hi < x.w {
			return tt.Extract(x, hi, lo)
		}
	case OpSExt:
		x := a.a[0]
		if lo == 0 && w <= x.w {
			return tt.Extract(x, hi, 0)
		}
	case OpExtract:
		l0 := uint8(a.val & 0xff)
		return tt.Extract(a.a[0], hi+l0, lo+l0)
	case OpConcat:
		l := a.a[1]
		if hi < l.w {
			return tt.Extract(l, hi, lo)
		}
		if lo >= l.w {
			return tt.Extract(a.a[0], hi-l.w, lo-l.w)
		}
	case OpIte:
		if a.a[1].isConst() || a.a[2].isConst() {
			return tt.Ite(a.a[0], tt.Extract(a.a[1], hi, lo), tt.Extract(a.a[2], hi, lo))
		}
	case OpBAnd, OpBOr, OpXor:
		return tt.Bin(a.op, tt.Extract(a.a[0], hi, lo), tt.Extract(a.a[1], hi, lo))
	case OpShl:
		// bytes out of shifted values
		if c := a.a[1]; c.isConst() {
			n := uint8(c.val)
			if lo >= n {
				return tt.Extract(a.a[0], hi-n, lo-n)
			}
			if hi < n {
				return tt.Const(w, 0)
			}
		}
	case OpLShr:
		if c := a.a[1]; c.isConst() && uint64(hi)+c.val < uint64(a.w) {
			n := uint8(c.val)
			return tt.Extract(a.a[0], hi+n, lo+n)
		}
	case OpAdd, OpSub, OpMul:
		if lo == 0 {
			return tt.Bin(a.op, tt.Extract(a.a[0], hi, 0), tt.Extract(a.a[1], hi, 0))
		}
	}
	return tt.intern(tkey{op: OpExtract, w: w, val: uint64(hi)<<8 | uint64(lo)}, a, nil, nil)
}

// Byte extracts a byte; sums are not taken apart so that Concat restores them.
func (tt *TermTable) Byte(a *Term, lo uint8) *Term {
	switch a.op {
	case OpAdd, OpSub, OpMul:
		if a.w > 8 {
			return tt.intern(tkey{op: OpExtract, w: 8, val: uint64(lo+7)<<8 | uint64(lo)}, a, nil, nil)
		}
	}
	return tt.Extract(a, lo+7, lo)
}

func (tt *TermTable) Concat(a, b *Term) *Term {
	w := a.w + b.w
	if a.isConst() && b.isConst() {
		return tt.Const(w, a.val<<b.w|b.val)
	}
	if a.isConst() && a.val == 0 {
		return tt.ZExt(b, w)
	}
	if a.op == OpExtract && b.op == OpExtract && a.a[0] == b.a[0] {
		ah, al := uint8(a.val>>8), uint8(a.val)
		bh, bl := uint8(b.val>>8), uint8(b.val)
		if al == bh+1 {
			return tt.Extract(a.a[0], ah, bl)
		}
	}
	return tt.intern(tkey{op: OpConcat, w: w}, a, b, nil)
}

func (tt *TermTable) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tt.Const(w, a.val)
	}
	if a.op == OpZExt {
		return tt.ZExt(a.a[0], w)
	}
	if a.op == OpIte && (a.a[1].isConst() && a.a[2].isConst()) {
		return tt.Ite(a.a[0], tt.ZExt(a.a[1], w), tt.ZExt(a.a[2], w))
	}
	return tt.intern(tkey{op: OpZExt, w: w}, a, nil, nil)
}

func (tt *TermTable) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tt.Const(w, uint64(sext(a.val, a.w)))
	}
	if a.hi <= mask(a.w)>>1 {
		return tt.ZExt(a, w)
	}
	return tt.intern(tkey{op: OpSExt, w: w}, a, nil, nil)
}

// BoolToBV converts a boolean to a bit-vector of width w.
func (tt *TermTable) BoolToBV(c *Term, w uint8) *Term {
	return tt.Ite(c, tt.Const(w, 1), tt.Const(w, 0))
}

// Eval evaluates a term under a model; variables missing from the model take
// their lower bound.
type Model map[string]uint64

type evaluator struct {
	m    Model
	memo map[*Term]uint64
}

func (e *evaluator) eval(t *Term) uint64 {
	switch t.op {
	case OpConst:
		return t.val
	case OpVar:
		if v, ok := e.m[t.name]; ok {
			return v
		}
		return t.lo
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	var r uint64
	bo := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case OpNot:
		r = 1 - e.eval(t.a[0])
	case OpAnd:
		r = e.eval(t.a[0])
		if r == 1 {
			r = e.eval(t.a[1])
		}
	case OpOr:
		r = e.eval(t.a[0])
		if r == 0 {
			r = e.eval(t.a[1])
		}
	case OpEq:
		r = bo(e.eval(t.a[0]) == e.eval(t.a[1]))
	case OpIte:
		if e.eval(t.a[0]) == 1 {
			r = e.eval(t.a[1])
		} else {
			r = e.eval(t.a[2])
		}
	case OpBNot:
		r = ^e.eval(t.a[0]) & mask(t.w)
	case OpNeg:
		r = -e.eval(t.a[0]) & mask(t.w)
	case OpULt:
		r = bo(e.eval(t.a[0]) < e.eval(t.a[1]))
	case OpULe:
		r = bo(e.eval(t.a[0]) <= e.eval(t.a[1]))
	case OpSLt:
		r = bo(sext(e.eval(t.a[0]), t.a[0].w) < sext(e.eval(t.a[1]), t.a[1].w))
	case OpSLe:
		r = bo(sext(e.eval(t.a[0]), t.a[0].w) <= sext(e.eval(t.a[1]), t.a[1].w))
	case OpExtract:
		r = e.eval(t.a[0]) >> (t.val & 0xff) & mask(t.w)
	case OpConcat:
		r = e.eval(t.a[0])<<t.a[1].w | e.eval(t.a[1])
	case OpZExt:
		r = e.eval(t.a[0])
	case OpSExt:
		r = uint64(sext(e.eval(t.a[0]), t.a[0].w)) & mask(t.w)
	case OpUF:
		panic(errUFEval)
	default:
		r, _ = foldBin(t.op, t.w, e.eval(t.a[0]), e.eval(t.a[1]))
	}
	e.memo[t] = r
	return r
}

var errUFEval = fmt.Errorf("uninterpreted function in evaluation")

func (t *Term) String() string {
	var sb strings.Builder
	t.write(&sb, 0)
	return sb.String()
}

func (t *Term) write(sb *strings.Builder, depth int) {
	if depth > 12 {
		sb.WriteString("..")
		return
	}
	switch t.op {
	case OpConst:
		if t.w == 0 {
			fmt.Fprintf(sb, "%v", t.val == 1)
		} else {
			fmt.Fprintf(sb, "%d", t.val)
		}
		return
	case OpVar:
		sb.WriteString(t.name)
		return
	}
	switch t.op {
	case OpExtract:
		fmt.Fprintf(sb, "([%d:%d]", t.val>>8, t.val&0xff)
	case OpZExt:
		fmt.Fprintf(sb, "(zext%d", t.w)
	case OpSExt:
		fmt.Fprintf(sb, "(sext%d", t.w)
	case OpUF:
		fmt.Fprintf(sb, "(%s", t.name)
		for _, x := range t.ufa {
			sb.WriteByte(' ')
			x.write(sb, depth+1)
		}
	default:
		fmt.Fprintf(sb, "(%s", opSMT[t.op])
	}
	for _, x := range t.a {
		if x != nil {
			sb.WriteByte(' ')
			x.write(sb, depth+1)
		}
	}
	sb.WriteByte(')')
}
