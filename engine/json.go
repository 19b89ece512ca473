package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strconv"
	"strings"
)

// A model of encoding/json for symbolic values: the text of a value is a token
// naming a snapshot of its exported fields, and reading a token back assigns
// the fields of the same name. Equal values give equal tokens.

type snapField struct {
	name string
	v    *snap
}

type snap struct {
	kind   string // "struct", "list", "null", "leaf"
	fields []snapField
	list   []*snap
	leaf   Value
}

func jsonName(f *types.Var, tag string) (name string, use, embed bool) {
	t := reflect.StructTag(tag).Get("json")
	if t == "-" {
		return "", false, false
	}
	name, _, _ = strings.Cut(t, ",")
	if f.Embedded() && name == "" {
		if _, ok := f.Type().Underlying().(*types.Struct); ok {
			return "", true, true
		}
	}
	if !f.Exported() {
		return "", false, false
	}
	if name == "" {
		name = f.Name()
	}
	return name, true, false
}

func isTime(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	w, _, ok := scalar(s.Elem())
	return ok && w == 8
}

// custom reports whether a type has its own JSON or text form.
func customJSON(t types.Type) bool {
	for _, name := range []string{"MarshalJSON", "MarshalText", "UnmarshalJSON", "UnmarshalText"} {
		if obj, _, _ := types.LookupFieldOrMethod(types.NewPointer(t), true, nil, name); obj != nil {
			if _, ok := obj.(*types.Func); ok {
				return true
			}
		}
	}
	return false
}

func (in *Interp) snapshot(t types.Type, v Value) *snap {
	if isTime(t) {
		// the monotonic clock reading is not kept
		s := copyVal(v).(Struct)
		return &snap{kind: "leaf", leaf: s}
	}
	if _, ok := t.Underlying().(*types.Pointer); !ok && customJSON(t) {
		panic(unsupported{"JSON form of " + t.String()})
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p, _ := v.(*Value)
		if p == nil {
			return &snap{kind: "null"}
		}
		return in.snapshot(u.Elem(), in.load(p))
	case *types.Interface:
		i, _ := v.(Iface)
		if i.t == nil {
			return &snap{kind: "null"}
		}
		return in.snapshot(i.t, i.v)
	case *types.Struct:
		r := &snap{kind: "struct"}
		for i := 0; i < u.NumFields(); i++ {
			name, use, embed := jsonName(u.Field(i), u.Tag(i))
			if !use {
				continue
			}
			s := in.snapshot(u.Field(i).Type(), v.(Struct)[i])
			if embed {
				r.fields = append(r.fields, s.fields...)
				continue
			}
			r.fields = append(r.fields, snapField{name, s})
		}
		return r
	case *types.Slice:
		s, _ := v.(Slice)
		if s == nil {
			return &snap{kind: "null"}
		}
		r := &snap{kind: "list"}
		for _, x := range s {
			r.list = append(r.list, in.snapshot(u.Elem(), x))
		}
		return r
	case *types.Array:
		r := &snap{kind: "list"}
		for _, x := range v.(Array) {
			r.list = append(r.list, in.snapshot(u.Elem(), x))
		}
		return r
	case *types.Basic:
		return &snap{kind: "leaf", leaf: v}
	}
	panic(unsupported{"JSON form of " + t.String()})
}

func (in *Interp) unsnap(t types.Type, s *snap, old Value) (Value, bool) {
	if s.kind == "null" {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Slice, *types.Map:
			return in.zero(t), true
		}
		return old, true
	}
	if isTime(t) {
		v, ok := s.leaf.(Struct)
		return copyVal(v), ok
	}
	if _, ok := t.Underlying().(*types.Pointer); !ok && customJSON(t) {
		panic(unsupported{"JSON form of " + t.String()})
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p, _ := old.(*Value)
		if p == nil {
			x := in.zero(u.Elem())
			p = &x
		}
		x, ok := in.unsnap(u.Elem(), s, in.load(p))
		in.store(p, x)
		return p, ok
	case *types.Struct:
		if s.kind != "struct" {
			return old, false
		}
		r := copyVal(old).(Struct)
		all := true
		for i := 0; i < u.NumFields(); i++ {
			name, use, embed := jsonName(u.Field(i), u.Tag(i))
			if !use {
				continue
			}
			if embed {
				x, ok := in.unsnap(u.Field(i).Type(), s, r[i])
				r[i], all = x, all && ok
				continue
			}
			for _, f := range s.fields {
				if f.name == name || strings.EqualFold(f.name, name) {
					x, ok := in.unsnap(u.Field(i).Type(), f.v, r[i])
					r[i], all = x, all && ok
				}
			}
		}
		return r, all
	case *types.Slice:
		if s.kind != "list" {
			return old, false
		}
		r := make(Slice, len(s.list))
		all := true
		for i, e := range s.list {
			x, ok := in.unsnap(u.Elem(), e, in.zero(u.Elem()))
			r[i], all = x, all && ok
		}
		return r, all
	case *types.Basic:
		if s.kind != "leaf" {
			return old, false
		}
		switch v := s.leaf.(type) {
		case *Term:
			z, ok := in.zero(t).(*Term)
			if !ok || z.w != v.w {
				if ok && z.w > 0 && v.w > 0 && v.isConst() {
					return in.tt.Const(z.w, v.val), true
				}
				return old, false
			}
			return v, true
		case *Str:
			_, ok := in.zero(t).(*Str)
			return v, ok
		}
	}
	panic(unsupported{"JSON form of " + t.String()})
}

func (s *snap) key(b *strings.Builder) {
	switch s.kind {
	case "null":
		b.WriteString("null")
	case "struct":
		b.WriteByte('{')
		for _, f := range s.fields {
			b.WriteString(f.name + ":")
			f.v.key(b)
			b.WriteByte(',')
		}
		b.WriteByte('}')
	case "list":
		b.WriteByte('[')
		for _, x := range s.list {
			x.key(b)
			b.WriteByte(',')
		}
		b.WriteByte(']')
	default:
		leafKey(b, s.leaf)
	}
}

func leafKey(b *strings.Builder, v Value) {
	switch v := v.(type) {
	case Struct:
		for _, x := range v {
			leafKey(b, x)
			b.WriteByte(';')
		}
	case *Str:
		if c, ok := v.conc(); ok {
			b.WriteString(strconv.Quote(c))
			return
		}
		for _, t := range v.b {
			fmt.Fprintf(b, "%p", t)
		}
	default:
		fmt.Fprintf(b, "%p", v)
	}
}

func init() {
	reg(vfp+"Pack", func(in *Interp, fr *Frame, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			panic(unsupported{"JSON form of nil"})
		}
		s := in.snapshot(i.t, i.v)
		var b strings.Builder
		s.key(&b)
		id, ok := in.snapIDs[b.String()]
		if !ok {
			if in.snapIDs == nil {
				in.snapIDs = make(map[string]int)
			}
			id = len(in.snaps)
			in.snaps = append(in.snaps, s)
			in.snapIDs[b.String()] = id
		}
		text := fmt.Sprintf(`{"zz":%d}`, id)
		r := make(Slice, len(text))
		for j := range r {
			r[j] = in.tt.Const(8, uint64(text[j]))
		}
		return r
	})
	reg(vfp+"Unpack", func(in *Interp, fr *Frame, a []Value) Value {
		var text []byte
		for _, x := range a[0].(Slice) {
			t := x.(*Term)
			if !t.isConst() {
				panic(unsupported{"symbolic JSON text"})
			}
			text = append(text, byte(t.val))
		}
		var id int
		if _, err := fmt.Sscanf(string(text), `{"zz":%d}`, &id); err != nil || id >= len(in.snaps) {
			return in.tt.False
		}
		i := a[1].(Iface)
		p, ok := i.v.(*Value)
		if !ok || p == nil {
			return in.tt.False
		}
		v, ok := in.unsnap(i.t.Underlying().(*types.Pointer).Elem(), in.snaps[id], in.load(p))
		in.store(p, v)
		return in.tt.Bool(ok)
	})
}
