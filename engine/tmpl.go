package main

import (
	"go/types"
	"text/template/parse"
)

// text/template works through reflection, so templates are evaluated here from
// their parse tree; template functions are called in the program under analysis.

type tmplState struct {
	funcs *Map
	tree  *parse.Tree
}

func (in *Interp) tmplOf(v Value) *tmplState {
	p := v.(*Value)
	if p == nil {
		in.nilDeref()
	}
	if in.tmpls == nil {
		in.tmpls = make(map[*Value]*tmplState)
	}
	t := in.tmpls[p]
	if t == nil {
		t = &tmplState{}
		in.tmpls[p] = t
	}
	return t
}

func (in *Interp) mkError(msg *Str) Iface {
	p := new(Value)
	*p = Struct{msg}
	return Iface{t: in.ptrTo(in.sh.prog.ImportedPackage("errors").Type("errorString").Type()), v: p}
}

var tmplBuiltins = map[string]any{"and": "", "or": "", "not": "", "len": "", "index": "", "print": "", "printf": "", "println": "",
	"html": "", "js": "", "call": "", "slice": "", "urlquery": "", "eq": "", "ne": "", "lt": "", "le": "", "gt": "", "ge": ""}

func init() {
	reg("text/template.New", func(in *Interp, fr *Frame, a []Value) Value { return in.newOf("text/template", "Template") })
	reg("(*text/template.Template).Funcs", func(in *Interp, fr *Frame, a []Value) Value {
		in.tmplOf(a[0]).funcs = a[1].(*Map)
		return a[0]
	})
	reg("(*text/template.Template).Parse", func(in *Interp, fr *Frame, a []Value) Value {
		in.effect()
		t := in.tmplOf(a[0])
		s, ok := a[1].(*Str).conc()
		if !ok {
			panic(unsupported{"symbolic template text"})
		}
		fs := map[string]any{}
		if t.funcs != nil {
			for _, e := range t.funcs.ents {
				if e.live {
					fs[e.k.(*Str).s] = ""
				}
			}
		}
		trees, err := parse.Parse("template", s, "", "", fs, tmplBuiltins)
		if err != nil {
			return Tuple{(*Value)(nil), in.mkError(concStr(err.Error()))}
		}
		t.tree = trees["template"]
		return Tuple{a[0], Iface{}}
	})
	reg("(*text/template.Template).Execute", func(in *Interp, fr *Frame, a []Value) Value {
		in.effect()
		t := in.tmplOf(a[0])
		data := a[2].(Iface)
		var out []*Term
		if t.tree != nil && t.tree.Root != nil {
			for _, n := range t.tree.Root.Nodes {
				switch n := n.(type) {
				case *parse.TextNode:
					out = append(out, in.strBytes(concStr(string(n.Text)))...)
				case *parse.ActionNode:
					v := in.tmplPipe(fr, t, n.Pipe, data)
					out = append(out, in.strBytes(in.tmplPrint(v))...)
				default:
					panic(unsupported{"template node " + n.String()})
				}
			}
		}
		w := a[1].(Iface)
		b := make(Slice, len(out))
		for i, x := range out {
			b[i] = x
		}
		fn := in.methodByName(w.t, "Write")
		r := in.callFn(fr, fn, []Value{w.v, b}, nil).(Tuple)
		return r[1]
	})
}

func (in *Interp) tmplPipe(fr *Frame, t *tmplState, p *parse.PipeNode, data Iface) Iface {
	if len(p.Decl) > 0 {
		panic(unsupported{"template variables"})
	}
	var v Iface
	for i, c := range p.Cmds {
		var extra []Iface
		if i > 0 {
			extra = []Iface{v}
		}
		v = in.tmplCmd(fr, t, c, data, extra)
	}
	return v
}

func (in *Interp) tmplArg(fr *Frame, t *tmplState, n parse.Node, data Iface) Iface {
	switch n := n.(type) {
	case *parse.FieldNode:
		v := data
		for _, name := range n.Ident {
			st, ok := v.t.Underlying().(*types.Struct)
			if !ok {
				panic(unsupported{"template field of " + v.t.String()})
			}
			found := false
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					v, found = Iface{t: st.Field(i).Type(), v: v.v.(Struct)[i]}, true
					break
				}
			}
			if !found {
				panic(unsupported{"template field " + name})
			}
		}
		return v
	case *parse.DotNode:
		return data
	case *parse.StringNode:
		return Iface{t: types.Typ[types.String], v: concStr(n.Text)}
	case *parse.NumberNode:
		return Iface{t: types.Typ[types.Int], v: in.i64(int(n.Int64))}
	case *parse.PipeNode:
		return in.tmplPipe(fr, t, n, data)
	}
	panic(unsupported{"template argument " + n.String()})
}

func (in *Interp) tmplCmd(fr *Frame, t *tmplState, c *parse.CommandNode, data Iface, extra []Iface) Iface {
	id, ok := c.Args[0].(*parse.IdentifierNode)
	if !ok {
		return in.tmplArg(fr, t, c.Args[0], data)
	}
	var args []Iface
	for _, n := range c.Args[1:] {
		args = append(args, in.tmplArg(fr, t, n, data))
	}
	args = append(args, extra...)
	if t.funcs != nil {
		if e := in.mapFind(t.funcs, concStr(id.Ident)); e != nil {
			f := e.v.(Iface)
			var vs []Value
			for _, a := range args {
				vs = append(vs, a.v)
			}
			sig := f.t.Underlying().(*types.Signature)
			if sig.Results().Len() != 1 || sig.Params().Len() != len(vs) {
				panic(unsupported{"template function " + id.Ident})
			}
			return Iface{t: sig.Results().At(0).Type(), v: in.callValue(fr, f.v, vs)}
		}
	}
	panic(unsupported{"template function " + id.Ident})
}

func (in *Interp) tmplPrint(v Iface) *Str {
	switch x := v.v.(type) {
	case *Str:
		return x
	case *Term:
		if b, ok := v.t.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			return in.decimal(x)
		}
	}
	panic(unsupported{"template output of " + v.t.String()})
}

// decimal renders an unsigned number, one path per number of digits.
func (in *Interp) decimal(t *Term) *Str {
	tt := in.tt
	if t.w < 32 {
		t = tt.ZExt(t, 32)
	}
	n := 1
	for p := uint64(10); n < 20; p *= 10 {
		if t.w == 32 && n == 10 {
			break
		}
		if in.decide(tt.ULt(t, tt.Const(t.w, p))) {
			break
		}
		n++
	}
	b := make([]*Term, n)
	for i := n - 1; i >= 0; i-- {
		b[i] = tt.Bin(OpAdd, tt.Extract(tt.Bin(OpURem, t, tt.Const(t.w, 10)), 7, 0), tt.Const(8, '0'))
		t = tt.Bin(OpUDiv, t, tt.Const(t.w, 10))
	}
	return mkStr(b)
}
