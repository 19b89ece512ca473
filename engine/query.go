package main

import "encoding/binary"

// A question to the solver only depends on the part of the path condition that
// shares variables with it, directly or through other conjuncts. Asking about
// that part alone lets paths that differ elsewhere, such as in their schedule,
// share the answer.
type queries struct {
	supp  map[*Term][]int32 // variables of a conjunct
	ids   map[string]int32
	names []string
	mark  []int // per variable: last query that needs it
	stamp int
	memo  map[string]answer

	Hits int
}

type answer struct {
	r Result
	m Model
}

func newQueries() *queries {
	return &queries{supp: make(map[*Term][]int32), ids: make(map[string]int32), memo: make(map[string]answer)}
}

func (q *queries) id(name string) int32 {
	i, ok := q.ids[name]
	if !ok {
		i = int32(len(q.names))
		q.ids[name] = i
		q.names = append(q.names, name)
		q.mark = append(q.mark, 0)
	}
	return i
}

// support lists the variables of a term; an uninterpreted function counts as
// one since its applications constrain each other.
func (q *queries) support(t *Term) []int32 {
	if s, ok := q.supp[t]; ok {
		return s
	}
	s := []int32{}
	has := make(map[int32]bool)
	seen := make(map[*Term]bool)
	var walk func(*Term)
	walk = func(t *Term) {
		if t == nil || t.op == OpConst || seen[t] {
			return
		}
		seen[t] = true
		name := ""
		switch t.op {
		case OpVar:
			name = t.name
		case OpUF:
			name = "uf " + t.name
		}
		if name != "" {
			if i := q.id(name); !has[i] {
				has[i] = true
				s = append(s, i)
			}
		}
		for _, a := range t.a {
			walk(a)
		}
		for _, a := range t.ufa {
			walk(a)
		}
	}
	walk(t)
	q.supp[t] = s
	return s
}

// slice returns the conjuncts that bear on a term.
func (q *queries) slice(pc []*Term, c *Term) []*Term {
	q.stamp++
	for _, v := range q.support(c) {
		q.mark[v] = q.stamp
	}
	in := make([]bool, len(pc))
	n := 0
	for again := true; again; {
		again = false
		for i, p := range pc {
			if in[i] {
				continue
			}
			s := q.support(p)
			hit := len(s) == 0
			for _, v := range s {
				if q.mark[v] == q.stamp {
					hit = true
					break
				}
			}
			if !hit {
				continue
			}
			in[i] = true
			n++
			for _, v := range s {
				if q.mark[v] != q.stamp {
					q.mark[v] = q.stamp
					again = true
				}
			}
		}
	}
	out := make([]*Term, 0, n)
	for i, p := range pc {
		if in[i] {
			out = append(out, p)
		}
	}
	return out
}

// query decides whether c can hold on the current path.
func (in *Interp) query(c *Term) (Result, Model) {
	if !in.modelOK || len(in.pc) > 20000 {
		return in.sol.Check(in.pc, c, in.varList)
	}
	q := in.qs
	part := q.slice(in.pc, c)
	key := make([]byte, 0, 4*len(part)+4)
	for _, p := range part {
		key = binary.LittleEndian.AppendUint32(key, uint32(p.id))
	}
	key = binary.LittleEndian.AppendUint32(key, uint32(c.id))
	a, ok := q.memo[string(key)]
	if ok {
		q.Hits++
	} else {
		var vars []string
		for i, n := range q.names {
			if q.mark[i] == q.stamp {
				vars = append(vars, n)
			}
		}
		a.r, a.m = in.sol.Check(part, c, vars)
		if a.r != Unknown {
			if len(q.memo) > 200000 {
				q.memo = make(map[string]answer)
			}
			q.memo[string(key)] = a
		}
	}
	if a.r != Sat {
		return a.r, nil
	}
	// the rest of the path condition keeps its values
	m := make(Model, len(in.model)+len(a.m))
	for k, v := range in.model {
		m[k] = v
	}
	for k, v := range a.m {
		m[k] = v
	}
	return Sat, m
}
