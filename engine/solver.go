package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver drives one SMT solver process over a pipe. The assertion stack of
// the process is kept in step with the path condition of the path being
// executed, so that consecutive paths only exchange the differing suffix.
type Solver struct {
	bin     string
	args    []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	defined map[int]bool
	vars    map[string]bool
	ufs     map[string]bool
	stack   []*Term
	ndefs   int

	timeoutMS int

	Queries int
	Sat     int
	Unsat   int
	Unknown int
	Time    time.Duration
	MaxTime time.Duration

	dump io.Writer // optional SMT-LIB transcript (for the cross-check)
}

type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

func NewSolver(bin string, args []string, timeoutMS int) *Solver {
	s := &Solver{bin: bin, args: args, timeoutMS: timeoutMS}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, s.args...)
	w, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.defined = make(map[int]bool)
	s.vars = make(map[string]bool)
	s.ufs = make(map[string]bool)
	s.stack = nil
	s.ndefs = 0
	s.send("(set-option :print-success false)")
	s.send("(set-option :global-declarations true)")
	s.send("(set-option :produce-models true)")
	if strings.Contains(s.bin, "z3") {
		s.send(fmt.Sprintf("(set-option :timeout %d)", s.timeoutMS))
	} else {
		s.send(fmt.Sprintf("(set-option :tlimit-per %d)", s.timeoutMS))
	}
	s.send("(set-logic QF_UFBV)")
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

func (s *Solver) send(line string) {
	s.in.WriteString(line)
	s.in.WriteByte('\n')
	if s.dump != nil {
		io.WriteString(s.dump, line+"\n")
	}
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func varName(n string) string { return "|" + n + "|" }

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		return "(_ bv" + strconv.FormatUint(t.val, 10) + " " + strconv.Itoa(int(t.w)) + ")"
	case OpVar:
		if !s.vars[t.name] {
			s.vars[t.name] = true
			s.send("(declare-const " + varName(t.name) + " " + sortOf(t.w) + ")")
		}
		return varName(t.name)
	}
	n := "t" + strconv.Itoa(t.id)
	if s.defined[t.id] {
		return n
	}
	var sb strings.Builder
	sb.WriteString("(define-fun " + n + " () " + sortOf(t.w) + " ")
	var args []string
	for _, a := range t.a {
		if a != nil {
			args = append(args, s.ref(a))
		}
	}
	switch t.op {
	case OpExtract:
		fmt.Fprintf(&sb, "((_ extract %d %d) %s)", t.val>>8, t.val&0xff, args[0])
	case OpZExt:
		fmt.Fprintf(&sb, "((_ zero_extend %d) %s)", t.w-t.a[0].w, args[0])
	case OpSExt:
		fmt.Fprintf(&sb, "((_ sign_extend %d) %s)", t.w-t.a[0].w, args[0])
	case OpUF:
		for _, a := range t.ufa {
			args = append(args, s.ref(a))
		}
		if !s.ufs[t.name] {
			s.ufs[t.name] = true
			var d strings.Builder
			d.WriteString("(declare-fun " + varName(t.name) + " (")
			for _, a := range t.ufa {
				d.WriteString(sortOf(a.w) + " ")
			}
			d.WriteString(") " + sortOf(t.w) + ")")
			s.send(d.String())
		}
		sb.WriteString("(" + varName(t.name) + " " + strings.Join(args, " ") + ")")
	default:
		sb.WriteString("(" + opSMT[t.op] + " " + strings.Join(args, " ") + ")")
	}
	sb.WriteString(")")
	s.send(sb.String())
	s.defined[t.id] = true
	s.ndefs++
	return n
}

func (s *Solver) sync(pc []*Term) {
	if s.ndefs > 400000 {
		s.Close()
		s.start()
	}
	i := 0
	for i < len(pc) && i < len(s.stack) && pc[i] == s.stack[i] {
		i++
	}
	if n := len(s.stack) - i; n > 0 {
		s.send(fmt.Sprintf("(pop %d)", n))
		s.stack = s.stack[:i]
	}
	for ; i < len(pc); i++ {
		r := s.ref(pc[i])
		s.send("(push 1)")
		s.send("(assert " + r + ")")
		s.stack = append(s.stack, pc[i])
	}
}

// Check decides pc && extra. On Sat it returns a model of the variables.
func (s *Solver) Check(pc []*Term, extra *Term, vars []string) (Result, Model) {
	s.sync(pc)
	if extra != nil {
		r := s.ref(extra)
		s.send("(push 1)")
		s.send("(assert " + r + ")")
	}
	t0 := time.Now()
	s.send("(check-sat)")
	// the solver does not always keep to its own limit
	p := s.cmd.Process
	hang := time.AfterFunc(time.Duration(s.timeoutMS)*time.Millisecond+5*time.Second, func() { p.Kill() })
	line := s.readLine()
	hang.Stop()
	var m Model
	res := Unknown
	switch line {
	case "sat":
		res = Sat
		m = s.model(vars)
	case "unsat":
		res = Unsat
	}
	d := time.Since(t0)
	s.Time += d
	if d > s.MaxTime {
		s.MaxTime = d
	}
	s.Queries++
	switch res {
	case Sat:
		s.Sat++
	case Unsat:
		s.Unsat++
	default:
		s.Unknown++
	}
	if strings.HasPrefix(line, "(error") || line == "" {
		// inconclusive; restart to get back in step
		fmt.Fprintln(debugOut, "solver:", line)
		s.Close()
		s.start()
		return Unknown, nil
	}
	if extra != nil {
		s.send("(pop 1)")
	}
	return res, m
}

func (s *Solver) readLine() string {
	s.in.Flush()
	line, err := s.out.ReadString('\n')
	if err != nil {
		return ""
	}
	return strings.TrimSpace(line)
}

func (s *Solver) model(vars []string) Model {
	names := make([]string, 0, len(vars))
	for _, n := range vars {
		if s.vars[n] {
			names = append(names, n)
		}
	}
	m := make(Model, len(names))
	if len(names) == 0 {
		return m
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, n := range names {
		sb.WriteString(varName(n))
		sb.WriteByte(' ')
	}
	sb.WriteString("))")
	s.send(sb.String())
	s.in.Flush()
	// read a balanced s-expression
	depth := 0
	inBar := false
	var buf []byte
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return m
		}
		buf = append(buf, c)
		if c == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if c == '(' {
			depth++
		} else if c == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	s.out.ReadString('\n')
	parseModel(string(buf), m)
	return m
}

func parseModel(s string, m Model) {
	i := 0
	for i < len(s) {
		j := strings.IndexByte(s[i:], '|')
		var name string
		// z3 prints simple symbols without bars
		k := strings.IndexByte(s[i:], '(')
		if k < 0 {
			return
		}
		if j >= 0 && j == k+1 {
			e := strings.IndexByte(s[i+j+1:], '|')
			name = s[i+j+1 : i+j+1+e]
			i = i + j + 1 + e + 1
		} else {
			i += k + 1
			if i < len(s) && s[i] == '(' {
				continue
			}
			e := strings.IndexAny(s[i:], " \n\t)")
			if e < 0 {
				return
			}
			name = s[i : i+e]
			i += e
		}
		for i < len(s) && (s[i] == ' ' || s[i] == '\n') {
			i++
		}
		if i >= len(s) {
			return
		}
		switch {
		case strings.HasPrefix(s[i:], "true"):
			m[name] = 1
			i += 4
		case strings.HasPrefix(s[i:], "false"):
			m[name] = 0
			i += 5
		case strings.HasPrefix(s[i:], "#x"):
			e := i + 2
			for e < len(s) && strings.IndexByte("0123456789abcdefABCDEF", s[e]) >= 0 {
				e++
			}
			v, _ := strconv.ParseUint(s[i+2:e], 16, 64)
			m[name] = v
			i = e
		case strings.HasPrefix(s[i:], "#b"):
			e := i + 2
			for e < len(s) && (s[e] == '0' || s[e] == '1') {
				e++
			}
			v, _ := strconv.ParseUint(s[i+2:e], 2, 64)
			m[name] = v
			i = e
		case strings.HasPrefix(s[i:], "(_ bv"):
			e := i + 5
			for e < len(s) && s[e] >= '0' && s[e] <= '9' {
				e++
			}
			v, _ := strconv.ParseUint(s[i+5:e], 10, 64)
			m[name] = v
			c := strings.IndexByte(s[e:], ')')
			i = e + c + 1
		}
	}
}
