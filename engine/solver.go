package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strings"
	"time"
)

// Solver drives one SMT-LIB2 solver process incrementally.

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

type Solver struct {
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	stack   []*Term // asserted terms, one push level each
	defined map[int32]bool
	decl    map[string]bool
	name    string

	queries int
	nsat    int
	nunsat  int
	nunk    int
	dur     time.Duration
	maxDur  time.Duration
	args    []string
}

func newSolver(name string, args ...string) *Solver {
	s := &Solver{name: name, args: args}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.name, s.args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		fatalf("solver: %v", err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		fatalf("solver: %v", err)
	}
	if err := s.cmd.Start(); err != nil {
		fatalf("solver: %v", err)
	}
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defined = map[int32]bool{}
	s.decl = map[string]bool{}
	s.stack = nil
	fmt.Fprintln(s.in, "(set-option :global-declarations true)")
	fmt.Fprintln(s.in, "(set-option :produce-models true)")
	fmt.Fprintln(s.in, "(set-logic QF_BV)")
}

func (s *Solver) close() {
	fmt.Fprintln(s.in, "(exit)")
	s.in.Flush()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func quoteName(n string) string { return "|" + n + "|" }

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	case OVar:
		if !s.decl[t.name] {
			s.decl[t.name] = true
			fmt.Fprintf(s.in, "(declare-const %s %s)\n", quoteName(t.name), sortName(t.w))
		}
		return quoteName(t.name)
	}
	if !s.defined[t.id] {
		refs := make([]string, len(t.args))
		for i, a := range t.args {
			refs[i] = s.ref(a)
		}
		s.defined[t.id] = true
		var e string
		switch t.op {
		case OExtract:
			e = fmt.Sprintf("((_ extract %d %d) %s)", t.val>>8, t.val&0xff, refs[0])
		case OZExt:
			e = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.args[0].w, refs[0])
		case OSExt:
			e = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, refs[0])
		default:
			e = "(" + opName[t.op] + " " + strings.Join(refs, " ") + ")"
		}
		fmt.Fprintf(s.in, "(define-fun t%d () %s %s)\n", t.id, sortName(t.w), e)
	}
	return fmt.Sprintf("t%d", t.id)
}

// sync makes the assertion stack equal to pc.
func (s *Solver) sync(pc []*Term) {
	i := 0
	for i < len(s.stack) && i < len(pc) && s.stack[i] == pc[i] {
		i++
	}
	if n := len(s.stack) - i; n > 0 {
		fmt.Fprintf(s.in, "(pop %d)\n", n)
		s.stack = s.stack[:i]
	}
	for ; i < len(pc); i++ {
		r := s.ref(pc[i])
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", r)
		s.stack = append(s.stack, pc[i])
	}
}

// check decides pc ∧ extra. With a model if sat and wantModel.
func (s *Solver) check(pc []*Term, extra *Term, vars []*Term) (Result, *Model) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.dur += d
		if d > s.maxDur {
			s.maxDur = d
		}
	}()
	s.queries++
	s.sync(pc)
	pushed := false
	if extra != nil && !extra.isTrue() {
		r := s.ref(extra)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", r)
		pushed = true
	}
	fmt.Fprintln(s.in, "(check-sat)")
	s.in.Flush()
	line := s.readLine()
	var res Result
	switch line {
	case "sat":
		res = Sat
		s.nsat++
	case "unsat":
		res = Unsat
		s.nunsat++
	case "unknown", "timeout":
		res = Unknown
		s.nunk++
	default:
		fatalf("solver %s: unexpected output %q", s.name, line)
	}
	var m *Model
	if res == Sat && vars != nil {
		m = newModel()
		for i := 0; i < len(vars); i += 500 {
			j := min(i+500, len(vars))
			fmt.Fprint(s.in, "(get-value (")
			n := 0
			for _, v := range vars[i:j] {
				if s.decl[v.name] {
					fmt.Fprintf(s.in, "%s ", quoteName(v.name))
					n++
				}
			}
			if n == 0 {
				fmt.Fprint(s.in, "true")
			}
			fmt.Fprintln(s.in, "))")
			s.in.Flush()
			s.parseValues(m)
		}
	}
	if pushed {
		fmt.Fprintln(s.in, "(pop 1)")
	}
	return res, m
}

func (s *Solver) readLine() string {
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			if err == io.EOF {
				fatalf("solver %s died", s.name)
			}
			fatalf("solver %s: %v", s.name, err)
		}
		line = strings.TrimSpace(line)
		if line == "" {
			continue
		}
		return line
	}
}

// parseValues reads one balanced s-expression ((|name| value) ...).
func (s *Solver) parseValues(m *Model) {
	var toks []string
	depth := 0
	started := false
	for !started || depth > 0 {
		c, err := s.out.ReadByte()
		if err != nil {
			fatalf("solver model: %v", err)
		}
		switch {
		case c == '(':
			depth++
			started = true
			toks = append(toks, "(")
		case c == ')':
			depth--
			toks = append(toks, ")")
		case c == '|':
			n, err := s.out.ReadString('|')
			if err != nil {
				fatalf("solver model: %v", err)
			}
			toks = append(toks, "|"+n)
		case c == ' ' || c == '\n' || c == '\r' || c == '\t':
		default:
			b := []byte{c}
			for {
				c, err = s.out.ReadByte()
				if err != nil {
					fatalf("solver model: %v", err)
				}
				if c == ' ' || c == '\n' || c == ')' || c == '(' {
					s.out.UnreadByte()
					break
				}
				b = append(b, c)
			}
			toks = append(toks, string(b))
		}
	}
	if len(toks) > 1 && toks[1] == "error" {
		fatalf("solver %s: %v", s.name, toks)
	}
	for i := 0; i+1 < len(toks); i++ {
		if toks[i] != "(" {
			continue
		}
		name := toks[i+1]
		if len(name) < 1 || name == "(" || name == "true" {
			continue
		}
		name = strings.Trim(name, "|")
		v := toks[i+2]
		var val uint64
		switch {
		case v == "true":
			val = 1
		case v == "false":
			val = 0
		case strings.HasPrefix(v, "#x"):
			fmt.Sscanf(v[2:], "%x", &val)
		case strings.HasPrefix(v, "#b"):
			fmt.Sscanf(v[2:], "%b", &val)
		case v == "(": // (_ bvN w)
			fmt.Sscanf(toks[i+4], "bv%d", &val)
		}
		m.vals[name] = val
		i += 2
	}
}
