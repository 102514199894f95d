package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

// PC is a persistent path condition.
type PC struct {
	parent  *PC
	cond    *Expr
	implied bool // follows from its parents; not sent to the solver
	depth   int  // number of non-implied conditions up to here
}

type Sat int

const (
	Unsat Sat = iota
	SatYes
	Unknown
)

type SolverStats struct {
	Queries, SatN, UnsatN, UnknownN int64
	Time                            time.Duration
}

// Solver drives one z3 process incrementally.
type Solver struct {
	x       *Ctx
	bin     string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	stack   []*PC
	gen     uint32
	nDef    int
	nvars   int
	varw    []uint8
	sb      strings.Builder
	Stats   SolverStats
	timeout int
}

func NewSolver(x *Ctx, bin string) *Solver {
	return &Solver{x: x, bin: bin, timeout: 20000}
}

func (s *Solver) start() {
	args := []string{"-in", "-smt2"}
	head := fmt.Sprintf("(set-option :timeout %d)\n", s.timeout)
	if strings.Contains(filepath.Base(s.bin), "cvc5") {
		args = []string{"--lang=smt2", "--incremental", "--produce-models", fmt.Sprintf("--tlimit-per=%d", s.timeout)}
		head = "(set-logic QF_BV)\n"
	}
	s.cmd = exec.Command(s.bin, args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		fatal("solver: %v", err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		fatal("solver: %v", err)
	}
	if err := s.cmd.Start(); err != nil {
		fatal("solver: %v", err)
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.gen++
	s.nDef, s.nvars, s.stack = 0, 0, s.stack[:0]
	s.sb.WriteString("(set-option :global-declarations true)\n" + head)
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// define emits define-funs for large sub-terms so that shared structure stays shared.
func (s *Solver) define(e *Expr) {
	if e == nil || e.size <= 24 || e.defined == s.gen {
		return
	}
	s.define(e.a)
	s.define(e.b)
	s.define(e.d)
	fmt.Fprintf(&s.sb, "(define-fun e%d () %s ", e.id, sortOf(e.w))
	e.smtBody(&s.sb, s.name)
	s.sb.WriteString(")\n")
	e.defined = s.gen
	s.nDef++
}
func (s *Solver) name(e *Expr) (string, bool) {
	if e.defined == s.gen {
		return "e" + strconv.Itoa(int(e.id)), true
	}
	return "", false
}
func (s *Solver) assert(e *Expr) {
	s.define(e)
	s.sb.WriteString("(assert ")
	e.smt(&s.sb, s.name)
	s.sb.WriteString(")\n")
}

func (s *Solver) sync(pc *PC) {
	// path from root
	var chain []*PC
	for p := pc; p != nil; p = p.parent {
		if !p.implied {
			chain = append(chain, p)
		}
	}
	for i, j := 0, len(chain)-1; i < j; i, j = i+1, j-1 {
		chain[i], chain[j] = chain[j], chain[i]
	}
	n := 0
	for n < len(chain) && n < len(s.stack) && s.stack[n] == chain[n] {
		n++
	}
	if k := len(s.stack) - n; k > 0 {
		fmt.Fprintf(&s.sb, "(pop %d)\n", k)
		s.stack = s.stack[:n]
	}
	for ; n < len(chain); n++ {
		s.sb.WriteString("(push 1)\n")
		s.assert(chain[n].cond)
		s.stack = append(s.stack, chain[n])
	}
}

// Check decides pc AND extra. On SatYes a model of the first nv variables is returned.
func (s *Solver) Check(pc *PC, extra *Expr, nv int) (Sat, Model) {
	t0 := time.Now()
	defer func() { s.Stats.Time += time.Since(t0) }()
	s.Stats.Queries++
	if s.cmd == nil || s.nDef > 100000 {
		s.Close()
		s.start()
	}
	for s.nvars < len(s.x.vars) {
		v := s.x.vars[s.nvars]
		fmt.Fprintf(&s.sb, "(declare-const v%d %s)\n", s.nvars, sortOf(v.w))
		s.nvars++
	}
	s.sync(pc)
	if extra != nil {
		s.sb.WriteString("(push 1)\n")
		s.assert(extra)
	}
	s.sb.WriteString("(check-sat)\n")
	s.flush()
	line := s.readLine()
	res := Unknown
	var m Model
	switch line {
	case "sat":
		res = SatYes
		s.Stats.SatN++
		if nv > 0 {
			s.sb.WriteString("(get-value (")
			for i := 0; i < nv; i++ {
				fmt.Fprintf(&s.sb, "v%d ", i)
			}
			s.sb.WriteString("))\n")
			s.flush()
			m = s.readModel(nv)
		} else {
			m = Model{}
		}
	case "unsat":
		res = Unsat
		s.Stats.UnsatN++
	case "unknown", "timeout":
		s.Stats.UnknownN++
	default:
		fatal("solver said %q", line)
	}
	if extra != nil {
		s.sb.WriteString("(pop 1)\n")
	}
	return res, m
}

func (s *Solver) flush() {
	if _, err := io.WriteString(s.in, s.sb.String()); err != nil {
		fatal("solver write: %v", err)
	}
	s.sb.Reset()
}
func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		fatal("solver read: %v", err)
	}
	return strings.TrimSpace(l)
}

func (s *Solver) readModel(nv int) Model {
	m := make(Model, nv)
	depth := 0
	// tokens: ((v0 #x61) (v1 #b1) ... )
	var tok []byte
	cur := -1
	flushTok := func() {
		if len(tok) == 0 {
			return
		}
		t := string(tok)
		tok = tok[:0]
		switch {
		case t[0] == 'v':
			cur, _ = strconv.Atoi(t[1:])
		case strings.HasPrefix(t, "#x"):
			v, _ := strconv.ParseUint(t[2:], 16, 64)
			m[cur] = v
		case strings.HasPrefix(t, "#b"):
			v, _ := strconv.ParseUint(t[2:], 2, 64)
			m[cur] = v
		case t == "true":
			m[cur] = 1
		case t == "false":
			m[cur] = 0
		default:
			fatal("model token %q", t)
		}
	}
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			fatal("solver read: %v", err)
		}
		switch c {
		case '(':
			flushTok()
			depth++
		case ')':
			flushTok()
			depth--
			if depth == 0 {
				s.readLine()
				return m
			}
		case ' ', '\n', '\t', '\r':
			flushTok()
		default:
			tok = append(tok, c)
		}
	}
}
