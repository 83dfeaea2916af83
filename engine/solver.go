package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

func (r SatRes) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// Solver drives one SMT-LIB2 process. The assertion stack mirrors a list of
// terms: one push per asserted term.
type Solver struct {
	ctx     *TermCtx
	cmd     *exec.Cmd
	in      *bufio.Writer
	inp     io.WriteCloser
	out     *bufio.Reader
	stack   []*Term
	decl    map[*Term]bool
	args    []string
	dead    bool
	Queries int
	Time    time.Duration
	NSat    int
	NUnsat  int
	NUnk    int
	log     *os.File
	timeout int
}

func NewSolver(ctx *TermCtx, timeoutMs int) *Solver {
	s := &Solver{ctx: ctx, timeout: timeoutMs}
	s.start()
	return s
}

func (s *Solver) start() {
	s.decl = map[*Term]bool{}
	s.stack = nil
	s.dead = false
	s.cmd = exec.Command("z3-new", "-in", "-smt2", "-memory:3000")
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		s.dead = true
		return
	}
	s.inp = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	if p := os.Getenv("SYMGO_SMTLOG"); p != "" {
		s.log, _ = os.CreateTemp(p, "smt")
	}
	s.send("(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout))
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

func (s *Solver) send(x string) {
	if s.log != nil {
		s.log.WriteString(x)
	}
	s.in.WriteString(x)
}

func (s *Solver) define(t *Term) {
	if t.op == OConst || t.op == ORConst || s.decl[t] {
		return
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if s.decl[f.t] || f.t.op == OConst || f.t.op == ORConst {
			st = st[:len(st)-1]
			continue
		}
		var ch *Term
		switch f.i {
		case 0:
			ch = f.t.a
		case 1:
			ch = f.t.b
		case 2:
			ch = f.t.c
		}
		f.i++
		if f.i <= 3 {
			if ch != nil {
				st = append(st, fr{ch, 0})
			}
			continue
		}
		x := f.t
		s.decl[x] = true
		if x.op == OVar {
			if x.den > 0 {
				s.send(fmt.Sprintf("(declare-const |%s#i| Int)\n(define-fun %s () Real (/ (to_real |%s#i|) %d.0))\n", x.name, x.ref(), x.name, x.den))
			} else {
				s.send(fmt.Sprintf("(declare-const %s %s)\n", x.ref(), sortStr(x.w)))
			}
		} else {
			s.send(fmt.Sprintf("(define-fun t%d () %s %s)\n", x.id, sortStr(x.w), x.body()))
		}
		st = st[:len(st)-1]
	}
}

// Sync makes the assertion stack equal to pc.
func (s *Solver) Sync(pc []*Term) {
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if n < len(s.stack) {
		s.send(fmt.Sprintf("(pop %d)\n", len(s.stack)-n))
		s.stack = s.stack[:n]
	}
	for ; n < len(pc); n++ {
		s.define(pc[n])
		s.send("(push 1)\n(assert " + pc[n].ref() + ")\n")
		s.stack = append(s.stack, pc[n])
	}
}

func (s *Solver) readLine() (string, bool) {
	s.in.Flush()
	l, err := s.out.ReadString('\n')
	if err != nil {
		s.dead = true
		return "", false
	}
	return strings.TrimSpace(l), true
}

// Check decides pc ∧ extra. With a model wanted, it returns one when sat.
func (s *Solver) Check(pc []*Term, extra *Term, vars []*Term) (SatRes, *Model) {
	t0 := time.Now()
	s.Queries++
	defer func() { s.Time += time.Since(t0) }()
	for try := 0; try < 2; try++ {
		if s.dead {
			s.restart()
			if s.dead {
				s.NUnk++
				return Unknown, nil
			}
		}
		s.Sync(pc)
		if extra != nil {
			s.define(extra)
			s.send("(push 1)\n(assert " + extra.ref() + ")\n")
		}
		s.send("(check-sat)\n")
		l, ok := s.readLine()
		if !ok {
			continue
		}
		if strings.HasPrefix(l, "(error") {
			fmt.Fprintln(os.Stderr, "solver:", l)
			s.dead = true
			continue
		}
		var m *Model
		res := Unknown
		switch l {
		case "sat":
			res = Sat
			s.NSat++
			if vars != nil {
				m = s.getModel(vars)
				if m == nil {
					s.dead = true
				}
			}
		case "unsat":
			res = Unsat
			s.NUnsat++
		default:
			s.NUnk++
		}
		if extra != nil && !s.dead {
			s.send("(pop 1)\n")
		}
		return res, m
	}
	s.NUnk++
	return Unknown, nil
}

func (s *Solver) getModel(vars []*Term) *Model {
	m := &Model{bv: map[*Term]uint64{}, re: map[*Term]*big.Rat{}}
	const chunk = 200
	for i := 0; i < len(vars); i += chunk {
		var list []*Term
		for j := i; j < len(vars) && j < i+chunk; j++ {
			if s.decl[vars[j]] {
				list = append(list, vars[j])
			}
		}
		if len(list) == 0 {
			continue
		}
		var sb strings.Builder
		sb.WriteString("(get-value (")
		for _, v := range list {
			sb.WriteString(v.ref())
			sb.WriteByte(' ')
		}
		sb.WriteString("))\n")
		s.send(sb.String())
		s.in.Flush()
		sexp, ok := s.readSexp()
		if !ok || len(sexp.list) != len(list) {
			return nil
		}
		for j, e := range sexp.list {
			if len(e.list) != 2 {
				return nil
			}
			v := e.list[1]
			if list[j].w == wReal {
				m.re[list[j]] = parseReal(v)
			} else {
				m.bv[list[j]] = parseBV(v)
			}
		}
	}
	return m
}

type sexp struct {
	atom string
	list []*sexp
	isL  bool
}

func (s *Solver) readSexp() (*sexp, bool) {
	var cur []*sexp
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			s.dead = true
			return nil, false
		}
		switch {
		case c == '(':
			cur = append(cur, &sexp{isL: true})
		case c == ')':
			if len(cur) == 0 {
				return nil, false
			}
			top := cur[len(cur)-1]
			cur = cur[:len(cur)-1]
			if len(cur) == 0 {
				// eat rest of line
				s.out.ReadString('\n')
				if len(top.list) > 0 && top.list[0].atom == "error" {
					return nil, false
				}
				return top, true
			}
			cur[len(cur)-1].list = append(cur[len(cur)-1].list, top)
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
		case c == '|':
			var sb strings.Builder
			for {
				c, err = s.out.ReadByte()
				if err != nil || c == '|' {
					break
				}
				sb.WriteByte(c)
			}
			cur[len(cur)-1].list = append(cur[len(cur)-1].list, &sexp{atom: sb.String()})
		default:
			var sb strings.Builder
			for {
				sb.WriteByte(c)
				c, err = s.out.ReadByte()
				if err != nil {
					s.dead = true
					return nil, false
				}
				if c == ' ' || c == ')' || c == '(' || c == '\n' {
					s.out.UnreadByte()
					break
				}
			}
			if len(cur) == 0 {
				return nil, false
			}
			cur[len(cur)-1].list = append(cur[len(cur)-1].list, &sexp{atom: sb.String()})
		}
	}
}

func parseBV(e *sexp) uint64 {
	a := e.atom
	var v uint64
	switch {
	case a == "true":
		return 1
	case a == "false":
		return 0
	case strings.HasPrefix(a, "#x"):
		fmt.Sscanf(a[2:], "%x", &v)
	case strings.HasPrefix(a, "#b"):
		for _, ch := range a[2:] {
			v = v<<1 | uint64(ch-'0')
		}
	default:
		if e.isL && len(e.list) == 3 && strings.HasPrefix(e.list[1].atom, "bv") {
			fmt.Sscanf(e.list[1].atom[2:], "%d", &v)
		}
	}
	return v
}

func parseReal(e *sexp) *big.Rat {
	if !e.isL {
		r := new(big.Rat)
		if _, ok := r.SetString(e.atom); ok {
			return r
		}
		return new(big.Rat)
	}
	if len(e.list) == 2 && e.list[0].atom == "-" {
		return new(big.Rat).Neg(parseReal(e.list[1]))
	}
	if len(e.list) == 3 && e.list[0].atom == "/" {
		d := parseReal(e.list[2])
		if d.Sign() == 0 {
			return d
		}
		return new(big.Rat).Quo(parseReal(e.list[1]), d)
	}
	return new(big.Rat)
}
