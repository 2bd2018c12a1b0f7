package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// SolverStats counts solver work.
type SolverStats struct {
	Queries, Sat, Unsat, Unknown, Restarts int64
	Time                                   time.Duration
}

// Solver is one persistent incremental SMT process.
type Solver struct {
	bin     string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inPipe  io.WriteCloser
	out     *bufio.Reader
	sent    map[*Term]bool // terms defined in the current path scope
	asserts []*Term
	nsent   int
	inPath  bool
	stats   SolverStats
	timeout int
	dead    bool
	pool    *Pool
	lastErr string
}

func newSolver(bin string, timeoutMs int) *Solver {
	s := &Solver{bin: bin, timeout: timeoutMs}
	s.start()
	return s
}

func (s *Solver) start() {
	args := []string{"-in", "-smt2"}
	s.cmd = exec.Command(s.bin, args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inPipe = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.dead = false
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :timeout %d)\n", s.timeout)
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

// beginPath opens a fresh scope for a path with its own term pool.
func (s *Solver) beginPath(p *Pool) {
	if s.dead {
		s.close()
		s.start()
		s.stats.Restarts++
		s.inPath = false
	}
	if s.inPath {
		fmt.Fprintf(s.in, "(pop 1)\n")
	}
	fmt.Fprintf(s.in, "(push 1)\n")
	s.inPath = true
	s.sent = map[*Term]bool{}
	s.asserts = s.asserts[:0]
	s.nsent = 0
	s.pool = p
}

// assume adds a path constraint (sent lazily).
func (s *Solver) assume(t *Term) { s.asserts = append(s.asserts, t) }

func (s *Solver) define(t *Term) {
	if t.op == OConst || s.sent[t] {
		return
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.i < len(f.t.args) {
			a := f.t.args[f.i]
			f.i++
			if a.op != OConst && !s.sent[a] {
				st = append(st, fr{a, 0})
			}
			continue
		}
		if !s.sent[f.t] {
			s.sent[f.t] = true
			if f.t.op == OVar {
				fmt.Fprintf(s.in, "(declare-const |%s| %s)\n", f.t.name, smtSort(f.t.w))
			} else {
				fmt.Fprintf(s.in, "(define-fun t!%d () %s %s)\n", f.t.id, smtSort(f.t.w), body(f.t))
			}
		}
		st = st[:len(st)-1]
	}
}

func (s *Solver) flushAsserts() {
	for s.nsent < len(s.asserts) {
		a := s.asserts[s.nsent]
		s.define(a)
		fmt.Fprintf(s.in, "(assert %s)\n", ref(a))
		s.nsent++
	}
}

type Sat int

const (
	SatYes Sat = iota
	SatNo
	SatUnknown
)

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// check decides PC and extra; with wantModel a model is returned when satisfiable.
func (s *Solver) check(extra *Term, wantModel bool) (Sat, *Model) {
	if s.dead {
		return SatUnknown, nil
	}
	t0 := time.Now()
	defer func() { s.stats.Time += time.Since(t0) }()
	s.stats.Queries++
	s.flushAsserts()
	if extra != nil {
		s.define(extra)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", ref(extra))
	}
	fmt.Fprintf(s.in, "(check-sat)\n")
	if s.in.Flush() != nil {
		s.dead = true
		s.stats.Unknown++
		return SatUnknown, nil
	}
	res := SatUnknown
	for {
		l, err := s.readLine()
		if err != nil {
			s.dead = true
			s.stats.Unknown++
			return SatUnknown, nil
		}
		if l == "" {
			continue
		}
		if l == "sat" {
			res = SatYes
			break
		}
		if l == "unsat" {
			res = SatNo
			break
		}
		if l == "unknown" || l == "timeout" {
			break
		}
		if strings.HasPrefix(l, "(error") {
			// an error line makes every answer of this process inconclusive
			s.lastErr = l
			s.dead = true
			s.stats.Unknown++
			return SatUnknown, nil
		}
	}
	var m *Model
	switch res {
	case SatYes:
		s.stats.Sat++
		if wantModel {
			m = s.getModel()
			if m == nil {
				s.dead = true
				return SatYes, nil
			}
		}
	case SatNo:
		s.stats.Unsat++
	default:
		s.stats.Unknown++
	}
	if extra != nil {
		fmt.Fprintf(s.in, "(pop 1)\n")
	}
	return res, m
}

func (s *Solver) getModel() *Model {
	m := &Model{v: map[string]uint64{}, wide: map[string][]byte{}}
	var vs []*Term
	for _, v := range s.pool.vars {
		if s.sent[v] && v.w >= 0 {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return m
	}
	fmt.Fprintf(s.in, "(get-value (")
	for _, v := range vs {
		fmt.Fprintf(s.in, "|%s| ", v.name)
	}
	fmt.Fprintf(s.in, "))\n")
	if s.in.Flush() != nil {
		return nil
	}
	depth := 0
	var sb strings.Builder
	started := false
	inBar := false
	for !started || depth > 0 {
		c, err := s.out.ReadByte()
		if err != nil {
			return nil
		}
		if c == '|' {
			inBar = !inBar
		}
		if !inBar {
			if c == '(' {
				depth++
				started = true
			}
			if c == ')' {
				depth--
			}
		}
		sb.WriteByte(c)
	}
	txt := sb.String()
	if strings.HasPrefix(txt, "(error") {
		s.lastErr = txt
		return nil
	}
	// tokenise ((|a| #x00) (|b| true) ...)
	i := 0
	for i < len(txt) {
		if txt[i] == '(' || txt[i] == ')' || txt[i] == ' ' || txt[i] == '\n' {
			i++
			continue
		}
		var name string
		if txt[i] == '|' {
			j := strings.IndexByte(txt[i+1:], '|')
			name = txt[i+1 : i+1+j]
			i += j + 2
		} else {
			j := i
			for j < len(txt) && txt[j] != ' ' && txt[j] != '\n' && txt[j] != ')' {
				j++
			}
			name = txt[i:j]
			i = j
		}
		for txt[i] == ' ' || txt[i] == '\n' {
			i++
		}
		j := i
		for txt[j] != ')' && txt[j] != ' ' && txt[j] != '\n' {
			j++
		}
		val := txt[i:j]
		i = j
		v, ok := s.pool.varsBy[name]
		if !ok {
			continue
		}
		switch {
		case val == "true":
			m.v[name] = 1
		case val == "false":
			m.v[name] = 0
		case strings.HasPrefix(val, "#x"):
			if v.w > 64 {
				h := val[2:]
				if len(h)%2 == 1 {
					h = "0" + h
				}
				b := make([]byte, len(h)/2)
				for k := range b {
					x, _ := strconv.ParseUint(h[2*k:2*k+2], 16, 8)
					b[k] = byte(x)
				}
				m.wide[name] = b
			} else {
				x, err := strconv.ParseUint(val[2:], 16, 64)
				if err != nil {
					return nil
				}
				m.v[name] = x
			}
		case strings.HasPrefix(val, "#b"):
			x, err := strconv.ParseUint(val[2:], 2, 64)
			if err != nil {
				return nil
			}
			m.v[name] = x
		default:
			return nil
		}
	}
	return m
}
