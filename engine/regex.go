package main

import (
	"regexp"
	"regexp/syntax"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// symRegex runs Go's leftmost-first backtracking semantics over a string with symbolic bytes.
type symRegex struct {
	in   *Interp
	prog *syntax.Prog
	s    Str
	vis  map[[2]int]bool
	cap  []int
}

func compileProg(in *Interp, re *regexp.Regexp) *syntax.Prog {
	r, err := syntax.Parse(re.String(), syntax.Perl)
	if err != nil {
		in.unsupported("regexp %s", re)
	}
	p, err := syntax.Compile(r.Simplify())
	if err != nil {
		in.unsupported("regexp %s", re)
	}
	return p
}

func (m *symRegex) runeAt(p int) (*Term, int) {
	if p >= m.s.Len() {
		return nil, 0
	}
	return m.in.decodeRune(m.s, p)
}

func (m *symRegex) matchRune(i *syntax.Inst, r *Term) bool {
	P := m.in.pool
	if r.isConst() {
		return i.MatchRune(rune(int32(r.val)))
	}
	rs := i.Rune
	if i.Op == syntax.InstRuneAny {
		return true
	}
	if i.Op == syntax.InstRuneAnyNotNL {
		return !m.in.branch(P.Eq(r, mkConst(32, '\n')))
	}
	eqr := func(c rune) *Term { return P.Eq(r, mkConst(32, uint64(uint32(c)))) }
	if len(rs) == 1 {
		c := eqr(rs[0])
		if syntax.Flags(i.Arg)&syntax.FoldCase != 0 {
			for f := unicode.SimpleFold(rs[0]); f != rs[0]; f = unicode.SimpleFold(f) {
				c = P.Or(c, eqr(f))
			}
		}
		return m.in.branch(c)
	}
	var cs []*Term
	for k := 0; k+1 < len(rs); k += 2 {
		lo, hi := rs[k], rs[k+1]
		if lo == hi {
			cs = append(cs, eqr(lo))
			continue
		}
		c := P.And(P.Not(P.Bin(OULt, r, mkConst(32, uint64(uint32(lo))))), P.Not(P.Bin(OULt, mkConst(32, uint64(uint32(hi))), r)))
		cs = append(cs, c)
	}
	return m.in.branch(P.Or(cs...))
}

func (m *symRegex) isByte(p int, want byte) bool {
	return m.in.branch(m.in.pool.Eq(m.s.At(p), mkByte(want)))
}

func (m *symRegex) isWord(p int) bool {
	if p < 0 || p >= m.s.Len() {
		return false
	}
	return m.in.branch(m.in.alphabet(m.s.At(p), "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"))
}

func (m *symRegex) empty(op syntax.EmptyOp, p int) bool {
	n := m.s.Len()
	if op&syntax.EmptyBeginText != 0 && p != 0 {
		return false
	}
	if op&syntax.EmptyEndText != 0 && p != n {
		return false
	}
	if op&syntax.EmptyBeginLine != 0 && p != 0 && !m.isByte(p-1, '\n') {
		return false
	}
	if op&syntax.EmptyEndLine != 0 && p != n && !m.isByte(p, '\n') {
		return false
	}
	if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
		b := m.isWord(p-1) != m.isWord(p)
		if op&syntax.EmptyWordBoundary != 0 && !b {
			return false
		}
		if op&syntax.EmptyNoWordBoundary != 0 && b {
			return false
		}
	}
	return true
}

func (m *symRegex) run(pc, p int) bool {
	for {
		k := [2]int{pc, p}
		if m.vis[k] {
			return false
		}
		m.vis[k] = true
		i := &m.prog.Inst[pc]
		switch i.Op {
		case syntax.InstFail:
			return false
		case syntax.InstMatch:
			m.cap[1] = p
			return true
		case syntax.InstNop:
			pc = int(i.Out)
		case syntax.InstAlt, syntax.InstAltMatch:
			if m.run(int(i.Out), p) {
				return true
			}
			pc = int(i.Arg)
		case syntax.InstCapture:
			if int(i.Arg) < len(m.cap) {
				old := m.cap[i.Arg]
				m.cap[i.Arg] = p
				if m.run(int(i.Out), p) {
					return true
				}
				m.cap[i.Arg] = old
				return false
			}
			pc = int(i.Out)
		case syntax.InstEmptyWidth:
			if !m.empty(syntax.EmptyOp(i.Arg), p) {
				return false
			}
			pc = int(i.Out)
		default:
			r, n := m.runeAt(p)
			if r == nil {
				return false
			}
			if !m.matchRune(i, r) {
				return false
			}
			p += n
			pc = int(i.Out)
		}
	}
}

// find gives the capture positions of the leftmost match at or after pos, or nil.
func (m *symRegex) find(pos int) []int {
	m.vis = map[[2]int]bool{}
	for p := pos; p <= m.s.Len(); {
		m.cap = make([]int, m.prog.NumCap)
		if len(m.cap) < 2 {
			m.cap = make([]int, 2)
		}
		for i := range m.cap {
			m.cap[i] = -1
		}
		m.cap[0] = p
		if m.run(m.prog.Start, p) {
			m.cap[0] = p
			return m.cap
		}
		if p >= m.s.Len() {
			break
		}
		_, n := m.runeAt(p)
		p += n
	}
	return nil
}

func (in *Interp) reFind(re *regexp.Regexp, s Str, pos int, m *symRegex) []int {
	return m.find(pos)
}

func (in *Interp) reAll(re *regexp.Regexp, s Str, n int) [][]int {
	if s.sym == nil {
		return re.FindAllStringSubmatchIndex(s.s, n)
	}
	m := &symRegex{in: in, prog: compileProg(in, re), s: s}
	var out [][]int
	prevEnd := -1
	for pos := 0; pos <= s.Len() && (n < 0 || len(out) < n); {
		c := m.find(pos)
		if c == nil {
			break
		}
		accept := true
		if c[1] == pos {
			if c[0] == prevEnd {
				accept = false
			}
			if pos < s.Len() {
				_, w := in.decodeRune(s, pos)
				pos += w
			} else {
				pos = s.Len() + 1
			}
		} else {
			pos = c[1]
		}
		prevEnd = c[1]
		if accept {
			k := make([]int, 2*(1+re.NumSubexp()))
			for i := range k {
				k[i] = -1
				if i < len(c) {
					k[i] = c[i]
				}
			}
			out = append(out, k)
		}
	}
	return out
}

func (in *Interp) reOne(re *regexp.Regexp, s Str) []int {
	if s.sym == nil {
		return re.FindStringSubmatchIndex(s.s)
	}
	l := in.reAll(re, s, 1)
	if len(l) == 0 {
		return nil
	}
	return l[0]
}

func regexOf(in *Interp, v Value) *regexp.Regexp {
	p, ok := v.(Ptr)
	if ok && p == nil {
		in.tpanic("runtime error: nil regexp")
	}
	if ok {
		if n, ok := (*p).(*Native); ok {
			return n.x.(*regexp.Regexp)
		}
	}
	in.unsupported("regexp object")
	return nil
}

func capsToStrs(s Str, c []int) Slice {
	out := make(Slice, len(c)/2)
	for i := range out {
		out[i] = Str{}
		if c[2*i] >= 0 {
			out[i] = s.Slice(c[2*i], c[2*i+1])
		}
	}
	return out
}

func intsToSlice(c []int) Value {
	if c == nil {
		return Slice(nil)
	}
	out := make(Slice, len(c))
	for i, x := range c {
		out[i] = mkInt(int64(x))
	}
	return out
}

func regexIntrinsics() {
	I := intrinsics
	def := func(name string, f func(in *Interp, re *regexp.Regexp, s Str, a []Value) Value) {
		I["(*regexp.Regexp)."+name] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
			re := regexOf(in, a[0])
			return f(in, re, a[1].(Str), a), true
		}
	}
	ni := func(in *Interp, v Value) int { return int(in.concInt(v.(*Term), "regexp n")) }
	def("FindAllStringSubmatch", func(in *Interp, re *regexp.Regexp, s Str, a []Value) Value {
		l := in.reAll(re, s, ni(in, a[2]))
		if l == nil {
			return Slice(nil)
		}
		out := make(Slice, len(l))
		for i, c := range l {
			out[i] = capsToStrs(s, c)
		}
		return out
	})
	def("FindAllString", func(in *Interp, re *regexp.Regexp, s Str, a []Value) Value {
		l := in.reAll(re, s, ni(in, a[2]))
		if l == nil {
			return Slice(nil)
		}
		out := make(Slice, len(l))
		for i, c := range l {
			out[i] = s.Slice(c[0], c[1])
		}
		return out
	})
	def("FindAllStringIndex", func(in *Interp, re *regexp.Regexp, s Str, a []Value) Value {
		l := in.reAll(re, s, ni(in, a[2]))
		if l == nil {
			return Slice(nil)
		}
		out := make(Slice, len(l))
		for i, c := range l {
			out[i] = intsToSlice(c[:2])
		}
		return out
	})
	def("FindStringSubmatch", func(in *Interp, re *regexp.Regexp, s Str, a []Value) Value {
		c := in.reOne(re, s)
		if c == nil {
			return Slice(nil)
		}
		return capsToStrs(s, c)
	})
	def("FindStringSubmatchIndex", func(in *Interp, re *regexp.Regexp, s Str, a []Value) Value {
		return intsToSlice(in.reOne(re, s))
	})
	def("FindStringIndex", func(in *Interp, re *regexp.Regexp, s Str, a []Value) Value {
		c := in.reOne(re, s)
		if c == nil {
			return Slice(nil)
		}
		return intsToSlice(c[:2])
	})
	def("FindString", func(in *Interp, re *regexp.Regexp, s Str, a []Value) Value {
		c := in.reOne(re, s)
		if c == nil {
			return Str{}
		}
		return s.Slice(c[0], c[1])
	})
	def("MatchString", func(in *Interp, re *regexp.Regexp, s Str, a []Value) Value {
		return mkBool(in.reOne(re, s) != nil)
	})
	def("ReplaceAllString", func(in *Interp, re *regexp.Regexp, s Str, a []Value) Value {
		repl, ok := concStr(a[2])
		if !ok || (s.sym != nil && containsDollar(repl)) {
			in.unsupported("regexp replacement")
		}
		if s.sym == nil {
			return Str{s: re.ReplaceAllString(s.s, repl)}
		}
		out := Str{}
		p := 0
		for _, c := range in.reAll(re, s, -1) {
			out = out.Concat(s.Slice(p, c[0])).Concat(Str{s: repl})
			p = c[1]
		}
		return out.Concat(s.Slice(p, s.Len()))
	})
	def("Split", func(in *Interp, re *regexp.Regexp, s Str, a []Value) Value {
		if s.sym != nil {
			in.unsupported("regexp split on a symbolic string")
		}
		l := re.Split(s.s, ni(in, a[2]))
		if l == nil {
			return Slice(nil)
		}
		return strSlice(l)
	})
	I["(*regexp.Regexp).String"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		return Str{s: regexOf(in, a[0]).String()}, true
	}
	I["regexp.MatchString"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		re, err := regexp.Compile(mustStr(in, a[0]))
		if err != nil {
			return Tuple{termFalse, in.newErr(Str{s: err.Error()})}, true
		}
		return Tuple{mkBool(in.reOne(re, a[1].(Str)) != nil), Iface{}}, true
	}
}

func containsDollar(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == '$' {
			return true
		}
	}
	return false
}

var _ = utf8.RuneError
