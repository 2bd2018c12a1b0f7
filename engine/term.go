package main

import (
	"fmt"
	"math/bits"
	"strconv"
	"strings"
)

// Op is a term operator.
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OULt
	OULe
	OSLt
	OSLe
	OConcat
	OExtract // val = lo ; w = width
	OZExt
	OSExt
	OHex // hexadecimal digit of a nibble; lo = 1: upper case
	// real arithmetic (only used by the group-algebra model)
	ORAdd
	ORSub
	ORMul
	ORDiv
)

var opName = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg",
	OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OULt: "bvult", OULe: "bvule", OSLt: "bvslt", OSLe: "bvsle", OConcat: "concat",
	ORAdd: "+", ORSub: "-", ORMul: "*", ORDiv: "/"}

// widths: 0 = Bool, -1 = Real, >0 = bit-vector
const wBool = 0
const wReal = -1

// Term is an SMT term. Constants carry val (bit-vectors of at most 64 bits, Bool 0/1, small Reals).
type Term struct {
	op   Op
	w    int16
	lo   int16
	id   int32
	val  uint64
	args []*Term
	name string
}

var smallConst [65][]*Term
var termTrue, termFalse *Term

func init() {
	for w := 0; w <= 64; w++ {
		n := 256
		if w < 8 {
			n = 1 << uint(w)
			if w == 0 {
				n = 2
			}
		}
		smallConst[w] = make([]*Term, n)
		for i := range smallConst[w] {
			smallConst[w][i] = &Term{op: OConst, w: int16(w), val: uint64(i), id: -1}
		}
	}
	termFalse = smallConst[0][0]
	termTrue = smallConst[0][1]
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func mkConst(w int, v uint64) *Term {
	if w > 0 {
		v &= mask(w)
	}
	if v < uint64(len(smallConst[w])) {
		return smallConst[w][v]
	}
	return &Term{op: OConst, w: int16(w), val: v, id: -1}
}

func mkBool(b bool) *Term {
	if b {
		return termTrue
	}
	return termFalse
}

func mkByte(b byte) *Term { return smallConst[8][b] }
func mkInt(v int64) *Term { return mkConst(64, uint64(v)) }

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.val == 0 }
func (t *Term) sval() int64   { return signed(t.val, int(t.w)) }

func signed(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	if v&(1<<uint(w-1)) != 0 {
		return int64(v | ^mask(w))
	}
	return int64(v)
}

type termKey struct {
	op         Op
	w, lo      int16
	a, b, c    *Term
	ca, cb, cc uint64 // constant argument values (constants are not consed)
	wa, wb     int16
}

// Pool hash-conses the non-constant terms of one path.
type Pool struct {
	tab    map[termKey]*Term
	nary   map[string]*Term
	terms  []*Term
	vars   []*Term
	varsBy map[string]*Term
	// hash outputs: comparing two complete outputs compares the inputs
	hashIn   map[*Term]*hashRef
	concHash map[string]*hashRef
	decOf    map[*Term]decRef
	decs     []*decNum
	prefixOf map[*Term]decRef // the value of the digits up to idx
	noHorner bool
	ranges   map[*Term]ival
	loose    bool // an output is used in another way, the axioms are needed
}

// decRef is one decimal digit of an integer term.
type decRef struct {
	d   *decNum
	idx int
}

// decNum is a decimal rendering: the digits are variables whose definition is only sent
// to the solver when a digit is used on its own.
type decNum struct {
	t      *Term
	ds     []*Term
	axioms []*Term
	loose  bool
	sent   bool
}

type hashRef struct {
	alg string
	in  []*Term
}

func newPool() *Pool {
	return &Pool{prefixOf: map[*Term]decRef{}, decOf: map[*Term]decRef{}, ranges: map[*Term]ival{}, hashIn: map[*Term]*hashRef{}, concHash: map[string]*hashRef{}, tab: map[termKey]*Term{}, nary: map[string]*Term{}, varsBy: map[string]*Term{}}
}

func (p *Pool) add(t *Term) *Term {
	t.id = int32(len(p.terms))
	p.terms = append(p.terms, t)
	return t
}

func (p *Pool) Var(name string, w int) *Term {
	if t, ok := p.varsBy[name]; ok {
		return t
	}
	t := p.add(&Term{op: OVar, w: int16(w), name: name})
	p.vars = append(p.vars, t)
	p.varsBy[name] = t
	return t
}

func (p *Pool) mk(op Op, w int, lo int, args ...*Term) *Term {
	k := termKey{op: op, w: int16(w), lo: int16(lo)}
	for i, a := range args {
		isC := a.op == OConst
		switch i {
		case 0:
			if isC {
				k.ca = a.val
				k.wa = a.w + 100
			} else {
				k.a = a
			}
		case 1:
			if isC {
				k.cb = a.val
				k.wb = a.w + 100
			} else {
				k.b = a
			}
		case 2:
			if isC {
				k.cc = a.val
			} else {
				k.c = a
			}
		}
	}
	if len(p.decOf) > 0 {
		for _, a := range args {
			if a.op == OVar && a.w == 8 {
				if r, ok := p.decOf[a]; ok {
					r.d.loose = true
				}
			}
		}
	}
	if op != OExtract && op != OHex && !p.loose && len(p.hashIn) > 0 {
		for _, a := range args {
			if p.hashBits(a) {
				p.loose = true
			}
		}
	}
	if len(args) <= 3 {
		if t, ok := p.tab[k]; ok {
			return t
		}
		cp := make([]*Term, len(args))
		copy(cp, args)
		t := p.add(&Term{op: op, w: int16(w), lo: int16(lo), args: cp})
		p.tab[k] = t
		return t
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d/%d/%d", op, w, lo)
	for _, a := range args {
		if a.op == OConst {
			fmt.Fprintf(&sb, ",c%d:%d", a.w, a.val)
		} else {
			fmt.Fprintf(&sb, ",%d", a.id)
		}
	}
	s := sb.String()
	if t, ok := p.nary[s]; ok {
		return t
	}
	cp := make([]*Term, len(args))
	copy(cp, args)
	t := p.add(&Term{op: op, w: int16(w), lo: int16(lo), args: cp})
	p.nary[s] = t
	return t
}

func (p *Pool) hashBits(a *Term) bool {
	for a.op == OExtract || a.op == OHex {
		a = a.args[0]
	}
	return a.op == OVar && a.w > 64 && p.hashIn[a] != nil
}

// Hex is the hexadecimal digit of a nibble.
func (p *Pool) Hex(n *Term, upper bool) *Term {
	if n.isConst() {
		return mkByte(hexDigit(n.val, upper))
	}
	lo := 0
	if upper {
		lo = 1
	}
	return p.mk(OHex, 8, lo, n)
}

func hexDigit(v uint64, upper bool) byte {
	if upper {
		return "0123456789ABCDEF"[v&15]
	}
	return "0123456789abcdef"[v&15]
}

func unhex(b uint64, upper bool) (uint64, bool) {
	switch {
	case b >= '0' && b <= '9':
		return b - '0', true
	case !upper && b >= 'a' && b <= 'f':
		return b - 'a' + 10, true
	case upper && b >= 'A' && b <= 'F':
		return b - 'A' + 10, true
	}
	return 0, false
}

// hashRun recognises a complete hash output at bs[i:].
func (p *Pool) hashRun(bs []*Term, i int) (*hashRef, int) {
	t := bs[i]
	if t.op == OExtract && t.w == 8 {
		v := t.args[0]
		if r := p.hashIn[v]; r != nil && int(t.lo) == int(v.w)-8 {
			n := int(v.w) / 8
			if i+n > len(bs) {
				return nil, 0
			}
			for k := 1; k < n; k++ {
				if !adjacent(bs[i+k-1], bs[i+k]) {
					return nil, 0
				}
			}
			return r, n
		}
		return nil, 0
	}
	if t.isConst() && len(p.concHash) > 0 {
		for _, n := range []int{64, 32, 16} {
			if i+n > len(bs) {
				continue
			}
			if b, ok := termsConcrete(bs[i : i+n]); ok {
				if r := p.concHash[string(b)]; r != nil {
					return r, n
				}
			}
		}
	}
	return nil, 0
}

func same(a, b *Term) bool {
	if a == b {
		return true
	}
	return a.op == OConst && b.op == OConst && a.w == b.w && a.val == b.val
}

// ---- boolean ----

func (p *Pool) Not(a *Term) *Term {
	if a.isConst() {
		return mkBool(a.val == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	return p.mk(ONot, 0, 0, a)
}

func (p *Pool) And(as ...*Term) *Term {
	out := make([]*Term, 0, len(as))
	seen := map[*Term]bool{}
	for _, a := range as {
		if a.isTrue() {
			continue
		}
		if a.isFalse() {
			return termFalse
		}
		if a.op == OAnd {
			for _, x := range a.args {
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
			continue
		}
		if !seen[a] {
			seen[a] = true
			out = append(out, a)
		}
	}
	for _, a := range out {
		if a.op == ONot && seen[a.args[0]] {
			return termFalse
		}
	}
	switch len(out) {
	case 0:
		return termTrue
	case 1:
		return out[0]
	}
	return p.mk(OAnd, 0, 0, out...)
}

func (p *Pool) Or(as ...*Term) *Term {
	neg := make([]*Term, len(as))
	for i, a := range as {
		if a.isTrue() {
			return termTrue
		}
		neg[i] = p.Not(a)
	}
	return p.Not(p.And(neg...))
}

func (p *Pool) Ite(c, a, b *Term) *Term {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if same(a, b) {
		return a
	}
	if a.w == 0 {
		if a.isConst() && b.isConst() {
			if a.isTrue() {
				return c
			}
			return p.Not(c)
		}
		return p.And(p.Or(p.Not(c), a), p.Or(c, b))
	}
	if c.op == ONot {
		return p.mk(OIte, int(a.w), 0, c.args[0], b, a)
	}
	return p.mk(OIte, int(a.w), 0, c, a, b)
}

func (p *Pool) Eq(a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if same(a, b) {
		return termTrue
	}
	if a.isConst() && b.isConst() {
		return termFalse
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.isTrue() {
				return a
			}
			return p.Not(a)
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() && b.w > 0 && b.w <= 64 {
		switch a.op {
		case OZExt:
			in := a.args[0]
			if b.val > mask(int(in.w)) {
				return termFalse
			}
			return p.Eq(in, mkConst(int(in.w), b.val))
		case OSExt:
			in := a.args[0]
			v := b.val & mask(int(in.w))
			if uint64(signed(v, int(in.w)))&mask(int(a.w)) != b.val {
				return termFalse
			}
			return p.Eq(in, mkConst(int(in.w), v))
		case OIte:
			x, y := a.args[1], a.args[2]
			if x.isConst() || y.isConst() {
				ex, ey := p.Eq(x, b), p.Eq(y, b)
				if ex.isConst() || ey.isConst() {
					return p.Ite(a.args[0], ex, ey)
				}
			}
		case OAdd:
			if a.args[1].isConst() {
				return p.Eq(a.args[0], mkConst(int(a.w), b.val-a.args[1].val))
			}
		case OBXor:
			if a.args[1].isConst() {
				return p.Eq(a.args[0], mkConst(int(a.w), b.val^a.args[1].val))
			}
		}
	}
	if a.op == OZExt && b.op == OZExt && a.args[0].w == b.args[0].w {
		return p.Eq(a.args[0], b.args[0])
	}
	if len(p.ranges) > 0 && a.w > 0 && a.w <= 64 {
		x, y := p.rng(a), p.rng(b)
		if x.hi < y.lo || y.hi < x.lo {
			return termFalse
		}
		if s1, c1, n1 := p.mixedRadix(a); s1 != nil {
			if b.isConst() {
				return p.And(p.Eq(s1, mkConst(int(a.w), b.val/c1)), p.Eq(n1, mkConst(int(a.w), b.val%c1)))
			}
			if s2, c2, n2 := p.mixedRadix(b); s2 != nil && c1 == c2 {
				return p.And(p.Eq(s1, s2), p.Eq(n1, n2))
			}
		}
	}
	if a.op == OVar && b.isConst() && a.w == 8 && (b.val < '0' || b.val > '9') {
		if _, ok := p.decOf[a]; ok {
			return termFalse
		}
	}
	if a.op == OHex && b.isConst() {
		if n, ok := unhex(b.val, a.lo == 1); ok {
			return p.Eq(a.args[0], mkConst(4, n))
		}
		return termFalse
	}
	if a.op == OHex && b.op == OHex && a.lo == b.lo {
		return p.Eq(a.args[0], b.args[0])
	}
	if a.op == OVar && b.op == OVar && a.w > 64 {
		if ra, rb := p.hashIn[a], p.hashIn[b]; ra != nil && rb != nil && ra.alg == rb.alg {
			return p.EqBytes(ra.in, rb.in)
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return p.mk(OEq, 0, 0, a, b)
}

// ---- bit-vectors ----

func (p *Pool) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch in %s: %d %d", opName[op], a.w, b.w))
	}
	w := int(a.w)
	if a.isConst() && b.isConst() {
		if v, ok := foldBin(op, w, a.val, b.val); ok {
			switch op {
			case OULt, OULe, OSLt, OSLe:
				return mkBool(v == 1)
			}
			return mkConst(w, v)
		}
	}
	switch op {
	case OAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if a.op == OAdd && a.args[1].isConst() {
				return p.Bin(OAdd, a.args[0], mkConst(w, a.args[1].val+b.val))
			}
		} else if t := p.horner(a, b); t != nil {
			return t
		}
	case OSub:
		if same(a, b) {
			return mkConst(w, 0)
		}
		if b.isConst() {
			return p.Bin(OAdd, a, mkConst(w, -b.val))
		}
	case OMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		}
	case OBAnd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
			if a.op == OZExt && b.val&mask(int(a.args[0].w)) == mask(int(a.args[0].w)) {
				return a
			}
			if len(p.ranges) > 0 && w <= 64 {
				h := p.rng(a).hi
				if b.val&(b.val+1) == 0 && h <= b.val {
					return a
				}
				if h != 0 && b.val&mask(bits.Len64(h)) == 0 {
					return mkConst(w, 0)
				}
			}
		}
		if same(a, b) {
			return a
		}
	case OBOr:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.val == 0 {
			return a
		}
		if same(a, b) {
			return a
		}
	case OBXor:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.val == 0 {
			return a
		}
		if same(a, b) {
			return mkConst(w, 0)
		}
		// (x ^ y) ^ y  =  x
		if a.op == OBXor {
			if same(a.args[0], b) {
				return a.args[1]
			}
			if same(a.args[1], b) {
				return a.args[0]
			}
		}
		if b.op == OBXor {
			if same(b.args[0], a) {
				return b.args[1]
			}
			if same(b.args[1], a) {
				return b.args[0]
			}
		}
	case OShl, OLShr, OAShr:
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if op != OAShr && b.val >= uint64(w) {
				return mkConst(w, 0)
			}
			if op == OLShr && a.op == OZExt && b.val >= uint64(a.args[0].w) {
				return mkConst(w, 0)
			}
			if op == OLShr && len(p.ranges) > 0 && w <= 64 && p.rng(a).hi>>b.val == 0 {
				return mkConst(w, 0)
			}
		}
	case OULt:
		if same(a, b) {
			return termFalse
		}
		if b.isConst() && b.val == 0 {
			return termFalse
		}
		if a.isConst() && a.val == mask(w) {
			return termFalse
		}
		if r := p.rngCmp(op, a, b); r != nil {
			return r
		}
		if r := p.narrowCmp(op, a, b); r != nil {
			return r
		}
	case OULe:
		if same(a, b) {
			return termTrue
		}
		return p.Not(p.Bin(OULt, b, a))
	case OSLt:
		if same(a, b) {
			return termFalse
		}
		if r := p.rngCmp(op, a, b); r != nil {
			return r
		}
		if r := p.narrowCmp(op, a, b); r != nil {
			return r
		}
	case OSLe:
		if same(a, b) {
			return termTrue
		}
		return p.Not(p.Bin(OSLt, b, a))
	}
	switch op {
	case OULt, OULe, OSLt, OSLe:
		return p.mk(op, 0, 0, a, b)
	}
	return p.mk(op, w, 0, a, b)
}

// narrowCmp reduces comparisons of zero-extended values to the narrow width.
func (p *Pool) narrowCmp(op Op, a, b *Term) *Term {
	za, zb := a.op == OZExt, b.op == OZExt
	if za && zb && a.args[0].w == b.args[0].w {
		return p.Bin(OULt, a.args[0], b.args[0])
	}
	if za && b.isConst() {
		in := a.args[0]
		if op == OSLt && b.sval() < 0 {
			return termFalse
		}
		if b.val > mask(int(in.w)) {
			return termTrue
		}
		return p.Bin(OULt, in, mkConst(int(in.w), b.val))
	}
	if zb && a.isConst() {
		in := b.args[0]
		if op == OSLt && a.sval() < 0 {
			return termTrue
		}
		if a.val > mask(int(in.w)) {
			return termFalse
		}
		return p.Bin(OULt, mkConst(int(in.w), a.val), in)
	}
	return nil
}

func foldBin(op Op, w int, a, b uint64) (uint64, bool) {
	sa, sb := signed(a, w), signed(b, w)
	bo := func(x bool) (uint64, bool) {
		if x {
			return 1, true
		}
		return 0, true
	}
	switch op {
	case OAdd:
		return a + b, true
	case OSub:
		return a - b, true
	case OMul:
		return a * b, true
	case OUDiv:
		if b == 0 {
			return mask(w), true
		}
		return a / b, true
	case OURem:
		if b == 0 {
			return a, true
		}
		return a % b, true
	case OSDiv:
		if b == 0 {
			return 0, false
		}
		if sb == -1 {
			return uint64(-sa), true
		}
		return uint64(sa / sb), true
	case OSRem:
		if b == 0 {
			return 0, false
		}
		if sb == -1 {
			return 0, true
		}
		return uint64(sa % sb), true
	case OBAnd:
		return a & b, true
	case OBOr:
		return a | b, true
	case OBXor:
		return a ^ b, true
	case OShl:
		if b >= uint64(w) {
			return 0, true
		}
		return a << b, true
	case OLShr:
		if b >= uint64(w) {
			return 0, true
		}
		return a >> b, true
	case OAShr:
		if b >= uint64(w) {
			if sa < 0 {
				return mask(w), true
			}
			return 0, true
		}
		return uint64(sa >> b), true
	case OULt:
		return bo(a < b)
	case OULe:
		return bo(a <= b)
	case OSLt:
		return bo(sa < sb)
	case OSLe:
		return bo(sa <= sb)
	}
	return 0, false
}

func (p *Pool) BNot(a *Term) *Term {
	if a.isConst() {
		return mkConst(int(a.w), ^a.val)
	}
	return p.mk(OBNot, int(a.w), 0, a)
}

func (p *Pool) Neg(a *Term) *Term {
	if a.isConst() {
		return mkConst(int(a.w), -a.val)
	}
	return p.mk(ONeg, int(a.w), 0, a)
}

func (p *Pool) ZExt(a *Term, w int) *Term {
	if int(a.w) == w {
		return a
	}
	if a.isConst() {
		return mkConst(w, a.val)
	}
	if a.op == OZExt {
		return p.ZExt(a.args[0], w)
	}
	if len(p.ranges) > 0 && a.op == OExtract && a.lo == 0 && w <= 64 {
		in := a.args[0]
		if in.w <= 64 && p.rng(in).hi <= mask(int(a.w)) {
			if int(in.w) > w {
				return p.Extract(in, 0, w)
			}
			return p.ZExt(in, w)
		}
	}
	return p.mk(OZExt, w, 0, a)
}

func (p *Pool) SExt(a *Term, w int) *Term {
	if int(a.w) == w {
		return a
	}
	if a.isConst() {
		return mkConst(w, uint64(a.sval()))
	}
	if a.op == OZExt {
		return p.ZExt(a.args[0], w)
	}
	if len(p.ranges) > 0 && a.w <= 64 && p.rng(a).hi < 1<<(uint(a.w)-1) {
		return p.ZExt(a, w)
	}
	return p.mk(OSExt, w, 0, a)
}

// Extract w bits starting at bit lo.
func (p *Pool) Extract(a *Term, lo, w int) *Term {
	if lo == 0 && int(a.w) == w {
		return a
	}
	if a.isConst() {
		return mkConst(w, a.val>>uint(lo))
	}
	switch a.op {
	case OExtract:
		return p.Extract(a.args[0], lo+int(a.lo), w)
	case OZExt, OSExt:
		in := a.args[0]
		if lo+w <= int(in.w) {
			return p.Extract(in, lo, w)
		}
		if a.op == OZExt && lo >= int(in.w) {
			return mkConst(w, 0)
		}
		if a.op == OZExt && lo == 0 {
			return p.ZExt(in, w)
		}
		if a.op == OSExt && lo == 0 {
			return p.SExt(in, w)
		}
	case OConcat:
		hi, l := a.args[0], a.args[1]
		if lo+w <= int(l.w) {
			return p.Extract(l, lo, w)
		}
		if lo >= int(l.w) {
			return p.Extract(hi, lo-int(l.w), w)
		}
	case OIte:
		if a.args[1].isConst() || a.args[2].isConst() {
			return p.Ite(a.args[0], p.Extract(a.args[1], lo, w), p.Extract(a.args[2], lo, w))
		}
	case OBOr, OBAnd, OBXor:
		return p.Bin(a.op, p.Extract(a.args[0], lo, w), p.Extract(a.args[1], lo, w))
	case OShl:
		if a.args[1].isConst() {
			s := int(a.args[1].val)
			if lo >= s {
				return p.Extract(a.args[0], lo-s, w)
			}
			if lo+w <= s {
				return mkConst(w, 0)
			}
		}
	case OLShr:
		if a.args[1].isConst() {
			s := int(a.args[1].val)
			if lo+s+w <= int(a.w) {
				return p.Extract(a.args[0], lo+s, w)
			}
		}
	case OAdd, OSub, OMul:
		if lo == 0 {
			return p.Bin(a.op, p.Extract(a.args[0], 0, w), p.Extract(a.args[1], 0, w))
		}
	}
	return p.mk(OExtract, w, lo, a)
}

func (p *Pool) Concat(hi, lo *Term) *Term {
	w := int(hi.w) + int(lo.w)
	if hi.isConst() && lo.isConst() && w <= 64 {
		return mkConst(w, hi.val<<uint(lo.w)|lo.val)
	}
	if hi.isConst() && hi.val == 0 && w <= 64 {
		return p.ZExt(lo, w)
	}
	if hi.op == OExtract && lo.op == OExtract && hi.args[0] == lo.args[0] && int(hi.lo) == int(lo.lo)+int(lo.w) {
		return p.Extract(hi.args[0], int(lo.lo), w)
	}
	return p.mk(OConcat, w, 0, hi, lo)
}

// ConcatBytes builds the big-endian concatenation of bytes (first byte = most significant).
func (p *Pool) ConcatBytes(bs []*Term) *Term {
	if len(bs) == 1 {
		return bs[0]
	}
	m := len(bs) / 2
	return p.Concat(p.ConcatBytes(bs[:m]), p.ConcatBytes(bs[m:]))
}

// EqBytes compares two byte sequences; runs that are extracts of one wide term are compared widely.
func (p *Pool) EqBytes(a, b []*Term) *Term {
	if len(a) != len(b) {
		return termFalse
	}
	var cs []*Term
	i := 0
	for i < len(a) {
		if same(a[i], b[i]) {
			i++
			continue
		}
		if a[i].isConst() && b[i].isConst() {
			// two known hash outputs differ only if the inputs differ: still false
			return termFalse
		}
		if a[i].op == OHex || b[i].op == OHex {
			// runs of hexadecimal digits are compared as bytes
			up := a[i].op == OHex && a[i].lo == 1 || b[i].op == OHex && b[i].lo == 1
			var x, y []*Term
			j := i
			for ; j+1 < len(a); j += 2 {
				xb, ok1 := p.hexPair(a[j], a[j+1], up)
				yb, ok2 := p.hexPair(b[j], b[j+1], up)
				if !ok1 || !ok2 {
					break
				}
				x = append(x, xb)
				y = append(y, yb)
			}
			if len(x) > 0 {
				cs = append(cs, p.EqBytes(x, y))
				i = j
				continue
			}
		}
		if len(p.decOf) > 0 {
			if da := p.decRun(a, i); da != nil {
				if db := p.decRun(b, i); db != nil && len(da.ds) == len(db.ds) {
					x, y := da.t, db.t
					cs = append(cs, p.Eq(x, y))
					i += len(da.ds)
					continue
				}
				if v, ok := decConst(b, i, len(da.ds)); ok {
					cs = append(cs, p.Eq(da.t, mkConst(64, v)))
					i += len(da.ds)
					continue
				}
			} else if db := p.decRun(b, i); db != nil {
				if v, ok := decConst(a, i, len(db.ds)); ok {
					cs = append(cs, p.Eq(db.t, mkConst(64, v)))
					i += len(db.ds)
					continue
				}
			}
		}
		if len(p.hashIn) > 0 {
			ra, na := p.hashRun(a, i)
			if ra != nil {
				rb, nb := p.hashRun(b, i)
				if rb != nil && na == nb && ra.alg == rb.alg {
					cs = append(cs, p.EqBytes(ra.in, rb.in))
					i += na
					continue
				}
			}
		}
		j := i + 1
		for j < len(a) && adjacent(a[j-1], a[j]) && adjacent(b[j-1], b[j]) {
			j++
		}
		if j-i > 1 {
			x := p.Extract(a[i].args[0], int(a[j-1].lo), int(a[i].lo)-int(a[j-1].lo)+8)
			y := p.Extract(b[i].args[0], int(b[j-1].lo), int(b[i].lo)-int(b[j-1].lo)+8)
			cs = append(cs, p.Eq(x, y))
		} else {
			cs = append(cs, p.Eq(a[i], b[i]))
		}
		i = j
	}
	return p.And(cs...)
}

// decConst reads n constant digits without a leading zero.
func decConst(bs []*Term, i, n int) (uint64, bool) {
	if i+n > len(bs) {
		return 0, false
	}
	b, ok := termsConcrete(bs[i : i+n])
	if !ok || n > 1 && b[0] == '0' {
		return 0, false
	}
	v, err := strconv.ParseUint(string(b), 10, 64)
	return v, err == nil && b[0] != '+'
}

// decRun recognises a complete decimal rendering at bs[i:].
func (p *Pool) decRun(bs []*Term, i int) *decNum {
	r, ok := p.decOf[bs[i]]
	if !ok || r.idx != 0 || i+len(r.d.ds) > len(bs) {
		return nil
	}
	for k, d := range r.d.ds {
		if bs[i+k] != d {
			return nil
		}
	}
	return r.d
}

func (p *Pool) hexPair(h, l *Term, up bool) (*Term, bool) {
	n := func(t *Term) (*Term, bool) {
		if t.op == OHex && (t.lo == 1) == up {
			return t.args[0], true
		}
		if t.isConst() {
			if v, ok := unhex(t.val, up); ok {
				return mkConst(4, v), true
			}
		}
		return nil, false
	}
	a, ok1 := n(h)
	b, ok2 := n(l)
	if !ok1 || !ok2 {
		return nil, false
	}
	return p.Concat(a, b), true
}

func adjacent(hi, lo *Term) bool {
	return hi.op == OExtract && lo.op == OExtract && hi.w == 8 && lo.w == 8 && hi.args[0] == lo.args[0] && hi.lo == lo.lo+8
}

// ---- evaluation under a model ----

// Model maps variable names to values; absent variables are zero. Wide values are big-endian bytes.
type Model struct {
	v    map[string]uint64
	wide map[string][]byte
}

type evalCtx struct {
	m    *Model
	memo map[*Term]uint64
	bad  bool
}

func (m *Model) eval(t *Term) (uint64, bool) {
	e := &evalCtx{m: m, memo: map[*Term]uint64{}}
	v := e.ev(t)
	return v, !e.bad
}

func (e *evalCtx) ev(t *Term) uint64 {
	if t.op == OConst {
		return t.val
	}
	if t.w < 0 || e.bad {
		e.bad = true
		return 0
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	v := e.ev1(t)
	if t.w > 0 && t.w <= 64 {
		v &= mask(int(t.w))
	}
	e.memo[t] = v
	return v
}

func (e *evalCtx) wideOf(t *Term) []byte {
	switch t.op {
	case OVar:
		if b, ok := e.m.wide[t.name]; ok {
			return b
		}
		if t.w <= 64 {
			v := e.m.v[t.name]
			b := make([]byte, (t.w+7)/8)
			for i := range b {
				b[len(b)-1-i] = byte(v >> (8 * uint(i)))
			}
			return b
		}
		return make([]byte, (t.w+7)/8)
	case OConcat:
		if t.args[0].w%8 == 0 && t.args[1].w%8 == 0 {
			return append(append([]byte{}, e.wideOf(t.args[0])...), e.wideOf(t.args[1])...)
		}
	case OExtract:
		if t.lo%8 == 0 && t.w%8 == 0 {
			b := e.wideOf(t.args[0])
			if e.bad {
				return nil
			}
			n := len(b)
			return b[n-int(t.lo+t.w)/8 : n-int(t.lo)/8]
		}
	case OIte:
		if e.ev(t.args[0]) == 1 {
			return e.wideOf(t.args[1])
		}
		return e.wideOf(t.args[2])
	}
	if t.w <= 64 && t.w%8 == 0 && t.w > 0 {
		v := e.ev(t)
		b := make([]byte, t.w/8)
		for i := range b {
			b[len(b)-1-i] = byte(v >> (8 * uint(i)))
		}
		return b
	}
	e.bad = true
	return make([]byte, (t.w+7)/8)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (e *evalCtx) ev1(t *Term) uint64 {
	switch t.op {
	case OVar:
		if t.w > 64 {
			e.bad = true
			return 0
		}
		return e.m.v[t.name]
	case ONot:
		return 1 - e.ev(t.args[0])
	case OAnd:
		for _, a := range t.args {
			if e.ev(a) == 0 {
				return 0
			}
		}
		return 1
	case OOr:
		for _, a := range t.args {
			if e.ev(a) == 1 {
				return 1
			}
		}
		return 0
	case OEq:
		if t.args[0].w > 64 {
			a, b := e.wideOf(t.args[0]), e.wideOf(t.args[1])
			return b2u(string(a) == string(b))
		}
		return b2u(e.ev(t.args[0]) == e.ev(t.args[1]))
	case OIte:
		if e.ev(t.args[0]) == 1 {
			return e.ev(t.args[1])
		}
		return e.ev(t.args[2])
	case OBNot:
		return ^e.ev(t.args[0])
	case ONeg:
		return -e.ev(t.args[0])
	case OConcat:
		if t.w > 64 {
			e.bad = true
			return 0
		}
		return e.ev(t.args[0])<<uint(t.args[1].w) | e.ev(t.args[1])
	case OExtract:
		if t.args[0].w > 64 {
			if t.w > 64 {
				e.bad = true
				return 0
			}
			b := e.wideOf(t)
			if e.bad {
				return 0
			}
			var v uint64
			for _, x := range b {
				v = v<<8 | uint64(x)
			}
			return v
		}
		return e.ev(t.args[0]) >> uint(t.lo)
	case OZExt:
		return e.ev(t.args[0])
	case OHex:
		return uint64(hexDigit(e.ev(t.args[0]), t.lo == 1))
	case OSExt:
		return uint64(signed(e.ev(t.args[0]), int(t.args[0].w)))
	}
	if t.w > 64 || len(t.args) != 2 || t.args[0].w > 64 || t.args[0].w < 0 {
		e.bad = true
		return 0
	}
	v, ok := foldBin(t.op, int(t.args[0].w), e.ev(t.args[0]), e.ev(t.args[1]))
	if !ok {
		// SMT-LIB semantics of division by zero
		a := e.ev(t.args[0])
		switch t.op {
		case OSDiv:
			if signed(a, int(t.w)) < 0 {
				return 1
			}
			return mask(int(t.w))
		case OSRem:
			return a
		}
		e.bad = true
	}
	return v
}

// ---- printing ----

func smtConst(t *Term) string {
	if t.w == 0 {
		if t.val == 1 {
			return "true"
		}
		return "false"
	}
	if t.w == wReal {
		v := int64(t.val)
		if v < 0 {
			return fmt.Sprintf("(- %d.0)", -v)
		}
		return fmt.Sprintf("%d.0", v)
	}
	if t.w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(t.w)/4, t.val)
	}
	return fmt.Sprintf("#b%0*b", int(t.w), t.val)
}

func smtSort(w int16) string {
	switch {
	case w == 0:
		return "Bool"
	case w == wReal:
		return "Real"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func ref(t *Term) string {
	switch t.op {
	case OConst:
		return smtConst(t)
	case OVar:
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t!%d", t.id)
}

func body(t *Term) string {
	var sb strings.Builder
	switch t.op {
	case OExtract:
		fmt.Fprintf(&sb, "((_ extract %d %d) %s)", int(t.lo)+int(t.w)-1, t.lo, ref(t.args[0]))
		return sb.String()
	case OHex:
		d := "#x57"
		if t.lo == 1 {
			d = "#x37"
		}
		r := ref(t.args[0])
		fmt.Fprintf(&sb, "(bvadd (concat #x0 %s) (ite (bvult %s #xa) #x30 %s))", r, r, d)
		return sb.String()
	case OZExt:
		fmt.Fprintf(&sb, "((_ zero_extend %d) %s)", t.w-t.args[0].w, ref(t.args[0]))
		return sb.String()
	case OSExt:
		fmt.Fprintf(&sb, "((_ sign_extend %d) %s)", t.w-t.args[0].w, ref(t.args[0]))
		return sb.String()
	}
	sb.WriteString("(")
	sb.WriteString(opName[t.op])
	for _, a := range t.args {
		sb.WriteString(" ")
		sb.WriteString(ref(a))
	}
	sb.WriteString(")")
	return sb.String()
}

func log2ceil(n int) int { return bits.Len(uint(n - 1)) }

// String renders a term for diagnostics.
func (t *Term) String() string {
	if t.op == OConst {
		return fmt.Sprint(t.sval())
	}
	if t.op == OVar {
		return t.name
	}
	n := opName[t.op]
	if n == "" {
		n = fmt.Sprintf("op%d.%d", t.op, t.lo)
	}
	s := "(" + n
	for _, a := range t.args {
		s += " " + a.String()
		if len(s) > 2000 {
			break
		}
	}
	return s + ")"
}
