package main

import (
	"crypto/aes"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Algebraic models of the cryptographic primitives.
//
// Scalars and points of the curve are polynomials over atoms: random scalars, digests
// whose text is symbolic, and literals. A point is its discrete logarithm. In memory a value
// is a 32 byte encoding that is derived from its normal form, so that copies, texts and
// parsing need no model of their own. Two values are equal exactly when they are identical
// as polynomials, for all values of the atoms; every step of the arithmetic and every
// comparison is decided by the solver over the reals (an identity over the integers holds
// in every field).

const edPath = "go.dedis.ch/kyber/v3/group/edwards25519"

var (
	orderL, _ = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)
	fieldP    = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
)

func (in *Interp) natStGlobal() map[string]interface{} {
	if in.natGlob == nil {
		in.natGlob = map[string]interface{}{}
	}
	return in.natGlob
}

// poly maps monomials ("h0^-1*x1^2") to coefficients.
type poly map[string]*big.Int

func constPoly(c int64) poly {
	if c == 0 {
		return poly{}
	}
	return poly{"": big.NewInt(c)}
}

func atomPoly(a string) poly { return poly{a + "^1": big.NewInt(1)} }

func (p poly) String() string {
	ks := make([]string, 0, len(p))
	for k := range p {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&sb, "%s[%s]", p[k], k)
	}
	return sb.String()
}

func polyAdd(a, b poly, sign int64) poly {
	out := poly{}
	for k, v := range a {
		out[k] = v
	}
	for k, v := range b {
		c := new(big.Int).Mul(v, big.NewInt(sign))
		if o, ok := out[k]; ok {
			c.Add(c, o)
		}
		if c.Sign() == 0 {
			delete(out, k)
		} else {
			out[k] = c
		}
	}
	return out
}

func monoMap(k string) map[string]int {
	m := map[string]int{}
	if k == "" {
		return m
	}
	for _, f := range strings.Split(k, "*") {
		i := strings.LastIndexByte(f, '^')
		e, _ := strconv.Atoi(f[i+1:])
		m[f[:i]] = e
	}
	return m
}

func monoKey(m map[string]int) string {
	fs := make([]string, 0, len(m))
	for a, e := range m {
		if e != 0 {
			fs = append(fs, a+"^"+strconv.Itoa(e))
		}
	}
	sort.Strings(fs)
	return strings.Join(fs, "*")
}

func polyMul(a, b poly) poly {
	out := poly{}
	for ka, va := range a {
		for kb, vb := range b {
			m := monoMap(ka)
			for at, e := range monoMap(kb) {
				m[at] += e
			}
			k := monoKey(m)
			c := new(big.Int).Mul(va, vb)
			if o, ok := out[k]; ok {
				c.Add(c, o)
			}
			if c.Sign() == 0 {
				delete(out, k)
			} else {
				out[k] = c
			}
		}
	}
	return out
}

func polyInv(in *Interp, a poly) poly {
	if len(a) == 0 {
		return poly{}
	}
	if len(a) > 1 {
		in.unsupported("inverse of a sum of scalars")
	}
	for k, v := range a {
		if v.CmpAbs(big.NewInt(1)) != 0 {
			in.unsupported("inverse of a multiple of a scalar")
		}
		m := monoMap(k)
		for at := range m {
			m[at] = -m[at]
		}
		return poly{monoKey(m): v}
	}
	return nil
}

// smt is the polynomial as a term over the reals.
func (p poly) smt(atoms map[string]bool) string {
	if len(p) == 0 {
		return "0.0"
	}
	ks := make([]string, 0, len(p))
	for k := range p {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	sum := []string{}
	for _, k := range ks {
		c := p[k]
		t := new(big.Int).Abs(c).String() + ".0"
		if c.Sign() < 0 {
			t = "(- " + t + ")"
		}
		for at, e := range monoMap(k) {
			atoms[at] = true
			n := "|" + at + "|"
			for ; e > 0; e-- {
				t = "(* " + t + " " + n + ")"
			}
			for ; e < 0; e++ {
				t = "(* " + t + " |1/" + at + "|)"
			}
		}
		sum = append(sum, t)
	}
	if len(sum) == 1 {
		return sum[0]
	}
	return "(+ " + strings.Join(sum, " ") + ")"
}

// realQuery asks the solver whether two terms over the reals can differ.
func (in *Interp) realQuery(left, right string, atoms map[string]bool) Sat {
	g := in.natStGlobal()
	cache, _ := g["real"].(map[string]Sat)
	if cache == nil {
		cache = map[string]Sat{}
		g["real"] = cache
	}
	key := left + "=" + right
	if r, ok := cache[key]; ok {
		return r
	}
	s, _ := g["realSolver"].(*Solver)
	if s == nil || s.dead {
		s = newSolver(in.solver.bin, in.solver.timeout)
		g["realSolver"] = s
	}
	names := []string{}
	for a := range atoms {
		names = append(names, a)
	}
	sort.Strings(names)
	fmt.Fprintf(s.in, "(push 1)\n")
	for _, a := range names {
		fmt.Fprintf(s.in, "(declare-const |%s| Real)\n(declare-const |1/%s| Real)\n(assert (= (* |%s| |1/%s|) 1.0))\n", a, a, a, a)
	}
	fmt.Fprintf(s.in, "(assert (not (= %s %s)))\n", left, right)
	s.asserts, s.nsent = nil, 0
	r, _ := s.check(nil, false)
	fmt.Fprintf(s.in, "(pop 1)\n")
	st := &in.solver.stats
	st.Queries++
	switch r {
	case SatYes:
		st.Sat++
	case SatNo:
		st.Unsat++
	default:
		st.Unknown++
	}
	st.Time += s.stats.Time
	s.stats.Time = 0
	cache[key] = r
	return r
}

// checked is the result of an operation, confirmed by the solver.
func (in *Interp) checked(op string, a, b, c poly) poly {
	if !in.inPath || in.solver == nil {
		return c
	}
	atoms := map[string]bool{}
	l := "(" + op + " " + a.smt(atoms) + " " + b.smt(atoms) + ")"
	r := c.smt(atoms)
	if in.realQuery(l, r, atoms) != SatNo {
		in.unsupported("the solver does not confirm %s = %s", l, r)
	}
	return c
}

// sameValue decides whether two values are equal for all atoms; the solver confirms it.
func (in *Interp) sameValue(a, b poly) bool {
	eq := a.String() == b.String()
	if in.inPath && in.solver != nil {
		atoms := map[string]bool{}
		l, r := a.smt(atoms), b.smt(atoms)
		want := SatYes
		if eq {
			want = SatNo
		}
		if in.realQuery(l, r, atoms) != want {
			in.unsupported("the solver does not decide %s = %s", l, r)
		}
	}
	return eq
}

// ---- encodings ----

func (in *Interp) encodings(kind string) map[string]poly {
	g := in.natStGlobal()
	m, _ := g["enc"+kind].(map[string]poly)
	if m == nil {
		m = map[string]poly{}
		g["enc"+kind] = m
	}
	return m
}

func reversed(b []byte) []byte {
	out := make([]byte, len(b))
	for i := range b {
		out[len(b)-1-i] = b[i]
	}
	return out
}

func littleEndian(x *big.Int) []byte {
	b := make([]byte, 32)
	x.FillBytes(b)
	return reversed(b)
}

var basePoint, _ = hex.DecodeString("5866666666666666666666666666666666666666666666666666666666666666")

// encode is the encoding of a value ("s" scalar, "p" point).
func (in *Interp) encode(kind string, p poly) []byte {
	var out []byte
	if len(p) == 0 {
		out = make([]byte, 32)
		if kind == "p" {
			out[0] = 1
		}
	} else if c, ok := p[""]; ok && len(p) == 1 && (kind == "s" || c.IsInt64() && c.Int64() == 1) {
		if kind == "s" {
			out = littleEndian(new(big.Int).Mod(c, orderL))
		} else {
			out = basePoint
		}
	} else {
		if len(p) == 1 {
			for k, c := range p {
				if strings.HasPrefix(k, "lit:"+kind) && strings.HasSuffix(k, "^1") && !strings.Contains(k, "*") && c.IsInt64() && c.Int64() == 1 {
					out, _ = hex.DecodeString(strings.TrimSuffix(strings.TrimPrefix(k, "lit:"+kind), "^1"))
				}
			}
		}
		if out == nil {
			h := sha256.Sum256([]byte(kind + p.String()))
			out = h[:]
			out[31] &= 0x0f
		}
	}
	in.encodings(kind)[string(out)] = p
	return out
}

// decode is the value of an encoding.
func (in *Interp) decode(kind string, b []byte) (poly, bool) {
	if p, ok := in.encodings(kind)[string(b)]; ok {
		return p, true
	}
	if kind == "s" {
		v := new(big.Int).Mod(new(big.Int).SetBytes(reversed(b)), orderL)
		n := new(big.Int).Sub(v, orderL)
		switch {
		case v.BitLen() <= 32:
			return constPoly(v.Int64()), true
		case n.BitLen() <= 32:
			return constPoly(n.Int64()), true
		}
		if p, ok := in.encodings(kind)[string(littleEndian(v))]; ok {
			return p, true
		}
		return atomPoly("lit:s" + hex.EncodeToString(littleEndian(v))), true
	}
	switch hex.EncodeToString(b) {
	case hex.EncodeToString(basePoint):
		return constPoly(1), true
	case "01" + strings.Repeat("00", 31):
		return constPoly(0), true
	}
	if !onCurve(b) {
		return nil, false
	}
	return atomPoly("lit:p" + hex.EncodeToString(b)), true
}

// onCurve tells whether the encoding is that of a point of the curve.
func onCurve(b []byte) bool {
	c := reversed(b)
	c[0] &= 0x7f
	P := fieldP
	mul := func(x, y *big.Int) *big.Int { z := new(big.Int).Mul(x, y); return z.Mod(z, P) }
	y := new(big.Int).SetBytes(c)
	y.Mod(y, P)
	d := mul(big.NewInt(-121665), new(big.Int).ModInverse(big.NewInt(121666), P))
	yy := mul(y, y)
	u := new(big.Int).Sub(yy, big.NewInt(1))
	u.Mod(u, P)
	v := new(big.Int).Add(mul(d, yy), big.NewInt(1))
	v.Mod(v, P)
	if u.Sign() == 0 {
		return true
	}
	if v.Sign() == 0 {
		return false
	}
	return big.Jacobi(mul(u, new(big.Int).ModInverse(v, P)), P) == 1
}

// digestAtom is the value of a digest whose bytes are symbolic.
type digestAtom struct {
	bytes []*Term
	val   poly
}

// scalarOf is the value of 32 bytes.
func (in *Interp) scalarOf(bs []*Term) poly {
	atoms, _ := in.natSt["digests"].([]digestAtom)
	if b, ok := termsConcrete(bs); ok {
		p, _ := in.decode("s", b)
		if in.inPath {
			for _, d := range atoms {
				if _, conc := termsConcrete(d.bytes); !conc && in.branch(in.pool.EqBytes(d.bytes, bs)) {
					return d.val
				}
			}
			in.natSt["digests"] = append(atoms, digestAtom{bs, p})
		}
		return p
	}
	if len(bs) != 32 {
		in.unsupported("symbolic scalar of %d bytes", len(bs))
	}
	n := 0
	for _, d := range atoms {
		if _, conc := termsConcrete(d.bytes); !conc {
			n++
		}
		if len(d.bytes) == 32 && in.branch(in.pool.EqBytes(d.bytes, bs)) {
			return d.val
		}
	}
	p := atomPoly("h" + strconv.Itoa(n))
	in.natSt["digests"] = append(atoms, digestAtom{bs, p})
	return p
}

func structOf(in *Interp, v Value) (Ptr, Struct) {
	if i, ok := v.(Iface); ok {
		if i.T == nil {
			in.tpanic("interface conversion: interface is nil")
		}
		v = i.V
	}
	p, _ := v.(Ptr)
	if p == nil {
		in.tpanic("runtime error: invalid memory address or nil pointer dereference")
	}
	return p, (*p).(Struct)
}

func (in *Interp) scalarVal(v Value) poly {
	_, s := structOf(in, v)
	return in.scalarOfMem(valsToTerms(s[0].(Array)))
}

// scalarOfMem is the value of a scalar in memory (values of digests are encoded there).
func (in *Interp) scalarOfMem(bs []*Term) poly {
	if b, ok := termsConcrete(bs); ok {
		p, _ := in.decode("s", b)
		return p
	}
	return in.scalarOf(bs)
}

func (in *Interp) setScalar(v Value, p poly) Value {
	_, s := structOf(in, v)
	arr := s[0].(Array)
	for i, b := range in.encode("s", p) {
		in.store(&arr[i], mkByte(b))
	}
	return v
}

// A point in memory keeps its encoding in its first coordinate.
func pointSlots(in *Interp, v Value) Array {
	_, s := structOf(in, v)
	return s[0].(Struct)[0].(Array)
}

func (in *Interp) pointEnc(v Value) []byte {
	a := pointSlots(in, v)
	out := make([]byte, 0, 32)
	zero := true
	for _, x := range a[:8] {
		t := x.(*Term)
		if !t.isConst() {
			in.unsupported("symbolic point")
		}
		zero = zero && t.val == 0
		out = append(out, byte(t.val), byte(t.val>>8), byte(t.val>>16), byte(t.val>>24))
	}
	if zero {
		in.unsupported("point that was not set")
	}
	return out
}

func (in *Interp) pointVal(v Value) poly {
	p, ok := in.decode("p", in.pointEnc(v))
	if !ok {
		in.unsupported("invalid point")
	}
	return p
}

func (in *Interp) setPoint(v Value, p poly) { in.setPointEnc(v, in.encode("p", p)) }

func (in *Interp) setPointEnc(v Value, b []byte) {
	a := pointSlots(in, v)
	for i := 0; i < 8; i++ {
		in.store(&a[i], mkConst(32, uint64(b[4*i])|uint64(b[4*i+1])<<8|uint64(b[4*i+2])<<16|uint64(b[4*i+3])<<24))
	}
}

func edIntrinsics() {
	I := intrinsics
	S, P := "(*"+edPath+".scalar).", "(*"+edPath+".point)."
	self := func(fn *ssa.Function, v Value) Value { return Iface{T: fn.Signature.Recv().Type(), V: v} }
	s2 := func(name, op string, f func(in *Interp, a, b poly) poly) {
		I[S+name] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
			x, y := in.scalarVal(a[1]), in.scalarVal(a[2])
			c := f(in, x, y)
			if op != "" {
				c = in.checked(op, x, y, c)
			}
			in.setScalar(a[0], c)
			return self(fn, a[0]), true
		}
	}
	s2("Add", "+", func(in *Interp, a, b poly) poly { return polyAdd(a, b, 1) })
	s2("Sub", "-", func(in *Interp, a, b poly) poly { return polyAdd(a, b, -1) })
	s2("Mul", "*", func(in *Interp, a, b poly) poly { return polyMul(a, b) })
	s2("Div", "", func(in *Interp, a, b poly) poly {
		i := polyInv(in, b)
		c := in.checked("*", a, i, polyMul(a, i))
		if len(b) > 0 {
			in.checked("*", c, b, a)
		}
		return c
	})
	I[S+"Inv"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		b := in.scalarVal(a[1])
		i := polyInv(in, b)
		if len(b) > 0 {
			in.checked("*", b, i, constPoly(1))
		}
		in.setScalar(a[0], i)
		return self(fn, a[0]), true
	}
	I[S+"Neg"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		b := in.scalarVal(a[1])
		in.setScalar(a[0], in.checked("-", poly{}, b, polyAdd(poly{}, b, -1)))
		return self(fn, a[0]), true
	}
	I[S+"SetInt64"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		in.setScalar(a[0], constPoly(in.concInt(a[1].(*Term), "SetInt64")))
		return self(fn, a[0]), true
	}
	I[S+"Pick"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		n, _ := in.natSt["picks"].(int)
		in.natSt["picks"] = n + 1
		in.setScalar(a[0], atomPoly("x"+strconv.Itoa(n)))
		return self(fn, a[0]), true
	}
	I[S+"SetBytes"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		in.setScalar(a[0], in.scalarOf(valsToTerms(a[1].(Slice))))
		return self(fn, a[0]), true
	}
	I[S+"String"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		return Str{s: hex.EncodeToString(in.encode("s", in.scalarVal(a[0])))}, true
	}
	I[S+"MarshalBinary"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		return Tuple{Slice(termsToVals(Str{s: string(in.encode("s", in.scalarVal(a[0])))}.Bytes())), Iface{}}, true
	}
	I[S+"Equal"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		_, x := structOf(in, a[0])
		_, y := structOf(in, a[1])
		bx, by := valsToTerms(x[0].(Array)), valsToTerms(y[0].(Array))
		eq := in.sameValue(in.scalarOfMem(bx), in.scalarOfMem(by))
		if cx, ok := termsConcrete(bx); ok && eq {
			if cy, ok := termsConcrete(by); ok {
				eq = string(cx) == string(cy) // the bytes are compared
			}
		}
		return mkBool(eq), true
	}
	// points
	I[P+"Base"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		in.setPoint(a[0], constPoly(1))
		return self(fn, a[0]), true
	}
	I[P+"Null"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		in.setPoint(a[0], constPoly(0))
		return self(fn, a[0]), true
	}
	I[P+"Pick"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		n, _ := in.natSt["picks"].(int)
		in.natSt["picks"] = n + 1
		in.setPoint(a[0], atomPoly("x"+strconv.Itoa(n)))
		return self(fn, a[0]), true
	}
	for name, sign := range map[string]int64{"Add": 1, "Sub": -1} {
		name, sign := name, sign
		I[P+name] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
			x, y := in.pointVal(a[1]), in.pointVal(a[2])
			op := "+"
			if sign < 0 {
				op = "-"
			}
			in.setPoint(a[0], in.checked(op, x, y, polyAdd(x, y, sign)))
			return self(fn, a[0]), true
		}
	}
	I[P+"Neg"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		x := in.pointVal(a[1])
		in.setPoint(a[0], in.checked("-", poly{}, x, polyAdd(poly{}, x, -1)))
		return self(fn, a[0]), true
	}
	I[P+"Mul"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		x, y := in.scalarVal(a[1]), constPoly(1)
		if i, ok := a[2].(Iface); ok && i.T != nil {
			y = in.pointVal(a[2])
		}
		in.setPoint(a[0], in.checked("*", x, y, polyMul(x, y)))
		return self(fn, a[0]), true
	}
	I[P+"Equal"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		return mkBool(in.sameValue(in.pointVal(a[0]), in.pointVal(a[1]))), true
	}
	I[P+"String"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		return Str{s: hex.EncodeToString(in.encode("p", in.pointVal(a[0])))}, true
	}
	I[P+"MarshalBinary"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		return Tuple{Slice(termsToVals(Str{s: string(in.encode("p", in.pointVal(a[0])))}.Bytes())), Iface{}}, true
	}
	I[P+"UnmarshalBinary"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		bs := valsToTerms(a[1].(Slice))
		if len(bs) == 32 {
			b, ok := termsConcrete(bs)
			if !ok {
				in.unsupported("symbolic encoding of a point")
			}
			if _, ok := in.decode("p", b); ok {
				in.setPointEnc(a[0], b)
				return Iface{}, true
			}
		}
		return in.newErr(Str{s: "invalid Ed25519 curve point"}), true
	}
	I["(*"+edPath+".SuiteEd25519).RandomStream"] = noop(Iface{})
	I["math/rand.Int"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		if !in.inPath {
			in.unsupported("random number outside a path")
		}
		t := in.fresh("math/rand.Int", 64)
		in.addPC(in.pool.mk(OULt, 0, 0, t, mkInt(10)))
		return t, true
	}
}

// ---- random bytes and AES ----

func aesIntrinsics() {
	I := intrinsics
	read := func(in *Interp, dst Slice) {
		if !in.inPath {
			in.unsupported("random bytes outside a path")
		}
		n, _ := in.natSt["randoms"].([][]*Term)
		bs := make([]*Term, len(dst))
		for i := range dst {
			bs[i] = in.fresh("random", 8)
			in.store(&dst[i], bs[i])
		}
		if len(bs) >= 8 {
			// random blocks are never repeated
			for _, o := range n {
				if len(o) == len(bs) {
					in.addPC(in.pool.Not(in.pool.EqBytes(o, bs)))
				}
			}
			in.natSt["randoms"] = append(n, bs)
		}
	}
	I["(crypto/internal/rand.reader).Read"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		s := a[1].(Slice)
		read(in, s)
		return Tuple{mkInt(int64(len(s))), Iface{}}, true
	}
	I["crypto/fips140.Enforced"] = never
	I["crypto/rand.Read"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		s := a[0].(Slice)
		read(in, s)
		return Tuple{mkInt(int64(len(s))), Iface{}}, true
	}
	I["crypto/aes.NewCipher"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		k := valsToTerms(a[0].(Slice))
		if len(k) != 16 && len(k) != 24 && len(k) != 32 {
			return nil, false
		}
		var v Value = &Native{kind: "aes", x: k}
		return Tuple{Iface{T: in.eng.namedPtr("crypto/internal/fips140/aes", "Block"), V: Ptr(&v)}, Iface{}}, true
	}
	B := "(*crypto/internal/fips140/aes.Block)."
	I[B+"BlockSize"] = noop(mkInt(16))
	I[B+"Encrypt"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		k := (*(a[0].(Ptr))).(*Native).x.([]*Term)
		dst, src := a[1].(Slice), a[2].(Slice)
		if len(src) < 16 || len(dst) < 16 {
			in.tpanic("crypto/aes: input or output not full block")
		}
		out := in.applyHash("aes", append(append([]*Term{}, k...), valsToTerms(src[:16])...))
		for i, t := range out {
			in.store(&dst[i], t)
		}
		return nil, true
	}
	I["crypto/internal/fips140only.Enforced"] = never
	I["crypto/internal/fips140/alias.InexactOverlap"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		x, y := a[0].(Slice), a[1].(Slice)
		if len(x) == 0 || len(y) == 0 || &x[0] == &y[0] {
			return mkBool(false), true
		}
		return mkBool(overlap(x, y)), true
	}
	I["crypto/internal/fips140/alias.AnyOverlap"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		return mkBool(overlap(a[0].(Slice), a[1].(Slice))), true
	}
	I["crypto/subtle.XORBytes"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		dst, x, y := a[0].(Slice), a[1].(Slice), a[2].(Slice)
		n := len(x)
		if len(y) < n {
			n = len(y)
		}
		if n == 0 {
			return mkInt(0), true
		}
		if n > len(dst) {
			in.tpanic("subtle.XORBytes: dst too short")
		}
		out := make([]*Term, n)
		for i := range out {
			out[i] = in.pool.Bin(OBXor, x[i].(*Term), y[i].(*Term))
		}
		for i, t := range out {
			in.store(&dst[i], t)
		}
		return mkInt(int64(n)), true
	}
	I["crypto/internal/fips140/subtle.XORBytes"] = I["crypto/subtle.XORBytes"]
}

// overlap tells whether two slices share memory.
func overlap(x, y Slice) bool {
	for i := range x {
		for j := range y {
			if &x[i] == &y[j] {
				return true
			}
		}
	}
	return false
}

func aesNative(b []byte) []byte {
	n := len(b) - 16
	c, err := aes.NewCipher(b[:n])
	if err != nil {
		panic(err)
	}
	out := make([]byte, 16)
	c.Encrypt(out, b[n:])
	return out
}

// ---- base64 ----

func b64Encoding(in *Interp, v Value) *base64.Encoding {
	_, s := structOf(in, v)
	arr, ok := s[0].(Array)
	if !ok {
		in.unsupported("base64 encoding")
	}
	alpha, ok := termsConcrete(valsToTerms(arr))
	if !ok {
		in.unsupported("base64 alphabet")
	}
	for _, f := range s[1:] {
		if t, ok := f.(*Term); ok && t.w == 32 {
			e := base64.NewEncoding(string(alpha)).WithPadding(rune(int32(t.val)))
			return e
		}
	}
	in.unsupported("base64 encoding")
	return nil
}

type b64Group struct {
	enc string
	src []*Term
}

func b64Key(ts []*Term) string {
	var sb strings.Builder
	for _, t := range ts {
		if t.isConst() {
			fmt.Fprintf(&sb, "c%d,", t.val)
		} else {
			fmt.Fprintf(&sb, "%d,", t.id)
		}
	}
	return sb.String()
}

func base64Intrinsics() {
	I := intrinsics
	E := "(*encoding/base64.Encoding)."
	I[E+"EncodeToString"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		bs := valsToTerms(a[1].(Slice))
		e := b64Encoding(in, a[0])
		if b, ok := termsConcrete(bs); ok {
			return Str{s: e.EncodeToString(b)}, true
		}
		r := in.callBody(in.eng.info(fn), fn, a, nil)
		s, ok := r.(Str)
		if !ok {
			return r, true
		}
		groups, _ := in.natSt["b64"].(map[string][]*Term)
		if groups == nil {
			groups = map[string][]*Term{}
			in.natSt["b64"] = groups
		}
		chars := s.Bytes()
		for i := 0; i+4 <= len(chars); i += 4 {
			j := i / 4 * 3
			k := j + 3
			if k > len(bs) {
				k = len(bs)
			}
			groups[b64Key(chars[i:i+4])] = bs[j:k]
		}
		return s, true
	}
	I[E+"DecodeString"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		s := a[1].(Str)
		e := b64Encoding(in, a[0])
		if s.sym == nil {
			b, err := e.DecodeString(s.s)
			var er Value = Iface{}
			if err != nil {
				er = in.newErr(Str{s: err.Error()})
			}
			return Tuple{Slice(termsToVals(Str{s: string(b)}.Bytes())), er}, true
		}
		groups, _ := in.natSt["b64"].(map[string][]*Term)
		if len(s.sym)%4 != 0 || groups == nil || e.EncodedLen(1) != 4 {
			return nil, false
		}
		out := []*Term{}
		for i := 0; i < len(s.sym); i += 4 {
			g := s.sym[i : i+4]
			if src, ok := groups[b64Key(g)]; ok && (len(src) == 3 || i+4 == len(s.sym)) {
				out = append(out, src...)
				continue
			}
			c, ok := termsConcrete(g)
			if !ok {
				return nil, false
			}
			b, err := e.DecodeString(string(c))
			if err != nil || len(b) < 3 && i+4 < len(s.sym) {
				return nil, false
			}
			for _, x := range b {
				out = append(out, mkByte(x))
			}
		}
		return Tuple{Slice(termsToVals(out)), Iface{}}, true
	}
}

// ---- RSA ----

// A key is known by a number, kept in its modulus and its exponents.
func (in *Interp) newStruct(pkg, name string) (Ptr, *types.Struct) {
	t := in.eng.namedPtr(pkg, name).(*types.Pointer).Elem()
	v := zero(t)
	return Ptr(&v), t.Underlying().(*types.Struct)
}

func fieldOf(s Struct, t *types.Struct, name string) *Value {
	for i := 0; i < t.NumFields(); i++ {
		if t.Field(i).Name() == name {
			return &s[i]
		}
	}
	panic("no field " + name)
}

func (in *Interp) bigInt(id int) Value {
	p, t := in.newStruct("math/big", "Int")
	*fieldOf((*p).(Struct), t, "abs") = Slice{mkConst(64, uint64(id))}
	return p
}

func (in *Interp) bigID(v Value) int {
	p, _ := v.(Ptr)
	if p == nil {
		return 0
	}
	t := in.eng.namedPtr("math/big", "Int").(*types.Pointer).Elem().Underlying().(*types.Struct)
	s, _ := (*fieldOf((*p).(Struct), t, "abs")).(Slice)
	if len(s) != 1 {
		return 0
	}
	return int(s[0].(*Term).val)
}

// rsaPublic is an rsa.PublicKey.
func (in *Interp) rsaPublic(id int) Ptr {
	p, t := in.newStruct("crypto/rsa", "PublicKey")
	*fieldOf((*p).(Struct), t, "N") = in.bigInt(1000000 + id)
	*fieldOf((*p).(Struct), t, "E") = mkInt(65537)
	return p
}

func (in *Interp) rsaPrivate(id int) Ptr {
	p, t := in.newStruct("crypto/rsa", "PrivateKey")
	*fieldOf((*p).(Struct), t, "PublicKey") = *in.rsaPublic(id)
	*fieldOf((*p).(Struct), t, "D") = in.bigInt(2000000 + id)
	return p
}

// publicID is the number of a public key (0: not a key).
func (in *Interp) publicID(v Value) int {
	p, _ := v.(Ptr)
	if p == nil {
		in.tpanic("runtime error: invalid memory address or nil pointer dereference")
	}
	t := in.eng.namedPtr("crypto/rsa", "PublicKey").(*types.Pointer).Elem().Underlying().(*types.Struct)
	n := in.bigID(*fieldOf((*p).(Struct), t, "N"))
	e, _ := (*fieldOf((*p).(Struct), t, "E")).(*Term)
	if n < 1000000 || e == nil || e.val != 65537 {
		return 0
	}
	return n - 1000000
}

func (in *Interp) privateID(v Value) int {
	p, _ := v.(Ptr)
	if p == nil {
		in.tpanic("runtime error: invalid memory address or nil pointer dereference")
	}
	t := in.eng.namedPtr("crypto/rsa", "PrivateKey").(*types.Pointer).Elem().Underlying().(*types.Struct)
	d := in.bigID(*fieldOf((*p).(Struct), t, "D"))
	pub := *fieldOf((*p).(Struct), t, "PublicKey")
	if d < 2000000 || in.publicID(Ptr(&pub)) != d-2000000 {
		return 0
	}
	return d - 2000000
}

type rsaCipher struct {
	ct    []byte
	key   int
	alg   string
	label []*Term
	msg   []*Term
}

func opaqueBytes(tag string, n int) []byte {
	out := []byte{}
	for i := 0; len(out) < n; i++ {
		h := sha512.Sum512([]byte(tag + strconv.Itoa(i)))
		out = append(out, h[:]...)
	}
	return out[:n]
}

func rsaIntrinsics() {
	I := intrinsics
	bits := func(in *Interp, id int) int { return in.natSt["rsabits"].(map[int]int)[id] }
	I["crypto/rsa.GenerateKey"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		n := in.concInt(a[1].(*Term), "bits of a key")
		if n < 1024 {
			return Tuple{Ptr(nil), in.newErr(Str{s: "crypto/rsa: key too small"})}, true
		}
		m, _ := in.natSt["rsabits"].(map[int]int)
		if m == nil {
			m = map[int]int{}
			in.natSt["rsabits"] = m
		}
		id := len(m) + 1
		m[id] = int(n)
		return Tuple{in.rsaPrivate(id), Iface{}}, true
	}
	I["crypto/rsa.EncryptOAEP"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		_, hs := structOfNative(in, a[0])
		id := in.publicID(a[2])
		msg, label := valsToTerms(a[3].(Slice)), valsToTerms(a[4].(Slice))
		if id == 0 {
			return Tuple{Slice(nil), in.newErr(Str{s: "crypto/rsa: invalid key"})}, true
		}
		k := bits(in, id) / 8
		if len(msg) > k-2*hashLen(hs.alg)-2 {
			return Tuple{Slice(nil), in.newErr(Str{s: "crypto/rsa: message too long for RSA key size"})}, true
		}
		list, _ := in.natSt["oaep"].([]rsaCipher)
		c := rsaCipher{opaqueBytes(fmt.Sprintf("ciphertext %d %d ", id, len(list)), k), id, hs.alg, label, append([]*Term{}, msg...)}
		in.natSt["oaep"] = append(list, c)
		return Tuple{Slice(termsToVals(Str{s: string(c.ct)}.Bytes())), Iface{}}, true
	}
	I["crypto/rsa.DecryptOAEP"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		_, hs := structOfNative(in, a[0])
		id := in.privateID(a[2])
		ct, label := valsToTerms(a[3].(Slice)), valsToTerms(a[4].(Slice))
		list, _ := in.natSt["oaep"].([]rsaCipher)
		for _, c := range list {
			if c.key == id && c.alg == hs.alg && len(c.ct) == len(ct) &&
				in.branch(in.pool.And(in.pool.EqBytes(Str{s: string(c.ct)}.Bytes(), ct), in.pool.EqBytes(c.label, label))) {
				out := make(Slice, len(c.msg))
				for i, t := range c.msg {
					out[i] = t
				}
				return Tuple{out, Iface{}}, true
			}
		}
		return Tuple{Slice(nil), in.newErr(Str{s: "crypto/rsa: decryption error"})}, true
	}
	equal := func(id func(in *Interp, v Value) int, name string) intrinsicFn {
		return func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
			x, ok := a[1].(Iface)
			if !ok || x.T == nil || x.T != in.eng.namedPtr("crypto/rsa", name) && !types.Identical(x.T, in.eng.namedPtr("crypto/rsa", name)) {
				return mkBool(false), true
			}
			p, q := id(in, a[0]), id(in, x.V)
			if p == 0 || q == 0 {
				in.unsupported("comparison of an invalid key")
			}
			return mkBool(p == q), true
		}
	}
	I["(*crypto/rsa.PublicKey).Equal"] = equal((*Interp).publicID, "PublicKey")
	I["(*crypto/rsa.PrivateKey).Equal"] = equal((*Interp).privateID, "PrivateKey")
	marshal := func(kind string) intrinsicFn {
		return func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
			id := 0
			if kind == "private" {
				id = in.privateID(a[0])
			} else {
				id = in.publicID(a[0])
			}
			if id == 0 {
				in.unsupported("encoding of an invalid key")
			}
			b := append([]byte("0\x82"), opaqueBytes(fmt.Sprintf("%s key %d ", kind, id), 90)...)
			return Slice(termsToVals(Str{s: string(b)}.Bytes())), true
		}
	}
	parse := func(kind string) intrinsicFn {
		return func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
			bs := valsToTerms(a[0].(Slice))
			m, _ := in.natSt["rsabits"].(map[int]int)
			for id := 1; id <= len(m); id++ {
				b := append([]byte("0\x82"), opaqueBytes(fmt.Sprintf("%s key %d ", kind, id), 90)...)
				if len(b) == len(bs) && in.branch(in.pool.EqBytes(Str{s: string(b)}.Bytes(), bs)) {
					if kind == "private" {
						return Tuple{in.rsaPrivate(id), Iface{}}, true
					}
					return Tuple{in.rsaPublic(id), Iface{}}, true
				}
			}
			if _, conc := termsConcrete(bs); !conc && len(bs) > 7 {
				in.unsupported("symbolic encoding of a key")
			}
			return Tuple{Ptr(nil), in.newErr(Str{s: "asn1: structure error"})}, true
		}
	}
	I["crypto/x509.MarshalPKCS1PrivateKey"] = marshal("private")
	I["crypto/x509.MarshalPKCS1PublicKey"] = marshal("public")
	I["crypto/x509.ParsePKCS1PrivateKey"] = parse("private")
	I["crypto/x509.ParsePKCS1PublicKey"] = parse("public")
}

func structOfNative(in *Interp, v Value) (Value, *hashState) {
	i, ok := v.(Iface)
	if !ok || i.T == nil {
		in.unsupported("hash function")
	}
	return i.V, hashOf(in, i.V)
}

func never(in *Interp, fn *ssa.Function, a []Value) (Value, bool) { return mkBool(false), true }

func cryptoIntrinsics() {
	edIntrinsics()
	aesIntrinsics()
	base64Intrinsics()
	rsaIntrinsics()
}
