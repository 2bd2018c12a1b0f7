package main

import (
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"go/types"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsicFn func(in *Interp, fn *ssa.Function, args []Value) (Value, bool)

var intrinsics map[string]intrinsicFn

// packages whose initialisers are executed
var stdInit = map[string]bool{}

func init() {
	for _, p := range []string{"unicode", "unicode/utf8", "unicode/utf16", "strconv", "strings", "bytes", "sort", "math", "math/bits", "io",
		"encoding/hex", "encoding/base64", "encoding/binary", "time", "internal/stringslite", "internal/itoa", "path", "slices", "cmp", "iter",
		"crypto/cipher", "internal/strconv", "internal/bytealg", "internal/oserror"} {
		stdInit[p] = true
	}
}

func (e *Engine) shouldInit(p string) bool {
	if strings.HasPrefix(p, e.repoPrefix) {
		return true
	}
	return stdInit[p]
}

func knownGlobal(name string) bool {
	switch name {
	case "crypto/rand.Reader", "os.ErrNotExist", "crypto/internal/boring.Enabled", "errors.errorType", "errors.ErrUnsupported":
		return true
	}
	return strings.HasPrefix(name, "internal/cpu.") || strings.HasPrefix(name, "internal/godebugs.")
}

func initKnownGlobal(in *Interp, g *ssa.Global, p Ptr) {
	switch g.String() {
	case "crypto/rand.Reader":
		// an opaque non-nil reader; reads are intercepted
		t := in.eng.namedPtr("crypto/internal/rand", "reader").(*types.Pointer).Elem()
		*p = Iface{T: t, V: zero(t)}
	}
}

func (e *Engine) lookupFunc(pkg, name string) *ssa.Function {
	for _, p := range e.prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if f := p.Func(name); f != nil {
				return f
			}
		}
	}
	panic(pathEnd{"unsupported", "function not loaded: " + pkg + "." + name})
}

func lookupIntrinsic(e *Engine, name string, fn *ssa.Function) intrinsicFn {
	if strings.HasPrefix(name, e.vtPath+".") {
		f, ok := vtIntrinsics[strings.TrimPrefix(name, e.vtPath+".")]
		if ok {
			return f
		}
	}
	return intrinsics[name]
}

func concStr(v Value) (string, bool) {
	s, ok := v.(Str)
	if !ok || s.sym != nil {
		return "", false
	}
	return s.s, true
}

func mustStr(in *Interp, v Value) string {
	s, ok := concStr(v)
	if !ok {
		in.unsupported("concrete string expected")
	}
	return s
}

func strSlice(ss []string) Value {
	out := make(Slice, len(ss))
	for i, s := range ss {
		out[i] = Str{s: s}
	}
	return out
}

// symIndex finds the first occurrence of sub in s at or after from.
func (in *Interp) symIndex(s, sub Str, from int) int {
	if s.sym == nil && sub.sym == nil {
		if from > len(s.s) {
			return -1
		}
		k := strings.Index(s.s[from:], sub.s)
		if k < 0 {
			return -1
		}
		return k + from
	}
	n := sub.Len()
	sb := sub.Bytes()
	for i := from; i+n <= s.Len(); i++ {
		if in.branch(in.pool.EqBytes(s.Slice(i, i+n).Bytes(), sb)) {
			return i
		}
	}
	return -1
}

func (in *Interp) symLastIndex(s, sub Str) int {
	n := sub.Len()
	sb := sub.Bytes()
	for i := s.Len() - n; i >= 0; i-- {
		if in.branch(in.pool.EqBytes(s.Slice(i, i+n).Bytes(), sb)) {
			return i
		}
	}
	return -1
}

func (in *Interp) symSplit(s, sep Str, n int) Value {
	if n == 0 {
		return Slice(nil)
	}
	out := Slice{}
	if sep.Len() == 0 {
		// explode into characters
		p := 0
		for p < s.Len() && (n < 0 || len(out) < n-1) {
			_, k := in.decodeRune(s, p)
			out = append(out, s.Slice(p, p+k))
			p += k
		}
		if p < s.Len() {
			out = append(out, s.Slice(p, s.Len()))
		}
		return out
	}
	p := 0
	for n < 0 || len(out) < n-1 {
		k := in.symIndex(s, sep, p)
		if k < 0 {
			break
		}
		out = append(out, s.Slice(p, k))
		p = k + sep.Len()
	}
	return append(out, s.Slice(p, s.Len()))
}

func (in *Interp) symReplace(s, old, nw Str, n int) Value {
	if old.Len() == 0 {
		if n == 0 || nw.Len() == 0 {
			return s
		}
		if n == 1 {
			return nw.Concat(s)
		}
		in.unsupported("strings.Replace with an empty needle on a symbolic string")
	}
	out := Str{}
	p := 0
	for c := 0; n < 0 || c < n; c++ {
		k := in.symIndex(s, old, p)
		if k < 0 {
			break
		}
		out = out.Concat(s.Slice(p, k)).Concat(nw)
		p = k + old.Len()
	}
	return out.Concat(s.Slice(p, s.Len()))
}

// symItoa renders an integer in decimal.
func (in *Interp) symItoa(t *Term, sg bool) Str {
	if t.isConst() {
		if sg {
			return Str{s: strconv.FormatInt(t.sval(), 10)}
		}
		return Str{s: strconv.FormatUint(t.val, 10)}
	}
	if sg {
		t = in.pool.SExt(t, 64)
	} else {
		t = in.pool.ZExt(t, 64)
	}
	P := in.pool
	neg := false
	if sg && in.branch(P.Bin(OSLt, t, mkInt(0))) {
		neg = true
		t = P.Neg(t)
	}
	n := 1
	pow := uint64(10)
	for n < 20 {
		if in.branch(P.Bin(OULt, t, mkConst(64, pow))) {
			break
		}
		n++
		pow *= 10
	}
	// n digits, most significant first
	id := in.nvar
	in.nvar++
	num := &decNum{t: t}
	for i := 0; i < n; i++ {
		num.ds = append(num.ds, P.Var(fmt.Sprintf("itoa%d_%d", id, i), 8))
	}
	for i, d := range num.ds {
		P.decOf[d] = decRef{num, i}
		P.ranges[d] = ival{'0', '9'}
	}
	P.decs = append(P.decs, num)
	if in.model != nil {
		m := in.model.clone()
		setDigits(m, num)
		in.model = m
	}
	ds := num.ds
	if neg {
		return Str{s: "-"}.Concat(mkStr(ds))
	}
	return mkStr(ds)
}

func setDigits(m *Model, d *decNum) {
	if v, ok := m.eval(d.t); ok {
		s := strconv.FormatUint(v, 10)
		if len(s) == len(d.ds) {
			for i, x := range d.ds {
				m.v[x.name] = uint64(s[i])
			}
		}
	}
}

// decAxioms sends the definitions of the decimal renderings whose digits are used one by one.
func (in *Interp) decAxioms() {
	P := in.pool
	for _, d := range P.decs {
		if !d.loose || d.sent {
			continue
		}
		d.sent = true
		P.noHorner = true
		n := len(d.ds)
		sum := mkConst(64, 0)
		mul := uint64(1)
		for i := n - 1; i >= 0; i-- {
			x := d.ds[i]
			in.addPC(P.Not(P.mk(OULt, 0, 0, x, mkByte('0'))))
			in.addPC(P.mk(OULt, 0, 0, x, mkByte('9'+1)))
			sum = P.Bin(OAdd, sum, P.Bin(OMul, P.ZExt(P.Bin(OSub, x, mkByte('0')), 64), mkConst(64, mul)))
			mul *= 10
		}
		if n > 1 {
			in.addPC(P.Not(P.mk(OEq, 0, 0, d.ds[0], mkByte('0'))))
		}
		if n == 20 {
			in.addPC(P.mk(OEq, 0, 0, d.ds[0], mkByte('1')))
		}
		in.addPC(P.mk(OEq, 0, 0, sum, d.t))
		P.noHorner = false
	}
}

func (m *Model) clone() *Model {
	n := &Model{v: make(map[string]uint64, len(m.v)+8), wide: make(map[string][]byte, len(m.wide)+1)}
	for k, v := range m.v {
		n.v[k] = v
	}
	for k, v := range m.wide {
		n.wide[k] = v
	}
	return n
}

// ---- hashing: collision-free functions ----

type hashApp struct {
	alg  string
	in   []*Term
	out  []*Term
	conc bool
}

type hashState struct {
	alg string
	buf []*Term
}

func hashNative(alg string, b []byte) []byte {
	switch alg {
	case "sha512":
		h := sha512.Sum512(b)
		return h[:]
	case "sha256":
		h := sha256.Sum256(b)
		return h[:]
	case "aes":
		return aesNative(b)
	}
	panic("hash " + alg)
}

func hashLen(alg string) int {
	switch alg {
	case "sha512":
		return 64
	case "aes":
		return 16
	}
	return 32
}

func termsConcrete(ts []*Term) ([]byte, bool) {
	out := make([]byte, len(ts))
	for i, t := range ts {
		if !t.isConst() {
			return nil, false
		}
		out[i] = byte(t.val)
	}
	return out, true
}

// applyHash models a hash as an arbitrary collision-free function (concrete inputs are computed).
func (in *Interp) applyHash(alg string, x []*Term) []*Term {
	cp := append([]*Term{}, x...)
	if b, ok := termsConcrete(cp); ok {
		out := make([]*Term, 0, 64)
		for _, c := range hashNative(alg, b) {
			out = append(out, mkByte(c))
		}
		if in.inPath {
			dup := false
			for _, h := range in.hashes {
				if h.conc && h.alg == alg && len(h.in) == len(cp) && in.pool.EqBytes(h.in, cp).isTrue() {
					dup = true
				}
			}
			if !dup {
				in.relateHash(hashApp{alg, cp, out, true})
			}
		}
		return out
	}
	for _, h := range in.hashes {
		if h.alg == alg && len(h.in) == len(cp) && in.pool.EqBytes(h.in, cp).isTrue() {
			return h.out
		}
	}
	n := hashLen(alg)
	v := in.pool.Var(fmt.Sprintf("%s!%d", alg, len(in.hashes)), n*8)
	out := make([]*Term, n)
	for i := range out {
		out[i] = in.pool.Extract(v, (n-1-i)*8, 8)
	}
	if in.model != nil {
		m := in.model.clone()
		b := make([]byte, len(cp))
		ok := true
		for i, t := range cp {
			y, k := m.eval(t)
			ok = ok && k
			b[i] = byte(y)
		}
		if ok {
			m.wide[v.name] = hashNative(alg, b)
			in.model = m
		}
	}
	in.relateHash(hashApp{alg, cp, out, false})
	return out
}

// relateHash registers an application of a hash. Complete outputs are compared through
// their inputs (Pool.EqBytes); the axioms are only sent when the bits are used otherwise.
func (in *Interp) relateHash(a hashApp) {
	in.hashes = append(in.hashes, a)
	r := &hashRef{a.alg, a.in}
	if a.conc {
		b, _ := termsConcrete(a.out)
		in.pool.concHash[string(b)] = r
	} else {
		in.pool.hashIn[a.out[0].args[0]] = r
	}
}

// hashAxioms adds the pairwise axioms of the hash applications that have none yet.
func (in *Interp) hashAxioms() {
	P := in.pool
	if !P.loose || in.inAxioms || in.nAxioms == len(in.hashes) {
		return
	}
	in.inAxioms = true
	defer func() { in.inAxioms = false }()
	raw := func(h hashApp) *Term {
		if h.conc {
			return nil
		}
		return h.out[0].args[0]
	}
	for ; in.nAxioms < len(in.hashes); in.nAxioms++ {
		a := in.hashes[in.nAxioms]
		for _, h := range in.hashes[:in.nAxioms] {
			if h.alg != a.alg || (h.conc && a.conc) {
				continue
			}
			var eo *Term
			va, vh := raw(a), raw(h)
			if va != nil && vh != nil {
				eo = P.mk(OEq, 0, 0, va, vh)
			} else {
				cs := []*Term{}
				for i := range a.out {
					cs = append(cs, P.Eq(a.out[i], h.out[i]))
				}
				eo = P.And(cs...)
			}
			ei := P.EqBytes(h.in, a.in)
			in.addPC(P.Or(P.Not(ei), eo))
			in.addPC(P.Or(P.Not(eo), ei))
		}
	}
}

// check asks the solver about the path condition and an extra condition.
func (in *Interp) check(extra *Term, want bool) (Sat, *Model) {
	in.hashAxioms()
	in.decAxioms()
	r, m := in.solver.check(extra, want)
	if m != nil {
		for _, d := range in.pool.decs {
			if !d.sent {
				setDigits(m, d)
			}
		}
	}
	if m != nil && !in.pool.loose {
		// the digests of the model's inputs
		for _, h := range in.hashes {
			if h.conc {
				continue
			}
			if b, ok := m.bytes(h.in); ok {
				m.wide[h.out[0].args[0].name] = hashNative(h.alg, b)
			}
		}
	}
	return r, m
}

func (m *Model) bytes(ts []*Term) ([]byte, bool) {
	b := make([]byte, len(ts))
	for i, t := range ts {
		y, ok := m.eval(t)
		if !ok {
			return nil, false
		}
		b[i] = byte(y)
	}
	return b, true
}

func (in *Interp) newHash(alg string, T types.Type) Value {
	var v Value = &Native{kind: "hash", x: &hashState{alg: alg}}
	return Iface{T: T, V: Ptr(&v)}
}

func hashOf(in *Interp, v Value) *hashState {
	p, ok := v.(Ptr)
	if ok && p != nil {
		if n, ok := (*p).(*Native); ok {
			if h, ok := n.x.(*hashState); ok {
				return h
			}
		}
	}
	in.unsupported("hash object")
	return nil
}

func (in *Interp) setHashBuf(h *hashState, b []*Term) {
	old := h.buf
	in.onUndo(func() { h.buf = old })
	h.buf = b
}

func hashMethods(prefix string) {
	intrinsics[prefix+".Write"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		h := hashOf(in, a[0])
		b := valsToTerms(a[1].(Slice))
		nb := append(append([]*Term{}, h.buf...), b...)
		in.setHashBuf(h, nb)
		return Tuple{mkInt(int64(len(b))), Iface{}}, true
	}
	intrinsics[prefix+".Sum"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		h := hashOf(in, a[0])
		out := in.applyHash(h.alg, h.buf)
		return in.appendVals(a[1].(Slice), termsToVals(out), types.Typ[types.Uint8]), true
	}
	intrinsics[prefix+".Reset"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		in.setHashBuf(hashOf(in, a[0]), nil)
		return nil, true
	}
	intrinsics[prefix+".Size"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		return mkInt(int64(hashLen(hashOf(in, a[0]).alg))), true
	}
	intrinsics[prefix+".BlockSize"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		if hashOf(in, a[0]).alg == "sha512" {
			return mkInt(128), true
		}
		return mkInt(64), true
	}
}

// newErr builds an error value with the given text.
func (in *Interp) newErr(s Str) Value {
	return in.call(in.eng.lookupFunc("errors", "New"), []Value{s}, nil)
}

// ---- formatting ----

func (in *Interp) fmtArg(v Value, verb byte, spec string) Str {
	i, ok := v.(Iface)
	if !ok {
		return Str{s: "?"}
	}
	if i.T == nil {
		if verb == 'd' || verb == 's' {
			return Str{s: "%!" + string(verb) + "(<nil>)"}
		}
		return Str{s: "<nil>"}
	}
	if verb == 's' || verb == 'v' || verb == 'q' {
		for _, mn := range []string{"Error", "String"} {
			if m := in.findMethod(i.T, mn); m != nil && m.Signature.Params().Len() == 0 {
				if s, ok := in.call(m, []Value{i.V}, nil).(Str); ok {
					if verb == 'q' {
						return Str{s: strconv.Quote(s.String())}
					}
					return s
				}
			}
		}
	}
	if spec == "%x" || spec == "%X" {
		var bs []*Term
		ok := false
		switch x := i.V.(type) {
		case Str:
			bs, ok = x.Bytes(), true
		case Slice:
			if sl, is := under(i.T).(*types.Slice); is && intWidth(sl.Elem()) == 8 {
				bs, ok = valsToTerms(x), true
			}
		case Array:
			if sl, is := under(i.T).(*types.Array); is && intWidth(sl.Elem()) == 8 {
				bs, ok = valsToTerms(x), true
			}
		}
		if ok {
			return mkStr(in.hexDigits(bs, verb == 'X'))
		}
	}
	switch x := i.V.(type) {
	case Str:
		if x.sym == nil {
			return Str{s: fmt.Sprintf(spec, x.s)}
		}
		if spec == "%s" || spec == "%v" {
			return x
		}
		in.unsupported("formatting a symbolic value with %s", spec)
	case *Term:
		sg := isSigned(i.T)
		if x.w == 0 {
			if x.isConst() {
				return Str{s: fmt.Sprintf(spec, x.val == 1)}
			}
			if in.branch(x) {
				return Str{s: "true"}
			}
			return Str{s: "false"}
		}
		if x.isConst() {
			if sg {
				return Str{s: fmt.Sprintf(spec, x.sval())}
			}
			if x.w == 8 {
				return Str{s: fmt.Sprintf(spec, byte(x.val))}
			}
			return Str{s: fmt.Sprintf(spec, x.val)}
		}
		if spec == "%d" || spec == "%v" {
			return in.symItoa(x, sg)
		}
		in.unsupported("formatting a symbolic value with %s", spec)
	case float64:
		return Str{s: fmt.Sprintf(spec, x)}
	case Slice:
		if spec == "%s" && scalars(x) {
			return valsToStr(x)
		}
		out := Str{s: "["}
		for k, e := range x {
			if k > 0 {
				out = out.Concat(Str{s: " "})
			}
			if sl, ok := under(i.T).(*types.Slice); ok {
				ev := e
				if _, isI := under(sl.Elem()).(*types.Interface); !isI {
					ev = Iface{T: sl.Elem(), V: e}
				}
				out = out.Concat(in.fmtArg(ev, verb, spec))
			}
		}
		return out.Concat(Str{s: "]"})
	}
	return Str{s: "<" + i.T.String() + ">"}
}

// hexDigits renders bytes as hexadecimal digits.
func (in *Interp) hexDigits(bs []*Term, upper bool) []*Term {
	P := in.pool
	var out []*Term
	for _, b := range bs {
		out = append(out, P.Hex(P.Extract(b, 4, 4), upper), P.Hex(P.Extract(b, 0, 4), upper))
	}
	return out
}

func (in *Interp) sprintf(format string, args []Value) Str {
	out := Str{}
	k := 0
	for i := 0; i < len(format); {
		if format[i] != '%' {
			j := i
			for j < len(format) && format[j] != '%' {
				j++
			}
			out = out.Concat(Str{s: format[i:j]})
			i = j
			continue
		}
		j := i + 1
		for j < len(format) && strings.IndexByte("+-# 0123456789.", format[j]) >= 0 {
			j++
		}
		if j >= len(format) {
			out = out.Concat(Str{s: "%!(NOVERB)"})
			break
		}
		verb := format[j]
		spec := format[i : j+1]
		i = j + 1
		if verb == '%' {
			out = out.Concat(Str{s: "%"})
			continue
		}
		if k >= len(args) {
			out = out.Concat(Str{s: "%!" + string(verb) + "(MISSING)"})
			continue
		}
		if verb == 'w' {
			verb = 'v'
			spec = "%v"
		}
		out = out.Concat(in.fmtArg(args[k], verb, spec))
		k++
	}
	return out
}

func sliceArgs(v Value) []Value {
	s, _ := v.(Slice)
	return s
}

// builder storage of strings.Builder: field "buf"
func builderBuf(in *Interp, v Value) Ptr {
	p, ok := v.(Ptr)
	if !ok || p == nil {
		in.tpanic("nil strings.Builder")
	}
	st := (*p).(Struct)
	return &st[1]
}

func (in *Interp) builderAdd(v Value, b []*Term) {
	p := builderBuf(in, v)
	in.store(p, in.appendVals((*p).(Slice), termsToVals(b), types.Typ[types.Uint8]))
}

func noop(v Value) intrinsicFn {
	return func(in *Interp, fn *ssa.Function, args []Value) (Value, bool) { return v, true }
}

func init() {
	intrinsics = map[string]intrinsicFn{}
	I := intrinsics
	sym := func(vs ...Value) bool {
		for _, v := range vs {
			if s, ok := v.(Str); ok && s.sym != nil {
				return true
			}
		}
		return false
	}
	// strings
	I["strings.Index"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		return mkInt(int64(in.symIndex(a[0].(Str), a[1].(Str), 0))), true
	}
	I["strings.LastIndex"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		return mkInt(int64(in.symLastIndex(a[0].(Str), a[1].(Str)))), true
	}
	I["strings.Contains"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		return mkBool(in.symIndex(a[0].(Str), a[1].(Str), 0) >= 0), true
	}
	I["strings.IndexByte"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		return mkInt(int64(in.symIndex(a[0].(Str), mkStr([]*Term{a[1].(*Term)}), 0))), true
	}
	I["internal/bytealg.IndexByteString"] = I["strings.IndexByte"]
	I["internal/stringslite.IndexByte"] = I["strings.IndexByte"]
	I["internal/stringslite.Index"] = I["strings.Index"]
	I["internal/bytealg.IndexString"] = I["strings.Index"]
	toS := func(v Value) Str { return valsToStr(v.(Slice)) }
	I["internal/bytealg.IndexByte"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		return mkInt(int64(in.symIndex(toS(a[0]), mkStr([]*Term{a[1].(*Term)}), 0))), true
	}
	I["bytes.IndexByte"] = I["internal/bytealg.IndexByte"]
	I["bytes.Index"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		return mkInt(int64(in.symIndex(toS(a[0]), toS(a[1]), 0))), true
	}
	I["bytes.Equal"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		return in.pool.EqBytes(valsToTerms(a[0].(Slice)), valsToTerms(a[1].(Slice))), true
	}
	I["internal/bytealg.Equal"] = I["bytes.Equal"]
	I["bytes.Compare"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		x, y := toS(a[0]), toS(a[1])
		return in.pool.Ite(in.eq(types.Typ[types.String], x, y), mkInt(0), in.pool.Ite(in.strLess(x, y), mkInt(-1), mkInt(1))), true
	}
	I["internal/bytealg.Compare"] = I["bytes.Compare"]
	I["strings.Compare"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		x, y := a[0].(Str), a[1].(Str)
		return in.pool.Ite(in.eq(types.Typ[types.String], x, y), mkInt(0), in.pool.Ite(in.strLess(x, y), mkInt(-1), mkInt(1))), true
	}
	I["internal/bytealg.CompareString"] = I["strings.Compare"]
	I["strings.Count"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		s, sub := a[0].(Str), a[1].(Str)
		if !sym(a...) {
			return mkInt(int64(strings.Count(s.s, sub.s))), true
		}
		if sub.Len() == 0 {
			return nil, false
		}
		n := 0
		for p := 0; ; n++ {
			k := in.symIndex(s, sub, p)
			if k < 0 {
				break
			}
			p = k + sub.Len()
		}
		return mkInt(int64(n)), true
	}
	I["internal/bytealg.CountString"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		s := a[0].(Str)
		n := 0
		for i := 0; i < s.Len(); i++ {
			if in.branch(in.pool.Eq(s.At(i), a[1].(*Term))) {
				n++
			}
		}
		return mkInt(int64(n)), true
	}
	I["internal/bytealg.Count"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		return I["internal/bytealg.CountString"](in, fn, []Value{toS(a[0]), a[1]})
	}
	I["internal/bytealg.MakeNoZero"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		n := in.concInt(a[0].(*Term), "MakeNoZero")
		s := make(Slice, n)
		fillZero(s, types.Typ[types.Uint8])
		return s, true
	}
	I["strings.Split"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		return in.symSplit(a[0].(Str), a[1].(Str), -1), true
	}
	I["strings.SplitN"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		return in.symSplit(a[0].(Str), a[1].(Str), int(in.concInt(a[2].(*Term), "SplitN"))), true
	}
	I["strings.Replace"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		n := int(in.concInt(a[3].(*Term), "Replace"))
		if !sym(a...) {
			return Str{s: strings.Replace(a[0].(Str).s, a[1].(Str).s, a[2].(Str).s, n)}, true
		}
		return in.symReplace(a[0].(Str), a[1].(Str), a[2].(Str), n), true
	}
	I["strings.ReplaceAll"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		return I["strings.Replace"](in, fn, []Value{a[0], a[1], a[2], mkInt(-1)})
	}
	I["strings.Join"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		out := Str{}
		for i, e := range a[0].(Slice) {
			if i > 0 {
				out = out.Concat(a[1].(Str))
			}
			out = out.Concat(e.(Str))
		}
		return out, true
	}
	I["strings.Repeat"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		n := in.concInt(a[1].(*Term), "Repeat")
		if n < 0 {
			in.tpanic("strings: negative Repeat count")
		}
		out := Str{}
		for i := int64(0); i < n; i++ {
			out = out.Concat(a[0].(Str))
		}
		return out, true
	}
	I["strings.TrimSpace"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		if !sym(a[0]) {
			return Str{s: strings.TrimSpace(a[0].(Str).s)}, true
		}
		return nil, false
	}
	I["strings.Clone"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) { return a[0], true }
	I["internal/stringslite.Clone"] = I["strings.Clone"]
	for _, nm := range []string{"ToLower", "ToUpper", "Title"} {
		f := map[string]func(string) string{"ToLower": strings.ToLower, "ToUpper": strings.ToUpper, "Title": strings.Title}[nm]
		I["strings."+nm] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
			if !sym(a[0]) {
				return Str{s: f(a[0].(Str).s)}, true
			}
			return nil, false
		}
	}
	I["(*strings.Builder).WriteString"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		in.builderAdd(a[0], a[1].(Str).Bytes())
		return Tuple{mkInt(int64(a[1].(Str).Len())), Iface{}}, true
	}
	I["(*strings.Builder).WriteByte"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		in.builderAdd(a[0], []*Term{a[1].(*Term)})
		return Iface{}, true
	}
	I["(*strings.Builder).WriteRune"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		s := in.runeToStr(a[1].(*Term))
		in.builderAdd(a[0], s.Bytes())
		return Tuple{mkInt(int64(s.Len())), Iface{}}, true
	}
	I["(*strings.Builder).Write"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		in.builderAdd(a[0], valsToTerms(a[1].(Slice)))
		return Tuple{mkInt(int64(len(a[1].(Slice)))), Iface{}}, true
	}
	I["(*strings.Builder).String"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		return valsToStr((*builderBuf(in, a[0])).(Slice)), true
	}
	I["(*strings.Builder).Len"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		return mkInt(int64(len((*builderBuf(in, a[0])).(Slice)))), true
	}
	I["(*strings.Builder).Grow"] = noop(nil)
	I["(*strings.Builder).Reset"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		in.store(builderBuf(in, a[0]), Slice(nil))
		return nil, true
	}
	// strconv
	I["strconv.Itoa"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		return in.symItoa(a[0].(*Term), true), true
	}
	I["strconv.FormatInt"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		if b := a[1].(*Term); b.isConst() && b.val == 10 {
			return in.symItoa(a[0].(*Term), true), true
		}
		return nil, false
	}
	I["strconv.FormatUint"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		if b := a[1].(*Term); b.isConst() && b.val == 10 {
			return in.symItoa(a[0].(*Term), false), true
		}
		return nil, false
	}
	I["strconv.ParseFloat"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		s, ok := concStr(a[0])
		if !ok {
			in.unsupported("strconv.ParseFloat of a symbolic string")
		}
		f, err := strconv.ParseFloat(s, int(a[1].(*Term).val))
		if err != nil {
			return Tuple{f, in.newErr(Str{s: err.Error()})}, true
		}
		return Tuple{f, Iface{}}, true
	}
	I["strconv.Quote"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		return Str{s: strconv.Quote(a[0].(Str).String())}, true
	}
	// fmt / log
	I["fmt.Sprintf"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		return in.sprintf(mustStr(in, a[0]), sliceArgs(a[1])), true
	}
	I["fmt.Errorf"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		f := mustStr(in, a[0])
		return in.wrapErr(f, in.sprintf(f, sliceArgs(a[1])), sliceArgs(a[1])), true
	}
	I["fmt.Sprint"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		out := Str{}
		for i, x := range sliceArgs(a[0]) {
			if i > 0 {
				_, s1 := x.(Iface).V.(Str)
				_, s2 := sliceArgs(a[0])[i-1].(Iface).V.(Str)
				if !s1 && !s2 {
					out = out.Concat(Str{s: " "})
				}
			}
			out = out.Concat(in.fmtArg(x, 'v', "%v"))
		}
		return out, true
	}
	I["fmt.Sprintln"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		out := Str{}
		for i, x := range sliceArgs(a[0]) {
			if i > 0 {
				out = out.Concat(Str{s: " "})
			}
			out = out.Concat(in.fmtArg(x, 'v', "%v"))
		}
		return out.Concat(Str{s: "\n"}), true
	}
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint"} {
		I[n] = noop(Tuple{mkInt(0), Iface{}})
	}
	for _, n := range []string{"log.Printf", "log.Println", "log.Print", "log.Output"} {
		I[n] = noop(nil)
	}
	// files (concrete paths, read only)
	I["io/ioutil.ReadFile"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		p := filepath.Clean(mustStr(in, a[0]))
		if c, ok := in.files[p]; ok {
			return Tuple{Slice(termsToVals(c.Bytes())), Iface{}}, true
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return Tuple{Slice(nil), in.newErr(Str{s: err.Error()})}, true
		}
		return Tuple{Slice(termsToVals(Str{s: string(b)}.Bytes())), Iface{}}, true
	}
	I["os.ReadFile"] = I["io/ioutil.ReadFile"]
	I["path/filepath.Join"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		var ps []string
		for _, e := range a[0].(Slice) {
			ps = append(ps, mustStr(in, e))
		}
		return Str{s: filepath.Join(ps...)}, true
	}
	// math
	m1 := func(f func(float64) float64) intrinsicFn {
		return func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) { return f(a[0].(float64)), true }
	}
	I["math.Log"] = m1(math.Log)
	I["math.Ceil"] = m1(math.Ceil)
	I["math.Floor"] = m1(math.Floor)
	I["math.Log2"] = m1(math.Log2)
	I["math.Sqrt"] = m1(math.Sqrt)
	I["math.Abs"] = m1(math.Abs)
	I["math.Exp2"] = m1(math.Exp2)
	I["math.Float64bits"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		return mkConst(64, math.Float64bits(a[0].(float64))), true
	}
	I["math.Float64frombits"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		return math.Float64frombits(a[0].(*Term).val), true
	}
	I["math.Float32bits"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		return mkConst(32, uint64(math.Float32bits(float32(a[0].(float64))))), true
	}
	I["math.Float32frombits"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		return float64(math.Float32frombits(uint32(a[0].(*Term).val))), true
	}
	I["math.Pow"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		return math.Pow(a[0].(float64), a[1].(float64)), true
	}
	// time
	I["time.runtimeNano"] = noop(mkInt(1))
	I["time.Now"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		return in.call(in.eng.lookupFunc("time", "Unix"), []Value{mkInt(1700000000), mkInt(0)}, nil), true
	}
	I["(time.Time).String"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		if st, ok := a[0].(Struct); ok {
			for _, f := range st[:2] {
				if t, ok := f.(*Term); ok && !t.isConst() {
					return Str{s: "<time>"}, true
				}
			}
		}
		return nil, false
	}
	I["time.initLocal"] = noop(nil)
	I["internal/godebug.New"] = noop(Ptr(nil))
	I["(*internal/godebug.Setting).Value"] = noop(Str{})
	I["(*internal/godebug.Setting).IncNonDefault"] = noop(nil)
	// sync
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock"} {
		I[n] = noop(nil)
	}
	I["(*sync.Once).Do"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		p := a[0].(Ptr)
		st := (*p).(Struct)
		// the first field is used as the done marker
		if c, ok := in.onceState()[p]; ok && c {
			return nil, true
		}
		_ = st
		in.onceState()[p] = true
		in.onUndo(func() { delete(in.onceState(), p) })
		in.callValue(a[1], nil)
		return nil, true
	}
	// hashes
	I["crypto/sha512.New"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		return in.newHash("sha512", in.eng.namedPtr("crypto/internal/fips140/sha512", "Digest")), true
	}
	I["crypto/sha256.New"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		return in.newHash("sha256", in.eng.namedPtr("crypto/internal/fips140/sha256", "Digest")), true
	}
	I["crypto/sha512.Sum512"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		return Array(termsToVals(in.applyHash("sha512", valsToTerms(a[0].(Slice))))), true
	}
	I["crypto/sha256.Sum256"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		return Array(termsToVals(in.applyHash("sha256", valsToTerms(a[0].(Slice))))), true
	}
	hashMethods("(*crypto/internal/fips140/sha512.Digest)")
	hashMethods("(*crypto/internal/fips140/sha256.Digest)")
	// regexp
	I["regexp.MustCompile"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		re, err := regexp.Compile(mustStr(in, a[0]))
		if err != nil {
			in.tpanic("regexp: " + err.Error())
		}
		var v Value = &Native{kind: "regexp", x: re}
		return Ptr(&v), true
	}
	I["regexp.Compile"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		re, err := regexp.Compile(mustStr(in, a[0]))
		if err != nil {
			return Tuple{Ptr(nil), in.newErr(Str{s: err.Error()})}, true
		}
		var v Value = &Native{kind: "regexp", x: re}
		return Tuple{Ptr(&v), Iface{}}, true
	}
	I["regexp.QuoteMeta"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		return Str{s: regexp.QuoteMeta(mustStr(in, a[0]))}, true
	}
	regexIntrinsics()
	moreRegexIntrinsics()
	stdlibIntrinsics()
	syncIntrinsics()
	reflectIntrinsics()
	cryptoIntrinsics()
}

func (e *Engine) namedPtr(pkg, name string) types.Type {
	for _, p := range e.prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			return types.NewPointer(p.Pkg.Scope().Lookup(name).Type())
		}
	}
	panic(pathEnd{"unsupported", "type not loaded " + pkg + "." + name})
}

func (in *Interp) onceState() map[Ptr]bool {
	m, ok := in.natStGlobal()["once"].(map[Ptr]bool)
	if !ok {
		m = map[Ptr]bool{}
		in.natStGlobal()["once"] = m
	}
	return m
}

// ---- the verification interface used by the harnesses ----

var vtIntrinsics = map[string]intrinsicFn{}

func (in *Interp) fresh(name string, w int) *Term {
	n := in.nvar
	in.nvar++
	return in.pool.Var(fmt.Sprintf("%s#%d", strings.Map(func(r rune) rune {
		if r == '|' || r == '\\' {
			return '_'
		}
		return r
	}, name), n), w)
}

func (in *Interp) record(name, kind string, v Value) {
	in.nondets = append(in.nondets, nondetRec{name, kind, v})
}

func init() {
	V := vtIntrinsics
	scalar := func(kind string, w int) intrinsicFn {
		return func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
			nm := mustStr(in, a[0])
			t := in.fresh(nm, w)
			in.record(nm, kind, t)
			return t, true
		}
	}
	V["Bool"] = scalar("bool", 0)
	V["Byte"] = scalar("byte", 8)
	V["Int"] = scalar("int", 64)
	V["Int64"] = scalar("int64", 64)
	V["Uint"] = scalar("uint", 64)
	V["Uint64"] = scalar("uint64", 64)
	V["Uint32"] = scalar("uint32", 32)
	V["IntIn"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		nm := mustStr(in, a[0])
		lo, hi := in.concInt(a[1].(*Term), "vt bound"), in.concInt(a[2].(*Term), "vt bound")
		t := in.fresh(nm, 64)
		in.record(nm, "int64", t)
		if lo < 0 || hi < lo {
			in.unsupported("vt.IntIn bounds")
		}
		if in.model != nil {
			if v := int64(in.model.v[t.name]); v < lo || v > hi {
				in.model = in.model.clone()
				in.model.v[t.name] = uint64(lo)
			}
		}
		P := in.pool
		in.addPC(P.Not(P.mk(OULt, 0, 0, t, mkInt(lo))))
		in.addPC(P.Not(P.mk(OULt, 0, 0, mkInt(hi), t)))
		P.ranges[t] = ival{uint64(lo), uint64(hi)}
		in.run.mu.Lock()
		in.run.Bounds[fmt.Sprintf("%s: %d..%d", nm, lo, hi)] = true
		in.run.mu.Unlock()
		return t, true
	}
	seq := func(in *Interp, nm, kind string, mn, mx int) []*Term {
		n := mn
		if mx > mn {
			n = mn + in.choose(mx-mn+1, "length of "+nm)
		}
		bs := make([]*Term, n)
		id := in.nvar
		in.nvar++
		for i := range bs {
			bs[i] = in.pool.Var(fmt.Sprintf("%s#%d[%d]", nm, id, i), 8)
		}
		in.record(nm, kind, bs)
		in.run.mu.Lock()
		in.run.Bounds[fmt.Sprintf("%s: %d..%d bytes", nm, mn, mx)] = true
		in.run.mu.Unlock()
		return bs
	}
	ci := func(in *Interp, v Value) int { return int(in.concInt(v.(*Term), "vt bound")) }
	V["String"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		return mkStr(seq(in, mustStr(in, a[0]), "string", ci(in, a[1]), ci(in, a[2]))), true
	}
	V["Bytes"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		bs := seq(in, mustStr(in, a[0]), "bytes", ci(in, a[1]), ci(in, a[2]))
		return Slice(termsToVals(bs)), true
	}
	V["StringOf"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		alpha := mustStr(in, a[3])
		nm := mustStr(in, a[0])
		bs := seq(in, nm, "string", ci(in, a[1]), ci(in, a[2]))
		in.run.mu.Lock()
		in.run.Bounds[fmt.Sprintf("%s over the characters %q", nm, alpha)] = true
		in.run.mu.Unlock()
		if len(bs) > 0 && in.model != nil {
			in.model = in.model.clone()
			for _, b := range bs {
				v, ok := in.model.v[b.name]
				if !ok || strings.IndexByte(alpha, byte(v)) < 0 {
					in.model.v[b.name] = uint64(alpha[0])
				}
			}
		}
		for _, b := range bs {
			in.addPC(in.alphabet(b, alpha))
		}
		return mkStr(bs), true
	}
	V["Choose"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		nm := mustStr(in, a[0])
		n := ci(in, a[1])
		k := in.choose(n, nm)
		t := mkInt(int64(k))
		in.record(nm, "choose", t)
		in.run.mu.Lock()
		in.run.Bounds[fmt.Sprintf("%s: choice of %d", nm, n)] = true
		in.run.mu.Unlock()
		return t, true
	}
	V["Assume"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		in.assumeCond(a[0].(*Term))
		return nil, true
	}
	V["Assert"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		in.assertCond(a[0].(*Term), mustStr(in, a[1]))
		return nil, true
	}
	V["Reach"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		in.natSt["reach"].(map[string]bool)[mustStr(in, a[0])] = true
		return nil, true
	}
	V["Observe"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		in.obs = append(in.obs, obsRec{mustStr(in, a[0]), copyVal(a[1])})
		return nil, true
	}
	V["Steps"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		in.stepLimit = in.eng.maxSteps * int64(ci(in, a[0]))
		return nil, true
	}
	V["MapOrder"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		in.mapMode = ci(in, a[0])
		in.run.mu.Lock()
		in.run.Bounds[fmt.Sprintf("map iteration order mode %d (0 insertion, 1 reverse, 2 every order)", in.mapMode)] = true
		in.run.mu.Unlock()
		return nil, true
	}
	V["Bound"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		in.run.mu.Lock()
		in.run.Bounds[mustStr(in, a[0])] = true
		in.run.mu.Unlock()
		return nil, true
	}
	V["Assumption"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		in.run.mu.Lock()
		in.run.Assumes[mustStr(in, a[0])] = true
		in.run.mu.Unlock()
		return nil, true
	}
	V["Thorough"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) { return mkBool(in.eng.level >= 1), true }
	V["Deep"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) { return mkBool(in.eng.level >= 2), true }
	V["Dir"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) { return Str{s: "/zz_verif_files"}, true }
	V["File"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		in.files[filepath.Join("/zz_verif_files", mustStr(in, a[0]))] = a[1].(Str)
		return nil, true
	}
	V["RepoFile"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		b, err := os.ReadFile(filepath.Join(in.eng.repo, mustStr(in, a[0])))
		if err != nil {
			in.unsupported("file of the repository: %s", err)
		}
		return Str{s: string(b)}, true
	}
	V["Symbolic"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) { return termTrue, true }
}

// alphabet gives "b is one of the characters".
func (in *Interp) alphabet(b *Term, alpha string) *Term {
	var has [256]bool
	for i := 0; i < len(alpha); i++ {
		has[alpha[i]] = true
	}
	var cs []*Term
	for lo := 0; lo < 256; lo++ {
		if !has[lo] {
			continue
		}
		hi := lo
		for hi < 255 && has[hi+1] {
			hi++
		}
		if lo == hi {
			cs = append(cs, in.pool.Eq(b, mkByte(byte(lo))))
		} else {
			c := in.pool.Not(in.pool.Bin(OULt, b, mkByte(byte(lo))))
			if hi < 255 {
				c = in.pool.And(c, in.pool.Bin(OULt, b, mkByte(byte(hi+1))))
			}
			cs = append(cs, c)
		}
		lo = hi
	}
	return in.pool.Or(cs...)
}
