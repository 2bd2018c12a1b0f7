package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func decodeRuneNative(s string) (rune, int) { return utf8.DecodeRuneInString(s) }

func (in *Interp) unop(x *ssa.UnOp, v Value) Value {
	switch x.Op {
	case token.MUL:
		return in.load(v)
	case token.NOT:
		return in.pool.Not(v.(*Term))
	case token.SUB:
		switch y := v.(type) {
		case *Term:
			return in.pool.Neg(y)
		case float64:
			return -y
		case complex128:
			return -y
		}
	case token.XOR:
		return in.pool.BNot(v.(*Term))
	}
	in.unsupported("unop %s on %T", x.Op, v)
	return nil
}

// eq gives the equality of two values of static type t.
func (in *Interp) eq(t types.Type, a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		return in.pool.Eq(x, b.(*Term))
	case Str:
		y := b.(Str)
		if x.Len() != y.Len() {
			return termFalse
		}
		if x.sym == nil && y.sym == nil {
			return mkBool(x.s == y.s)
		}
		return in.pool.EqBytes(x.Bytes(), y.Bytes())
	case float64:
		return mkBool(x == b.(float64))
	case complex128:
		return mkBool(x == b.(complex128))
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			in.unsupported("eq iface %T", b)
		}
		if x.T == nil || y.T == nil {
			return mkBool(x.T == nil && y.T == nil)
		}
		if x.T != y.T && !types.Identical(x.T, y.T) {
			return termFalse
		}
		if !types.Comparable(x.T) {
			in.tpanic("runtime error: comparing uncomparable type " + x.T.String())
		}
		return in.eq(x.T, x.V, y.V)
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			return termFalse
		}
		return mkBool(x == y)
	case *Map:
		y, _ := b.(*Map)
		return mkBool(x == y)
	case *Closure:
		y, _ := b.(*Closure)
		return mkBool(x == y)
	case *Native:
		y, _ := b.(*Native)
		return mkBool(x == y)
	case Slice:
		y := b.(Slice)
		if x != nil && y != nil {
			in.unsupported("slice comparison")
		}
		return mkBool(x == nil && y == nil)
	case Struct:
		y := b.(Struct)
		st, _ := under(t).(*types.Struct)
		cs := make([]*Term, 0, len(x))
		for i := range x {
			var ft types.Type
			if st != nil {
				if st.Field(i).Name() == "_" {
					continue
				}
				ft = st.Field(i).Type()
			}
			cs = append(cs, in.eq(ft, x[i], y[i]))
		}
		return in.pool.And(cs...)
	case Array:
		y := b.(Array)
		if len(x) > 0 {
			if tx, ok := x[0].(*Term); ok && tx.w == 8 && scalars(x) && scalars(y) {
				return in.pool.EqBytes(valsToTerms(x), valsToTerms(y))
			}
		}
		cs := make([]*Term, 0, len(x))
		for i := range x {
			cs = append(cs, in.eq(nil, x[i], y[i]))
		}
		return in.pool.And(cs...)
	case nil:
		return mkBool(b == nil)
	}
	in.unsupported("eq on %T", a)
	return nil
}

func (in *Interp) strLess(a, b Str) *Term {
	if a.sym == nil && b.sym == nil {
		return mkBool(a.s < b.s)
	}
	n := min(a.Len(), b.Len())
	r := mkBool(a.Len() < b.Len())
	for i := n - 1; i >= 0; i-- {
		x, y := a.At(i), b.At(i)
		r = in.pool.Or(in.pool.Bin(OULt, x, y), in.pool.And(in.pool.Eq(x, y), r))
	}
	return r
}

func (in *Interp) binop(op token.Token, tx, ty types.Type, a, b Value) Value {
	switch op {
	case token.EQL:
		return in.eqMixed(tx, ty, a, b)
	case token.NEQ:
		return in.pool.Not(in.eqMixed(tx, ty, a, b))
	}
	switch x := a.(type) {
	case Str:
		y := b.(Str)
		switch op {
		case token.ADD:
			return x.Concat(y)
		case token.LSS:
			return in.strLess(x, y)
		case token.GTR:
			return in.strLess(y, x)
		case token.LEQ:
			return in.pool.Not(in.strLess(y, x))
		case token.GEQ:
			return in.pool.Not(in.strLess(x, y))
		}
	case float64:
		y := b.(float64)
		switch op {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		case token.QUO:
			return x / y
		case token.LSS:
			return mkBool(x < y)
		case token.LEQ:
			return mkBool(x <= y)
		case token.GTR:
			return mkBool(x > y)
		case token.GEQ:
			return mkBool(x >= y)
		}
	case *Term:
		y := b.(*Term)
		sg := isSigned(tx)
		P := in.pool
		switch op {
		case token.ADD:
			return P.Bin(OAdd, x, y)
		case token.SUB:
			return P.Bin(OSub, x, y)
		case token.MUL:
			return P.Bin(OMul, x, y)
		case token.QUO, token.REM:
			if in.branch(P.Eq(y, mkConst(int(y.w), 0))) {
				in.tpanic("runtime error: integer divide by zero")
			}
			o := OUDiv
			switch {
			case op == token.QUO && sg:
				o = OSDiv
			case op == token.REM && sg:
				o = OSRem
			case op == token.REM:
				o = OURem
			}
			return P.Bin(o, x, y)
		case token.AND:
			if x.w == 0 {
				return P.And(x, y)
			}
			return P.Bin(OBAnd, x, y)
		case token.OR:
			if x.w == 0 {
				return P.Or(x, y)
			}
			return P.Bin(OBOr, x, y)
		case token.XOR:
			return P.Bin(OBXor, x, y)
		case token.AND_NOT:
			return P.Bin(OBAnd, x, P.BNot(y))
		case token.SHL, token.SHR:
			o := OShl
			if op == token.SHR {
				o = OLShr
				if sg {
					o = OAShr
				}
			}
			if isSigned(ty) {
				if in.branch(P.Bin(OSLt, y, mkConst(int(y.w), 0))) {
					in.tpanic("runtime error: negative shift amount")
				}
			}
			w := int(x.w)
			if y.isConst() {
				c := y.val
				if c > uint64(w) {
					c = uint64(w)
				}
				if w < 8 {
					in.unsupported("shift width")
				}
				return P.Bin(o, x, mkConst(w, c))
			}
			var cnt *Term
			if int(y.w) <= w {
				cnt = P.ZExt(y, w)
			} else {
				cnt = P.Ite(P.Bin(OULt, y, mkConst(int(y.w), uint64(w))), P.Extract(y, 0, w), mkConst(w, uint64(w)))
			}
			return P.Bin(o, x, cnt)
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			lt, le := OULt, OULe
			if sg {
				lt, le = OSLt, OSLe
			}
			switch op {
			case token.LSS:
				return P.Bin(lt, x, y)
			case token.GTR:
				return P.Bin(lt, y, x)
			case token.LEQ:
				return P.Bin(le, x, y)
			default:
				return P.Bin(le, y, x)
			}
		}
	}
	in.unsupported("binop %s on %T", op, a)
	return nil
}

func (in *Interp) eqMixed(tx, ty types.Type, a, b Value) *Term {
	// interface compared with a concrete value
	_, ia := under(tx).(*types.Interface)
	_, ib := under(ty).(*types.Interface)
	if ia && !ib {
		b = Iface{T: ty, V: b}
		if bb, ok := under(ty).(*types.Basic); ok && bb.Kind() == types.UntypedNil {
			b = Iface{}
		}
	} else if ib && !ia {
		a = Iface{T: tx, V: a}
		if bb, ok := under(tx).(*types.Basic); ok && bb.Kind() == types.UntypedNil {
			a = Iface{}
		}
	}
	return in.eq(tx, a, b)
}

func (in *Interp) convert(from, to types.Type, v Value) Value {
	uf, ut := under(from), under(to)
	if _, ok := ut.(*types.Interface); ok {
		return v
	}
	fw, tw := intWidth(uf), intWidth(ut)
	switch {
	case fw > 0 && tw > 0:
		t, ok := v.(*Term)
		if !ok {
			return v // uintptr carrying a pointer
		}
		if tw < fw {
			return in.pool.Extract(t, 0, tw)
		}
		if tw == fw {
			return t
		}
		if isSigned(uf) {
			return in.pool.SExt(t, tw)
		}
		return in.pool.ZExt(t, tw)
	case fw > 0 && isFloat(ut):
		t := v.(*Term)
		if !t.isConst() {
			in.unsupported("symbolic int to float")
		}
		if isSigned(uf) {
			return float64(t.sval())
		}
		return float64(t.val)
	case isFloat(uf) && tw > 0:
		f := v.(float64)
		if isSigned(ut) {
			return mkConst(tw, uint64(int64(f)))
		}
		return mkConst(tw, uint64(f))
	case isFloat(uf) && isFloat(ut):
		if b := ut.(*types.Basic); b.Kind() == types.Float32 {
			return float64(float32(v.(float64)))
		}
		return v
	case isString(ut):
		switch x := v.(type) {
		case Str:
			return x
		case Slice:
			et := under(uf.(*types.Slice).Elem()).(*types.Basic)
			if intWidth(et) == 8 {
				return valsToStr(x)
			}
			out := Str{}
			for _, r := range x {
				out = out.Concat(in.runeToStr(r.(*Term)))
			}
			return out
		case *Term:
			if int(x.w) != 32 {
				if x.isConst() {
					i := x.sval()
					if i < 0 || i > utf8.MaxRune {
						return Str{s: "\uFFFD"}
					}
					return Str{s: string(rune(i))}
				}
				x2 := in.to64(x, from)
				if !in.branch(in.pool.Bin(OULt, x2, mkInt(utf8.MaxRune+1))) {
					return Str{s: "\uFFFD"}
				}
				x = in.pool.Extract(x2, 0, 32)
			}
			return in.runeToStr(x)
		}
	case isString(uf):
		if sl, ok := ut.(*types.Slice); ok {
			s := v.(Str)
			if intWidth(sl.Elem()) == 8 {
				if s.Len() == 0 {
					return Slice(make([]Value, 0))
				}
				c := roundSize(s.Len())
				out := make(Slice, c)
				copy(out, termsToVals(s.Bytes()))
				fillZero(out[s.Len():], sl.Elem())
				return out[:s.Len()]
			}
			out := Slice{}
			for p := 0; p < s.Len(); {
				r, n := in.decodeRune(s, p)
				out = append(out, r)
				p += n
			}
			return out
		}
	}
	if b, ok := ut.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return v
	}
	if b, ok := uf.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return v
	}
	if _, ok := v.(complex128); ok {
		return v
	}
	if sl, ok := uf.(*types.Slice); ok {
		if at, ok := ut.(*types.Array); ok {
			_ = sl
			s := v.(Slice)
			if int64(len(s)) < at.Len() {
				in.tpanic("runtime error: cannot convert slice to array")
			}
			return copyVal(Array(s[:at.Len()]))
		}
	}
	if types.Identical(uf, ut) {
		return v
	}
	in.unsupported("convert %s to %s (%T)", from, to, v)
	return nil
}

func (in *Interp) runeToStr(r *Term) Str {
	if r.isConst() {
		return Str{s: string(rune(int32(r.val)))}
	}
	if in.branch(in.pool.Bin(OULt, r, mkConst(32, 0x80))) {
		return mkStr([]*Term{in.pool.Extract(r, 0, 8)})
	}
	f := in.eng.lookupFunc("unicode/utf8", "AppendRune")
	s := in.call(f, []Value{Slice(make([]Value, 0)), r}, nil).(Slice)
	return valsToStr(s)
}

func f64bits(f float64) uint64 { return math.Float64bits(f) }

var _ = fmt.Sprint
