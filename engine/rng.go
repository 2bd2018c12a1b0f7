package main

import "math/bits"

// ---- interval analysis over declared variable bounds ----

type ival struct{ lo, hi uint64 }

// rng gives the unsigned range of a bit-vector term of at most 64 bits.
func (p *Pool) rng(t *Term) ival {
	if t.isConst() {
		return ival{t.val, t.val}
	}
	if t.w <= 0 || t.w > 64 {
		return ival{0, ^uint64(0)}
	}
	if r, ok := p.ranges[t]; ok {
		return r
	}
	r := p.rng1(t)
	p.ranges[t] = r
	return r
}

func (p *Pool) rng1(t *Term) ival {
	m := mask(int(t.w))
	full := ival{0, m}
	switch t.op {
	case OZExt:
		return p.rng(t.args[0])
	case OSExt:
		a := p.rng(t.args[0])
		if a.hi < 1<<(uint(t.args[0].w)-1) {
			return a
		}
	case OHex:
		return ival{'0', 'f'}
	case OExtract:
		if t.args[0].w <= 64 && t.lo == 0 {
			a := p.rng(t.args[0])
			if a.hi <= m {
				return a
			}
		}
	case OAdd:
		a, b := p.rng(t.args[0]), p.rng(t.args[1])
		hi, c := bits.Add64(a.hi, b.hi, 0)
		if c == 0 && hi <= m {
			return ival{a.lo + b.lo, hi}
		}
		// adding a negative constant
		if t.args[1].isConst() {
			k := (-t.args[1].val) & m
			if a.lo >= k {
				return ival{a.lo - k, a.hi - k}
			}
		}
	case OSub:
		a, b := p.rng(t.args[0]), p.rng(t.args[1])
		if a.lo >= b.hi {
			return ival{a.lo - b.hi, a.hi - b.lo}
		}
	case OMul:
		a, b := p.rng(t.args[0]), p.rng(t.args[1])
		h, l := bits.Mul64(a.hi, b.hi)
		if h == 0 && l <= m {
			return ival{a.lo * b.lo, l}
		}
	case OUDiv:
		if t.args[1].isConst() && t.args[1].val != 0 {
			a := p.rng(t.args[0])
			return ival{a.lo / t.args[1].val, a.hi / t.args[1].val}
		}
	case OURem:
		if t.args[1].isConst() && t.args[1].val != 0 {
			a := p.rng(t.args[0])
			if a.hi < t.args[1].val {
				return a
			}
			return ival{0, t.args[1].val - 1}
		}
	case OBAnd:
		a, b := p.rng(t.args[0]), p.rng(t.args[1])
		return ival{0, min(a.hi, b.hi)}
	case OLShr:
		if t.args[1].isConst() && t.args[1].val < 64 {
			a := p.rng(t.args[0])
			return ival{a.lo >> t.args[1].val, a.hi >> t.args[1].val}
		}
	case OIte:
		a, b := p.rng(t.args[1]), p.rng(t.args[2])
		return ival{min(a.lo, b.lo), max(a.hi, b.hi)}
	}
	return full
}

// rngCmp decides a comparison from ranges (nil: undecided).
func (p *Pool) rngCmp(op Op, a, b *Term) *Term {
	if len(p.ranges) == 0 || a.w <= 0 || a.w > 64 {
		return nil
	}
	if op == OULt && a.op == OAdd {
		for k := 0; k < 2; k++ {
			if same(a.args[k], b) {
				u, v := p.rng(a.args[0]), p.rng(a.args[1])
				if hi, c := bits.Add64(u.hi, v.hi, 0); c == 0 && hi <= mask(int(a.w)) {
					return termFalse // no wrap-around
				}
			}
		}
	}
	if op == OULt && b.op == OMul && b.args[1].isConst() && b.args[1].val == 10 && len(p.decOf) > 0 {
		// a number is not below its leading digits followed by a zero
		r, ok := p.prefixOf[b.args[0]]
		if !ok {
			r, ok = p.digitOf(b.args[0])
			ok = ok && r.idx == 0
		}
		if ok && r.idx == len(r.d.ds)-2 && same(r.d.t, a) {
			return termFalse
		}
	}
	x, y := p.rng(a), p.rng(b)
	if op == OSLt {
		half := uint64(1) << (uint(a.w) - 1)
		neg := func(v ival) int {
			if v.hi < half {
				return 0
			}
			if v.lo >= half {
				return 1
			}
			return 2
		}
		na, nb := neg(x), neg(y)
		if na == 2 || nb == 2 {
			return nil
		}
		if na != nb {
			return mkBool(na == 1)
		}
	}
	if x.hi < y.lo {
		return termTrue
	}
	if x.lo >= y.hi {
		return termFalse
	}
	return nil
}

// mixedRadix splits s*c + n when n < c and nothing wraps.
func (p *Pool) mixedRadix(t *Term) (s *Term, c uint64, n *Term) {
	if t.op != OAdd {
		return nil, 0, nil
	}
	for k := 0; k < 2; k++ {
		m, n := t.args[k], t.args[1-k]
		if m.op != OMul || !m.args[1].isConst() {
			continue
		}
		c := m.args[1].val
		rn, rs := p.rng(n), p.rng(m.args[0])
		h, l := bits.Mul64(rs.hi, c)
		_, carry := bits.Add64(l, rn.hi, 0)
		if h == 0 && carry == 0 && rn.hi < c && l+rn.hi <= mask(int(t.w)) {
			return m.args[0], c, n
		}
	}
	return nil, 0, nil
}

// digitOf recognises the value of a decimal digit of a rendered number.
func (p *Pool) digitOf(t *Term) (decRef, bool) {
	if len(p.decOf) == 0 || t.w != 64 {
		return decRef{}, false
	}
	if t.op == OZExt {
		x := t.args[0]
		if x.w == 8 && x.op == OAdd && x.args[1].isConst() && x.args[1].val == 256-'0' {
			r, ok := p.decOf[x.args[0]]
			return r, ok
		}
	}
	if t.op == OAdd && t.args[1].isConst() && t.args[1].val == ^uint64(0)-'0'+1 && t.args[0].op == OZExt {
		r, ok := p.decOf[t.args[0].args[0]]
		return r, ok
	}
	return decRef{}, false
}

// horner reads a number back from its decimal digits: ((d0*10 + d1)*10 + ...) + dn is the number itself.
func (p *Pool) horner(a, b *Term) *Term {
	if p.noHorner || len(p.decOf) == 0 || a.w != 64 {
		return nil
	}
	for k := 0; k < 2; k++ {
		m, y := a, b
		if k == 1 {
			m, y = b, a
		}
		if m.op != OMul || !m.args[1].isConst() || m.args[1].val != 10 {
			continue
		}
		ry, ok := p.digitOf(y)
		if !ok {
			continue
		}
		rx, ok := p.prefixOf[m.args[0]]
		if !ok {
			rx, ok = p.digitOf(m.args[0])
			if !ok || rx.idx != 0 {
				continue
			}
		}
		if rx.d != ry.d || ry.idx != rx.idx+1 {
			continue
		}
		if ry.idx == len(ry.d.ds)-1 {
			return ry.d.t
		}
		t := p.mk(OAdd, 64, 0, a, b)
		p.prefixOf[t] = ry
		return t
	}
	return nil
}
