// Package b02 checks owner rings.
package b02

import (
	"github.com/steve-care-software/steve/domain/hash"
	"github.com/steve-care-software/steve/domain/rings"
	"github.com/steve-care-software/steve/zz_verif/hx"
	"github.com/steve-care-software/steve/zz_verif/hx/fk"
	"github.com/steve-care-software/steve/zz_verif/vt"
)

// HRing: a ring is built exactly when its size is within the builder's limits; it keeps its members in order.
func HRing() {
	max := 3
	if vt.Thorough() {
		max = 5
	}
	if vt.Deep() {
		max = 8
	}
	lo, hi := vt.Uint("min"), vt.Uint("max")
	n := vt.Choose("size", max+2)
	if n > max {
		n = []int{9, 17, 33, 260}[vt.Choose("many", 4)]
	}
	l := hx.Hashes("member", n)
	cp := append([]hash.Hash{}, l...)
	b := rings.NewRingBuilder(lo, hi)
	if vt.Bool("dirty") {
		b = b.WithList(hx.Hashes("dirt", 2)).Create()
	} else {
		b = b.Create()
	}
	given := vt.Bool("given")
	if given {
		b = b.WithList(l)
	}
	r, err := b.Now()
	valid := given && lo <= uint(n) && uint(n) <= hi
	vt.Assert((err == nil) == valid, "built-iff-size-allowed")
	if err != nil {
		vt.Assert(r == nil, "no-value-with-error")
		vt.Reach("refused")
		return
	}
	vt.Assert(hx.EqualLists(r.List(), cp), "members-kept")
	vt.Assert(hx.EqualLists(l, cp), "input-untouched")
	vt.Reach("built")
}

// HRingHash: the hash of a ring identifies its members and their order.
func HRingHash() {
	max := 3
	if vt.Thorough() {
		max = 4
	}
	if vt.Deep() {
		max = 6
	}
	x, y := hx.Hashes("member-1", 1+vt.Choose("size-1", max)), hx.Hashes("member-2", 1+vt.Choose("size-2", max))
	mk := func(l []hash.Hash) rings.Ring {
		r, err := rings.NewRingBuilder(0, 9).Create().WithList(l).Now()
		vt.Assert(err == nil, "built")
		return r
	}
	vt.Assert(mk(x).Hash().Compare(mk(y).Hash()) == hx.EqualLists(x, y), "hash-binds-members")
	if hx.EqualLists(x, y) {
		vt.Reach("same")
	} else {
		vt.Reach("different")
	}
}

// HRings: the list of rings.
func HRings() {
	hx.List(func(m []hash.Hash) (*hash.Hash, []hash.Hash, error) {
		l := []rings.Ring{}
		for _, h := range m {
			l = append(l, fk.Ring(h))
		}
		u, err := rings.NewBuilder().Create().WithList(l).Now()
		if err != nil {
			return nil, nil, err
		}
		k := []hash.Hash{}
		for _, v := range u.List() {
			k = append(k, v.Hash())
		}
		h := u.Hash()
		return &h, k, nil
	})
}

// HRingMany: the same for large rings.
func HRingMany() {
	hx.Many(func(m []hash.Hash) (*hash.Hash, []hash.Hash, error) {
		r, err := rings.NewRingBuilder(0, 1000).Create().WithList(m).Now()
		if err != nil {
			return nil, nil, err
		}
		h := r.Hash()
		return &h, r.List(), nil
	})
}

// Quick: the quick tier has the larger bounds too.
const Quick = 1
