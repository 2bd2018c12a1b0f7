package b01

import (
	"time"

	"github.com/steve-care-software/steve/domain/genesis"
	"github.com/steve-care-software/steve/domain/hash"
	"github.com/steve-care-software/steve/zz_verif/hx"
	"github.com/steve-care-software/steve/zz_verif/hx/fk"
	"github.com/steve-care-software/steve/zz_verif/vt"
)

// HContentValid: a unit content is built exactly for a positive amount, a nonce, and an activation that is not before the creation.
func HContentValid() {
	b := genesis.NewUnitContentBuilder().Create()
	if vt.Bool("dirty") {
		b = b.WithAmount(1).WithNonce("x").ActivatedOn(time.Unix(1000000000, 0)).CreatedOn(time.Unix(1000000000, 0)).Create()
	}
	amount := vt.Uint("amount")
	nonce := hx.Text("nonce", 0, 2)
	act := hx.Time("activated")
	cre := hx.Time("created")
	hasAmount, hasNonce, hasAct, hasCre := vt.Bool("has-amount"), vt.Bool("has-nonce"), vt.Bool("has-activated"), vt.Bool("has-created")
	if hasAmount {
		b = b.WithAmount(amount)
	}
	if hasNonce {
		b = b.WithNonce(nonce)
	}
	if hasAct {
		b = b.ActivatedOn(act)
	}
	if hasCre {
		b = b.CreatedOn(cre)
	}
	c, err := b.Now()
	valid := hasAmount && amount > 0 && hasNonce && nonce != "" && hasAct && hasCre
	if valid && (act.Unix() < cre.Unix() || act.Unix() == cre.Unix() && act.Nanosecond() < cre.Nanosecond()) {
		valid = false
		vt.Reach("activated-before-created")
	}
	vt.Assert((err == nil) == valid, "built-iff-valid")
	if err != nil {
		vt.Assert(c == nil, "no-value-with-error")
		vt.Reach("refused")
		return
	}
	vt.Assert(c.Amount() == amount, "amount-kept")
	vt.Assert(c.Nonce() == nonce, "nonce-kept")
	vt.Assert(hx.Same(c.ActivatedOn(), act), "activation-kept")
	vt.Assert(hx.Same(c.CreatedOn(), cre), "creation-kept")
	vt.Reach("built")
}

func content(amount uint, nonce string, act, cre time.Time) genesis.UnitContent {
	c, err := genesis.NewUnitContentBuilder().Create().WithAmount(amount).WithNonce(nonce).ActivatedOn(act).CreatedOn(cre).Now()
	vt.Assume(err == nil)
	return c
}

// HContentHash: two unit contents have the same hash exactly when they carry the same data.
func HContentHash() {
	a1, a2 := vt.Uint("amount-1"), vt.Uint("amount-2")
	max, long := uint(100000), 3
	if vt.Thorough() {
		max, long = 10000000000, 4
	}
	vt.Assume(a1 > 0 && a1 < max && a2 > 0 && a2 < max)
	n1, n2 := hx.Texts("nonce", 1, long)
	c1, c2 := hx.Time("created-1"), hx.Time("created-2")
	t1, t2 := hx.Time("activated-1"), hx.Time("activated-2")
	x := content(a1, n1, t1, c1)
	y := content(a2, n2, t2, c2)
	same := a1 == a2 && n1 == n2 && hx.Same(t1, t2) && hx.Same(c1, c2)
	vt.Assert(x.Hash().Compare(y.Hash()) == same, "hash-binds-content")
	if same {
		vt.Reach("same")
	} else {
		vt.Reach("different")
	}
}

// HUnit: a unit needs its content and its owner, keeps both, and its hash identifies both.
func HUnit() {
	c1, c2, o1, o2 := hx.Hash("content-1"), hx.Hash("content-2"), hx.Hash("owner-1"), hx.Hash("owner-2")
	hasC, hasO := vt.Bool("has-content"), vt.Bool("has-owner")
	b := genesis.NewUnitBuilder().Create()
	if vt.Bool("dirty") {
		b = b.WithContent(fk.UnitContent(c2)).WithOwner(fk.Ring(o2)).Create()
	}
	if hasC {
		b = b.WithContent(fk.UnitContent(c1))
	}
	if hasO {
		b = b.WithOwner(fk.Ring(o1))
	}
	x, err := b.Now()
	vt.Assert((err == nil) == (hasC && hasO), "built-iff-complete")
	if err != nil {
		vt.Reach("refused")
		return
	}
	vt.Assert(x.Content().Hash() == c1, "content-kept")
	vt.Assert(x.Owner().Hash() == o1, "owner-kept")
	y, err := genesis.NewUnitBuilder().Create().WithContent(fk.UnitContent(c2)).WithOwner(fk.Ring(o2)).Now()
	vt.Assert(err == nil, "built")
	same := c1 == c2 && o1 == o2
	vt.Assert(x.Hash().Compare(y.Hash()) == same, "hash-binds-unit")
	if same {
		vt.Reach("same")
	} else {
		vt.Reach("different")
	}
}

// HUnits: the list of units.
func HUnits() {
	hx.List(func(m []hash.Hash) (*hash.Hash, []hash.Hash, error) {
		l := []genesis.Unit{}
		for _, h := range m {
			l = append(l, fk.Unit(h, nil))
		}
		u, err := genesis.NewUnitsBuilder().Create().WithList(l).Now()
		if err != nil {
			return nil, nil, err
		}
		k := []hash.Hash{}
		for _, v := range u.All() {
			k = append(k, v.Hash())
		}
		h := u.Hash()
		return &h, k, nil
	})
}

func dated(h hash.Hash, created time.Time) genesis.Unit {
	c := content(1, "n", created, created)
	return fk.Unit(h, c)
}

// HGenesisValid: a genesis needs units, fees and a creation time that is not after the creation of any unit.
func HGenesisValid() {
	n := vt.Choose("units", 4)
	l := []genesis.Unit{}
	times := []time.Time{}
	for i := 0; i < n; i++ {
		t := hx.Time("unit-created")
		times = append(times, t)
		u := dated(hx.HashOf("unit"), t)
		if i == 0 {
			u = fk.Unit(hx.HashOf("unit"), content(1, "n", time.Unix(8589934592, 0), t))
		}
		l = append(l, u)
	}
	fees := vt.Uint("fees")
	cre := hx.Time("created")
	hasFees, hasCre := vt.Bool("has-fees"), vt.Bool("has-created")
	b := genesis.NewBuilder().Create()
	var units genesis.Units
	if n > 0 {
		u, err := genesis.NewUnitsBuilder().Create().WithList(l).Now()
		vt.Assert(err == nil, "units")
		if vt.Bool("dirty") {
			b = b.WithUnits(u).WithFees(1).CreatedOn(time.Unix(1000000000, 0)).Create()
		}
		units = u
		b = b.WithUnits(u)
	}
	if hasFees {
		b = b.WithFees(fees)
	}
	if hasCre {
		b = b.CreatedOn(cre)
	}
	g, err := b.Now()
	valid := n > 0 && hasFees && hasCre
	if valid {
		for _, t := range times {
			if t.Unix() < cre.Unix() || t.Unix() == cre.Unix() && t.Nanosecond() < cre.Nanosecond() {
				valid = false
			}
		}
		if !valid {
			vt.Reach("unit-older-than-genesis")
		}
	}
	vt.Assert((err == nil) == valid, "built-iff-valid")
	if err != nil {
		vt.Reach("refused")
		return
	}
	vt.Assert(g.Fees() == fees, "fees-kept")
	vt.Assert(hx.Same(g.CreatedOn(), cre), "creation-kept")
	vt.Assert(g.Units().Hash() == units.Hash(), "units-kept")
	vt.Reach("built")
}

// HGenesisHash: two geneses have the same hash exactly when they carry the same units, fees and creation time.
func HGenesisHash() {
	max := uint(100000)
	if vt.Thorough() {
		max = 10000000000
	}
	f1, f2 := vt.Uint("fees-1"), vt.Uint("fees-2")
	vt.Assume(f1 < max && f2 < max)
	u1, u2 := hx.HashOf("unit-1"), hx.HashOf("unit-2")
	c1, c2 := hx.Time("created-1"), hx.Time("created-2")
	late := time.Unix(8589934592, 0)
	mk := func(u hash.Hash, f uint, c time.Time) genesis.Genesis {
		us, err := genesis.NewUnitsBuilder().Create().WithList([]genesis.Unit{dated(u, late)}).Now()
		vt.Assume(err == nil)
		g, err := genesis.NewBuilder().Create().WithUnits(us).WithFees(f).CreatedOn(c).Now()
		vt.Assert(err == nil, "built")
		return g
	}
	x, y := mk(u1, f1, c1), mk(u2, f2, c2)
	same := f1 == f2 && u1 == u2 && hx.Same(c1, c2)
	vt.Assert(x.Hash().Compare(y.Hash()) == same, "hash-binds-genesis")
	if same {
		vt.Reach("same")
	} else {
		vt.Reach("different")
	}
}

// Quick: the quick tier has the larger bounds too.
const Quick = 1
