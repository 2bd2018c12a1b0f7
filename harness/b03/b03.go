// Package b03 checks transactions, their contents and their origins.
package b03

import (
	"time"

	"github.com/steve-care-software/steve/domain/hash"
	"github.com/steve-care-software/steve/domain/transactions"
	"github.com/steve-care-software/steve/zz_verif/hx"
	"github.com/steve-care-software/steve/zz_verif/hx/fk"
	"github.com/steve-care-software/steve/zz_verif/vt"
)

// HContentValid: a content is built exactly when its five parts are given, and keeps them.
func HContentValid() {
	o, a, g, e := hx.Hash("owner"), hx.Hash("amount"), hx.Hash("origin"), hx.Hash("external")
	t := hx.Time("created")
	b := transactions.NewContentBuilder().Create()
	if vt.Bool("dirty") {
		b = b.WithOwner(fk.Ring(o)).WithAmount(a).WithOrigin(fk.Origin(g)).WithExternal(e).CreatedOn(t).Create()
	}
	has := [5]bool{vt.Bool("has-owner"), vt.Bool("has-amount"), vt.Bool("has-origin"), vt.Bool("has-external"), vt.Bool("has-created")}
	if has[0] {
		b = b.WithOwner(fk.Ring(o))
	}
	if has[1] {
		b = b.WithAmount(a)
	}
	if has[2] {
		b = b.WithOrigin(fk.Origin(g))
	}
	if has[3] {
		b = b.WithExternal(e)
	}
	if has[4] {
		b = b.CreatedOn(t)
	}
	c, err := b.Now()
	vt.Assert((err == nil) == (has[0] && has[1] && has[2] && has[3] && has[4]), "built-iff-complete")
	if err != nil {
		vt.Assert(c == nil, "no-value-with-error")
		vt.Reach("refused")
		return
	}
	vt.Assert(c.Owner().Hash() == o, "owner-kept")
	vt.Assert(c.Amount() == a, "amount-kept")
	vt.Assert(c.Origin().Hash() == g, "origin-kept")
	vt.Assert(c.External() == e, "external-kept")
	vt.Assert(hx.Same(c.CreatedOn(), t), "creation-kept")
	vt.Reach("built")
}

func content(o, a, g, e hash.Hash, t time.Time) transactions.Content {
	c, err := transactions.NewContentBuilder().Create().WithOwner(fk.Ring(o)).WithAmount(a).WithOrigin(fk.Origin(g)).WithExternal(e).CreatedOn(t).Now()
	vt.Assume(err == nil)
	return c
}

// HContentHash: the hash of a content identifies its parts; the creation counts in whole seconds.
func HContentHash() {
	o1, a1, g1, e1, t1 := hx.Hash("owner-1"), hx.Hash("amount-1"), hx.Hash("origin-1"), hx.Hash("external-1"), hx.Seconds("created-1")
	o2, a2, g2, e2, t2 := hx.Hash("owner-2"), hx.Hash("amount-2"), hx.Hash("origin-2"), hx.Hash("external-2"), hx.Seconds("created-2")
	x, y := content(o1, a1, g1, e1, t1), content(o2, a2, g2, e2, t2)
	same := o1 == o2 && a1 == a2 && g1 == g2 && e1 == e2 && t1.Unix() == t2.Unix()
	vt.Assert(x.Hash().Compare(y.Hash()) == same, "hash-binds-content")
	if same {
		vt.Reach("same")
	} else {
		vt.Reach("different")
	}
}

// HTransaction: a transaction needs its content and its authorization, keeps both, and its hash identifies both.
func HTransaction() {
	c1, c2 := hx.Hash("content-1"), hx.Hash("content-2")
	s1, s2 := hx.Texts("authorization", 0, 3)
	hasC, hasA := vt.Bool("has-content"), vt.Bool("has-authorization")
	b := transactions.NewTransactionBuilder().Create()
	if vt.Bool("dirty") {
		b = b.WithContent(fk.Content(c2)).WithAuthorization(fk.RingSig(s2)).Create()
	}
	if hasC {
		b = b.WithContent(fk.Content(c1))
	}
	if hasA {
		b = b.WithAuthorization(fk.RingSig(s1))
	}
	x, err := b.Now()
	vt.Assert((err == nil) == (hasC && hasA), "built-iff-complete")
	if err != nil {
		vt.Reach("refused")
		return
	}
	vt.Assert(x.Content().Hash() == c1, "content-kept")
	vt.Assert(x.Authorization().String() == s1, "authorization-kept")
	y, err := transactions.NewTransactionBuilder().Create().WithContent(fk.Content(c2)).WithAuthorization(fk.RingSig(s2)).Now()
	vt.Assert(err == nil, "built")
	if len(s1) == 0 || len(s2) == 0 {
		// a 64-byte text passes through the hash function
		return
	}
	same := c1 == c2 && s1 == s2
	vt.Assert(x.Hash().Compare(y.Hash()) == same, "hash-binds-transaction")
	if same {
		vt.Reach("same")
	} else {
		vt.Reach("different")
	}
}

// HTransactions: the list of transactions.
func HTransactions() {
	hx.List(func(m []hash.Hash) (*hash.Hash, []hash.Hash, error) {
		l := []transactions.Transaction{}
		for _, h := range m {
			l = append(l, fk.Trx(h))
		}
		u, err := transactions.NewBuilder().Create().WithList(l).Now()
		if err != nil {
			return nil, nil, err
		}
		k := []hash.Hash{}
		for _, v := range u.List() {
			k = append(k, v.Hash())
		}
		h := u.Hash()
		return &h, k, nil
	})
}

// HOrigin: an origin is either a genesis unit or a transaction and carries its hash.
func HOrigin() {
	g, t := hx.Hash("genesis"), hx.Hash("transaction")
	hasG, hasT := vt.Bool("has-genesis"), vt.Bool("has-transaction")
	b := transactions.NewOriginBuilder().Create()
	if vt.Bool("dirty") {
		b = b.WithGenesis(fk.Unit(g, nil)).WithTransaction(fk.Trx(t)).Create()
	}
	if hasG {
		b = b.WithGenesis(fk.Unit(g, nil))
	}
	if hasT {
		b = b.WithTransaction(fk.Trx(t))
	}
	o, err := b.Now()
	vt.Assert((err == nil) == (hasG || hasT), "built-iff-given")
	if err != nil {
		vt.Reach("refused")
		return
	}
	vt.Assert(o.IsGenesis() != o.IsTransaction(), "exactly-one-kind")
	if o.IsGenesis() {
		vt.Assert(hasG, "genesis-given")
		vt.Assert(o.Genesis().Hash() == g, "genesis-kept")
		vt.Assert(o.Hash() == g, "hash-of-genesis")
		vt.Reach("genesis")
	} else {
		vt.Assert(hasT, "transaction-given")
		vt.Assert(o.Transaction().Hash() == t, "transaction-kept")
		vt.Assert(o.Hash() == t, "hash-of-transaction")
		vt.Reach("transaction")
	}
}

// HChain: a chain of transfers built with the real builders: changing any ancestor changes the hash of the last transaction.
func HChain() {
	depth, differ := 2, 1
	if vt.Thorough() {
		depth = 4
	}
	if vt.Deep() {
		depth = 7
	}
	if vt.Bool("long") {
		depth, differ = 30, 14
	}
	o := hx.HashOf("owner")
	mk := func(side string, auths []string) hash.Hash {
		g := hx.HashOf("genesis-" + side)
		b := transactions.NewOriginBuilder().Create().WithGenesis(fk.Unit(g, nil))
		var last transactions.Transaction
		for i := 0; i < depth; i++ {
			or, err := b.Now()
			vt.Assert(err == nil, "origin-built")
			c, err := transactions.NewContentBuilder().Create().WithOwner(fk.Ring(o)).WithAmount(o).WithOrigin(or).WithExternal(o).CreatedOn(time.Unix(1700000000, 0)).Now()
			vt.Assert(err == nil, "content-built")
			t, err := transactions.NewTransactionBuilder().Create().WithContent(c).WithAuthorization(fk.RingSig(auths[i])).Now()
			vt.Assert(err == nil, "transaction-built")
			last = t
			b = transactions.NewOriginBuilder().Create().WithTransaction(t)
		}
		return last.Hash()
	}
	a1, a2 := []string{}, []string{}
	same := true
	for i := 0; i < depth; i++ {
		if differ > 1 && i%differ != 0 {
			a1, a2 = append(a1, "same"), append(a2, "same")
			continue
		}
		a1 = append(a1, vt.String("auth-1", 2, 2))
		a2 = append(a2, vt.String("auth-2", 2, 2))
		if a1[i] != a2[i] {
			same = false
		}
	}
	x, y := mk("1", a1), mk("2", a2)
	if !same {
		vt.Assert(!x.Compare(y), "ancestor-changes-hash")
		vt.Reach("different")
	} else {
		vt.Reach("same")
	}
}

// Quick: the quick tier has the larger bounds too.
const Quick = 1
