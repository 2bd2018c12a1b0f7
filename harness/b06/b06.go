// Package b06 checks identities and the private units of the genesis.
package b06

import (
	"github.com/steve-care-software/steve/domain/genesis/privates"
	"github.com/steve-care-software/steve/domain/hash"
	"github.com/steve-care-software/steve/domain/identities"
	trx "github.com/steve-care-software/steve/domain/transactions/privates"
	"github.com/steve-care-software/steve/zz_verif/hx"
	"github.com/steve-care-software/steve/zz_verif/hx/fk"
	"github.com/steve-care-software/steve/zz_verif/vt"
)

type out struct {
	trx.Privates
	h hash.Hash
}

func (o *out) Hash() hash.Hash { return o.h }

// HTransactions: the transactions of an identity keep what they are given and report exactly that.
func HTransactions() {
	i, o := hx.Hash("incoming"), hx.Hash("outgoing")
	b := identities.NewTransactionsBuilder().Create()
	if vt.Bool("dirty") {
		b = b.WithIncoming(fk.Secrets(o)).WithOutgoing(&out{h: i}).Create()
	}
	hasI, hasO := vt.Bool("has-incoming"), vt.Bool("has-outgoing")
	if hasI {
		b = b.WithIncoming(fk.Secrets(i))
	}
	if hasO {
		b = b.WithOutgoing(&out{h: o})
	}
	t, err := b.Now()
	vt.Assert(err == nil, "built")
	if err != nil {
		return
	}
	vt.Assert(t.HasIncoming() == hasI, "has-incoming")
	vt.Assert(t.HasOutgoing() == hasO, "has-outgoing")
	if hasI {
		vt.Assert(t.Incoming().Hash() == i, "incoming-kept")
		vt.Reach("incoming")
	}
	if hasO {
		vt.Assert(t.Outgoing().Hash() == o, "outgoing-kept")
		vt.Reach("outgoing")
	}
}

// HIdentity: an identity needs a name and transactions; the genesis is optional.
func HIdentity() {
	i, g := hx.Hash("incoming"), hx.Hash("genesis")
	name := hx.Text("name", 0, 3)
	t, err := identities.NewTransactionsBuilder().Create().WithIncoming(fk.Secrets(i)).Now()
	vt.Assert(err == nil, "transactions-built")
	b := identities.NewBuilder().Create()
	if vt.Bool("dirty") {
		b = b.WithName("dirt").WithTransactions(t).WithGenesis(&out{h: g}).Create()
	}
	hasN, hasT, hasG := vt.Bool("has-name"), vt.Bool("has-transactions"), vt.Bool("has-genesis")
	if hasN {
		b = b.WithName(name)
	}
	if hasT {
		b = b.WithTransactions(t)
	}
	if hasG {
		b = b.WithGenesis(&out{h: g})
	}
	x, err := b.Now()
	vt.Assert((err == nil) == (hasN && name != "" && hasT), "built-iff-valid")
	if err != nil {
		vt.Assert(x == nil, "no-value-with-error")
		vt.Reach("refused")
		return
	}
	vt.Assert(x.Name() == name, "name-kept")
	vt.Assert(x.Transactions().Incoming().Hash() == i, "transactions-kept")
	vt.Assert(x.HasGenesis() == hasG, "has-genesis")
	if hasG {
		vt.Assert(x.Genesis().Hash() == g, "genesis-kept")
		vt.Reach("genesis")
	}
	vt.Reach("built")
}

// HPrivate: a private unit needs its unit and its key, keeps both, and its hash identifies both.
func HPrivate() {
	c1, c2 := hx.Hash("unit-1"), hx.Hash("unit-2")
	s1, s2 := hx.Texts("key", 1, 3)
	hasC, hasS := vt.Bool("has-unit"), vt.Bool("has-key")
	b := privates.NewPrivateBuilder().Create()
	if vt.Bool("dirty") {
		b = b.WithUnit(fk.Unit(c2, nil)).WithPrivateKey(fk.PK(s2)).Create()
	}
	if hasC {
		b = b.WithUnit(fk.Unit(c1, nil))
	}
	if hasS {
		b = b.WithPrivateKey(fk.PK(s1))
	}
	x, err := b.Now()
	vt.Assert((err == nil) == (hasC && hasS), "built-iff-complete")
	if err != nil {
		vt.Reach("refused")
		return
	}
	vt.Assert(x.Unit().Hash() == c1, "unit-kept")
	vt.Assert(x.PrivateKey().String() == s1, "key-kept")
	y, err := privates.NewPrivateBuilder().Create().WithUnit(fk.Unit(c2, nil)).WithPrivateKey(fk.PK(s2)).Now()
	vt.Assert(err == nil, "built")
	same := c1 == c2 && s1 == s2
	vt.Assert(x.Hash().Compare(y.Hash()) == same, "hash-binds-private")
	if same {
		vt.Reach("same")
	} else {
		vt.Reach("different")
	}
}

// HPrivates: the list of private units.
func HPrivates() {
	hx.List(func(m []hash.Hash) (*hash.Hash, []hash.Hash, error) {
		l := []privates.Private{}
		for _, h := range m {
			p, err := privates.NewPrivateBuilder().Create().WithPrivateKey(fk.PK("k")).WithUnit(fk.Unit(h, nil)).Now()
			vt.Assert(err == nil, "private-built")
			l = append(l, p)
		}
		u, err := privates.NewBuilder().Create().WithList(l).Now()
		if err != nil {
			return nil, nil, err
		}
		k := []hash.Hash{}
		for _, v := range u.List() {
			k = append(k, v.Unit().Hash())
		}
		h := u.Hash()
		return &h, k, nil
	})
}

// Quick: the quick tier has the larger bounds too.
const Quick = 1
