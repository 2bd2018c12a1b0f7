// Package b04 checks transaction secrets, receipts and private transactions.
package b04

import (
	"github.com/steve-care-software/steve/domain/hash"
	"github.com/steve-care-software/steve/domain/receipts"
	"github.com/steve-care-software/steve/domain/transactions/privates"
	"github.com/steve-care-software/steve/domain/transactions/secrets"
	"github.com/steve-care-software/steve/zz_verif/hx"
	"github.com/steve-care-software/steve/zz_verif/hx/fk"
	"github.com/steve-care-software/steve/zz_verif/vt"
)

// HSecretValid: a secret is built exactly for a positive amount, a nonce and a public transaction, and keeps its parts.
func HSecretValid() {
	amount := vt.Uint("amount")
	nonce := hx.Text("nonce", 0, 2)
	p, o, s := hx.Hash("public"), hx.Hash("origin"), hx.Hash("sides")
	b := secrets.NewSecretBuilder().Create()
	if vt.Bool("dirty") {
		b = b.WithAmount(1).WithNonce("x").WithPublic(fk.Trx(p)).WithOrigin(fk.Secret(o)).WithSides(fk.Secrets(s)).Create()
	}
	hasA, hasN, hasP, hasO, hasS := vt.Bool("has-amount"), vt.Bool("has-nonce"), vt.Bool("has-public"), vt.Bool("has-origin"), vt.Bool("has-sides")
	if hasA {
		b = b.WithAmount(amount)
	}
	if hasN {
		b = b.WithNonce(nonce)
	}
	if hasP {
		b = b.WithPublic(fk.Trx(p))
	}
	if hasO {
		b = b.WithOrigin(fk.Secret(o))
	}
	if hasS {
		b = b.WithSides(fk.Secrets(s))
	}
	x, err := b.Now()
	vt.Assert((err == nil) == (hasA && amount > 0 && hasN && nonce != "" && hasP), "built-iff-valid")
	if err != nil {
		vt.Assert(x == nil, "no-value-with-error")
		vt.Reach("refused")
		return
	}
	vt.Assert(x.Amount() == amount, "amount-kept")
	vt.Assert(x.Nonce() == nonce, "nonce-kept")
	vt.Assert(x.Public().Hash() == p, "public-kept")
	vt.Assert(x.HasOrigin() == hasO, "has-origin")
	vt.Assert(x.HasSides() == hasS, "has-sides")
	if hasO {
		vt.Assert(x.Origin().Hash() == o, "origin-kept")
		vt.Reach("origin")
	}
	if hasS {
		vt.Assert(x.Sides().Hash() == s, "sides-kept")
		vt.Reach("sides")
	}
	vt.Reach("built")
}

type parts struct {
	amount     uint
	nonce      string
	p, o, s    hash.Hash
	hasO, hasS bool
}

func arbitrary(side string) parts {
	x := parts{amount: vt.Uint("amount-" + side), p: hx.HashOf("public-" + side)}
	max, long := uint(10000), 3
	if vt.Thorough() {
		max, long = 100000000, 5
	}
	vt.Assume(x.amount > 0 && x.amount < max)
	// a nonce may look like the encoding of the other parts
	k := vt.Choose("nonce-kind-"+side, 2)
	if k == 0 {
		x.nonce = vt.String("nonce-"+side, 1, long)
	} else {
		h := hx.HashOf("nonce-hash-" + side)
		x.nonce = vt.String("nonce-"+side, 1, long-1) + string(h.Bytes())
	}
	x.hasO, x.hasS = vt.Bool("has-origin-"+side), vt.Bool("has-sides-"+side)
	if x.hasO {
		x.o = hx.HashOf("origin-" + side)
	}
	if x.hasS {
		x.s = hx.HashOf("sides-" + side)
	}
	return x
}

func (x parts) build() secrets.Secret {
	b := secrets.NewSecretBuilder().Create().WithAmount(x.amount).WithNonce(x.nonce).WithPublic(fk.Trx(x.p))
	if x.hasO {
		b = b.WithOrigin(fk.Secret(x.o))
	}
	if x.hasS {
		b = b.WithSides(fk.Secrets(x.s))
	}
	r, err := b.Now()
	vt.Assert(err == nil, "built")
	return r
}

// HSecretHash: two secrets have the same hash exactly when they carry the same data.
func HSecretHash() {
	x, y := arbitrary("1"), arbitrary("2")
	same := x.amount == y.amount && x.nonce == y.nonce && x.p == y.p && x.hasO == y.hasO && x.hasS == y.hasS
	if same && x.hasO && x.o != y.o {
		same = false
	}
	if same && x.hasS && x.s != y.s {
		same = false
	}
	vt.Assert(x.build().Hash().Compare(y.build().Hash()) == same, "hash-binds-secret")
	if same {
		vt.Reach("same")
	} else {
		vt.Reach("different")
	}
}

// HSecrets: the list of secrets.
func HSecrets() {
	hx.List(func(m []hash.Hash) (*hash.Hash, []hash.Hash, error) {
		l := []secrets.Secret{}
		for _, h := range m {
			l = append(l, fk.Secret(h))
		}
		u, err := secrets.NewBuilder().Create().WithList(l).Now()
		if err != nil {
			return nil, nil, err
		}
		k := []hash.Hash{}
		for _, v := range u.List() {
			k = append(k, v.Hash())
		}
		h := u.Hash()
		return &h, k, nil
	})
}

// HReceipt: a receipt needs its secret and its signature, keeps both, and its hash identifies both.
func HReceipt() {
	c1, c2 := hx.Hash("secret-1"), hx.Hash("secret-2")
	s1, s2 := hx.Texts("signature", 1, 3)
	hasC, hasS := vt.Bool("has-secret"), vt.Bool("has-signature")
	b := receipts.NewBuilder().Create()
	if vt.Bool("dirty") {
		b = b.WithSecret(fk.Secret(c2)).WithSignature(fk.Sig(s2)).Create()
	}
	if hasC {
		b = b.WithSecret(fk.Secret(c1))
	}
	if hasS {
		b = b.WithSignature(fk.Sig(s1))
	}
	x, err := b.Now()
	vt.Assert((err == nil) == (hasC && hasS), "built-iff-complete")
	if err != nil {
		vt.Reach("refused")
		return
	}
	vt.Assert(x.Secret().Hash() == c1, "secret-kept")
	vt.Assert(x.Signature().String() == s1, "signature-kept")
	y, err := receipts.NewBuilder().Create().WithSecret(fk.Secret(c2)).WithSignature(fk.Sig(s2)).Now()
	vt.Assert(err == nil, "built")
	same := c1 == c2 && s1 == s2
	vt.Assert(x.Hash().Compare(y.Hash()) == same, "hash-binds-receipt")
	if same {
		vt.Reach("same")
	} else {
		vt.Reach("different")
	}
}

// HPrivate: a private transaction needs its key and its receipt, keeps both, and its hash identifies both.
func HPrivate() {
	c1, c2 := hx.Hash("receipt-1"), hx.Hash("receipt-2")
	s1, s2 := hx.Texts("key", 1, 3)
	hasC, hasS := vt.Bool("has-receipt"), vt.Bool("has-key")
	b := privates.NewPrivateBuilder().Create()
	if vt.Bool("dirty") {
		b = b.WithReceipt(fk.Receipt(c2)).WithPrivateKey(fk.PK(s2)).Create()
	}
	if hasC {
		b = b.WithReceipt(fk.Receipt(c1))
	}
	if hasS {
		b = b.WithPrivateKey(fk.PK(s1))
	}
	x, err := b.Now()
	vt.Assert((err == nil) == (hasC && hasS), "built-iff-complete")
	if err != nil {
		vt.Reach("refused")
		return
	}
	vt.Assert(x.Receipt().Hash() == c1, "receipt-kept")
	vt.Assert(x.PrivateKey().String() == s1, "key-kept")
	y, err := privates.NewPrivateBuilder().Create().WithReceipt(fk.Receipt(c2)).WithPrivateKey(fk.PK(s2)).Now()
	vt.Assert(err == nil, "built")
	same := c1 == c2 && s1 == s2
	vt.Assert(x.Hash().Compare(y.Hash()) == same, "hash-binds-private")
	if same {
		vt.Reach("same")
	} else {
		vt.Reach("different")
	}
}

// HPrivates: the list of private transactions, built with the real private builder.
func HPrivates() {
	hx.List(func(m []hash.Hash) (*hash.Hash, []hash.Hash, error) {
		l := []privates.Private{}
		for _, h := range m {
			p, err := privates.NewPrivateBuilder().Create().WithPrivateKey(fk.PK("k")).WithReceipt(fk.Receipt(h)).Now()
			vt.Assert(err == nil, "private-built")
			l = append(l, p)
		}
		u, err := privates.NewBuilder().Create().WithList(l).Now()
		if err != nil {
			return nil, nil, err
		}
		k := []hash.Hash{}
		for _, v := range u.List() {
			k = append(k, v.Receipt().Hash())
		}
		h := u.Hash()
		return &h, k, nil
	})
}

// HSecretLong: the same for secrets whose nonces are long.
func HSecretLong() {
	x, y := parts{amount: 7, p: hx.HashOf("public-1")}, parts{amount: 7, p: hx.HashOf("public-2")}
	x.nonce, y.nonce = hx.Texts("nonce", 1, 1)
	same := x.nonce == y.nonce && x.p == y.p
	vt.Assert(x.build().Hash().Compare(y.build().Hash()) == same, "hash-binds-secret")
	if same {
		vt.Reach("same")
	} else {
		vt.Reach("different")
	}
}
