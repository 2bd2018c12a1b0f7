// Package fk has stand-ins for the collaborators of the code under test: each one has an arbitrary hash or text.
package fk

import (
	"github.com/steve-care-software/steve/domain/cryptography/keys/signature"
	"github.com/steve-care-software/steve/domain/genesis"
	"github.com/steve-care-software/steve/domain/hash"
	"github.com/steve-care-software/steve/domain/receipts"
	"github.com/steve-care-software/steve/domain/rings"
	"github.com/steve-care-software/steve/domain/transactions"
	"github.com/steve-care-software/steve/domain/transactions/secrets"
	"github.com/steve-care-software/steve/zz_verif/hx"
)

type ring struct {
	rings.Ring
	h hash.Hash
}

func (f *ring) Hash() hash.Hash   { return f.h }
func (f *ring) List() []hash.Hash { return []hash.Hash{f.h} }

// Ring is a ring with the given hash.
func Ring(h hash.Hash) rings.Ring { return &ring{h: h} }

type unit struct {
	genesis.Unit
	h hash.Hash
	c genesis.UnitContent
}

func (f *unit) Hash() hash.Hash              { return f.h }
func (f *unit) Content() genesis.UnitContent { return f.c }

// Unit is a genesis unit with the given hash and content.
func Unit(h hash.Hash, c genesis.UnitContent) genesis.Unit { return &unit{h: h, c: c} }

type unitContent struct {
	genesis.UnitContent
	h hash.Hash
}

func (f *unitContent) Hash() hash.Hash { return f.h }

// UnitContent is a unit content with the given hash.
func UnitContent(h hash.Hash) genesis.UnitContent { return &unitContent{h: h} }

type content struct {
	transactions.Content
	h hash.Hash
}

func (f *content) Hash() hash.Hash { return f.h }

// Content is a transaction content with the given hash.
func Content(h hash.Hash) transactions.Content { return &content{h: h} }

type trx struct {
	transactions.Transaction
	h hash.Hash
}

func (f *trx) Hash() hash.Hash { return f.h }

// Trx is a transaction with the given hash.
func Trx(h hash.Hash) transactions.Transaction { return &trx{h: h} }

type trxs struct {
	transactions.Transactions
	h hash.Hash
}

func (f *trxs) Hash() hash.Hash { return f.h }

// Trxs is a list of transactions with the given hash.
func Trxs(h hash.Hash) transactions.Transactions { return &trxs{h: h} }

type origin struct {
	transactions.Origin
	h hash.Hash
}

func (f *origin) Hash() hash.Hash { return f.h }

// Origin is a transaction origin with the given hash.
func Origin(h hash.Hash) transactions.Origin { return &origin{h: h} }

type secret struct {
	secrets.Secret
	h hash.Hash
}

func (f *secret) Hash() hash.Hash { return f.h }

// Secret is a secret with the given hash.
func Secret(h hash.Hash) secrets.Secret { return &secret{h: h} }

type secs struct {
	secrets.Secrets
	h hash.Hash
}

func (f *secs) Hash() hash.Hash { return f.h }

// Secrets is a list of secrets with the given hash.
func Secrets(h hash.Hash) secrets.Secrets { return &secs{h: h} }

type ringSig struct {
	signature.RingSignature
	s string
}

func (f *ringSig) String() string { return f.s }

// RingSig is a ring signature with the given text.
func RingSig(s string) signature.RingSignature { return &ringSig{s: s} }

type sig struct {
	signature.Signature
	s string
}

func (f *sig) String() string { return f.s }

// Sig is a signature with the given text.
func Sig(s string) signature.Signature { return &sig{s: s} }

type pk struct {
	signature.PrivateKey
	s string
}

func (f *pk) String() string { return f.s }

// PK is a private key with the given text.
func PK(s string) signature.PrivateKey { return &pk{s: s} }

type receipt struct {
	receipts.Receipt
	h hash.Hash
}

func (f *receipt) Hash() hash.Hash { return f.h }

// Receipt is a receipt with the given hash.
func Receipt(h hash.Hash) receipts.Receipt { return &receipt{h: h} }

var _ = hx.Hash
