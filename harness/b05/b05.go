// Package b05 checks blocks and chains.
package b05

import (
	uuid "github.com/satori/go.uuid"
	"github.com/steve-care-software/steve/domain/chains"
	"github.com/steve-care-software/steve/domain/hash"
	"github.com/steve-care-software/steve/zz_verif/hx"
	"github.com/steve-care-software/steve/zz_verif/hx/fk"
	"github.com/steve-care-software/steve/zz_verif/vt"
)

// HBlockValid: a block is built exactly when it has a positive height, fees, transactions and a creation time.
func HBlockValid() {
	height := vt.Uint("height")
	f, t, p := hx.Hash("fees"), hx.Hash("transactions"), hx.Hash("previous")
	cre := hx.Time("created")
	b := chains.NewBlockBuilder().Create()
	if vt.Bool("dirty") {
		b = b.WithHeight(1).WithFees(fk.Ring(f)).WithTransactions(fk.Trxs(t)).WithPrevious(p).CreatedOn(cre).Create()
	}
	has := [5]bool{vt.Bool("has-height"), vt.Bool("has-fees"), vt.Bool("has-transactions"), vt.Bool("has-created"), vt.Bool("has-previous")}
	if has[0] {
		b = b.WithHeight(height)
	}
	if has[1] {
		b = b.WithFees(fk.Ring(f))
	}
	if has[2] {
		b = b.WithTransactions(fk.Trxs(t))
	}
	if has[3] {
		b = b.CreatedOn(cre)
	}
	if has[4] {
		b = b.WithPrevious(p)
	}
	x, err := b.Now()
	vt.Assert((err == nil) == (has[0] && height > 0 && has[1] && has[2] && has[3]), "built-iff-valid")
	if err != nil {
		vt.Assert(x == nil, "no-value-with-error")
		vt.Reach("refused")
		return
	}
	vt.Assert(x.Height() == height, "height-kept")
	vt.Assert(x.Fees().Hash() == f, "fees-kept")
	vt.Assert(x.Transactions().Hash() == t, "transactions-kept")
	vt.Assert(hx.Same(x.CreatedOn(), cre), "creation-kept")
	vt.Assert(x.HasPrevious() == has[4], "has-previous")
	if has[4] {
		vt.Assert(*x.Previous() == p, "previous-kept")
		vt.Reach("previous")
	}
	vt.Reach("built")
}

type block struct {
	height  uint
	f, t, p hash.Hash
	sec     int64
	hasP    bool
}

// HBlockHash: two blocks have the same hash exactly when they carry the same data; the creation counts in whole seconds.
func HBlockHash() {
	max := uint(1000000)
	if vt.Thorough() {
		max = 1000000000000
	}
	mk := func(side string) (block, chains.Block) {
		x := block{height: vt.Uint("height-" + side), f: hx.Hash("fees-" + side), t: hx.Hash("transactions-" + side), hasP: vt.Bool("has-previous-" + side)}
		vt.Assume(x.height > 0 && x.height < max)
		cre := hx.Seconds("created-" + side)
		x.sec = cre.Unix()
		b := chains.NewBlockBuilder().Create().WithHeight(x.height).WithFees(fk.Ring(x.f)).WithTransactions(fk.Trxs(x.t)).CreatedOn(cre)
		if x.hasP {
			x.p = hx.Hash("previous-" + side)
			b = b.WithPrevious(x.p)
		}
		r, err := b.Now()
		vt.Assert(err == nil, "built")
		return x, r
	}
	x, bx := mk("1")
	y, by := mk("2")
	same := x.height == y.height && x.f == y.f && x.t == y.t && x.sec == y.sec && x.hasP == y.hasP && (!x.hasP || x.p == y.p)
	vt.Assert(bx.Hash().Compare(by.Hash()) == same, "hash-binds-block")
	if same {
		vt.Reach("same")
	} else {
		vt.Reach("different")
	}
}

// HHistory: two chains of blocks, each block pointing to the one before; when any block differs, so does the hash of the head.
func HHistory() {
	n := 3
	if vt.Thorough() {
		n = 5
	}
	if vt.Deep() {
		n = 8
	}
	long := vt.Bool("long")
	if long {
		n = 40
	}
	fees := hx.HashOf("fees")
	mk := func(side string) (hash.Hash, []hash.Hash) {
		var prev *hash.Hash
		txs := []hash.Hash{}
		var last hash.Hash
		for i := 0; i < n; i++ {
			var t hash.Hash
			if long && i != 0 && i != 19 && i != n-1 {
				h, err := hash.NewAdapter().FromBytes([]byte{byte(i), 't'})
				vt.Assume(err == nil)
				t = *h
			} else {
				t = hx.HashOf("transactions-" + side)
			}
			txs = append(txs, t)
			b := chains.NewBlockBuilder().Create().WithHeight(uint(i + 1)).WithFees(fk.Ring(fees)).WithTransactions(fk.Trxs(t)).CreatedOn(hx.Seconds("created"))
			if prev != nil {
				b = b.WithPrevious(*prev)
			}
			r, err := b.Now()
			vt.Assert(err == nil, "built")
			last = r.Hash()
			prev = &last
		}
		return last, txs
	}
	x, tx := mk("1")
	y, ty := mk("2")
	if !hx.EqualLists(tx, ty) {
		vt.Assert(!x.Compare(y), "history-changes-head")
		vt.Reach("different")
	} else {
		vt.Reach("same")
	}
}

func id(name string) uuid.UUID {
	b := vt.Bytes(name, 16, 16)
	u := uuid.UUID{}
	copy(u[:], b)
	return u
}

func head(name string) chains.Block {
	b, err := chains.NewBlockBuilder().Create().WithHeight(1).WithFees(fk.Ring(hx.HashOf(name))).WithTransactions(fk.Trxs(hx.HashOf(name))).CreatedOn(hx.Seconds(name)).Now()
	vt.Assume(err == nil)
	return b
}

// HChainValid: a chain needs its identifier, its root and its creation time, and keeps its parts.
func HChainValid() {
	i := id("id")
	root := hx.Hash("root")
	cre := hx.Time("created")
	h := head("head")
	b := chains.NewBuilder().Create()
	if vt.Bool("dirty") {
		b = b.WithID(i).WithRoot(root).WithHead(h).CreatedOn(cre).Create()
	}
	has := [4]bool{vt.Bool("has-id"), vt.Bool("has-root"), vt.Bool("has-created"), vt.Bool("has-head")}
	if has[0] {
		b = b.WithID(i)
	}
	if has[1] {
		b = b.WithRoot(root)
	}
	if has[2] {
		b = b.CreatedOn(cre)
	}
	if has[3] {
		b = b.WithHead(h)
	}
	x, err := b.Now()
	vt.Assert((err == nil) == (has[0] && has[1] && has[2]), "built-iff-complete")
	if err != nil {
		vt.Assert(x == nil, "no-value-with-error")
		vt.Reach("refused")
		return
	}
	vt.Assert(x.ID() == i, "id-kept")
	vt.Assert(x.Root() == root, "root-kept")
	vt.Assert(hx.Same(x.CreatedOn(), cre), "creation-kept")
	vt.Assert(x.HasHead() == has[3], "has-head")
	if has[3] {
		vt.Assert(x.Head().Hash() == h.Hash(), "head-kept")
		vt.Reach("head")
	}
	vt.Reach("built")
}

// HChainHash: two chains have the same hash exactly when they carry the same data.
func HChainHash() {
	type parts struct {
		id      uuid.UUID
		root, h hash.Hash
		sec     int64
		hasH    bool
	}
	mk := func(side string) (parts, chains.Chain) {
		x := parts{id: id("id-" + side), root: hx.Hash("root-" + side), hasH: vt.Bool("has-head-" + side)}
		cre := hx.Seconds("created-" + side)
		x.sec = cre.Unix()
		b := chains.NewBuilder().Create().WithID(x.id).WithRoot(x.root).CreatedOn(cre)
		if x.hasH {
			h := head("head-" + side)
			x.h = h.Hash()
			b = b.WithHead(h)
		}
		r, err := b.Now()
		vt.Assert(err == nil, "built")
		return x, r
	}
	x, cx := mk("1")
	y, cy := mk("2")
	same := x.id == y.id && x.root == y.root && x.sec == y.sec && x.hasH == y.hasH && (!x.hasH || x.h == y.h)
	vt.Assert(cx.Hash().Compare(cy.Hash()) == same, "hash-binds-chain")
	if same {
		vt.Reach("same")
	} else {
		vt.Reach("different")
	}
}

// Quick: the quick tier has the larger bounds too.
const Quick = 1
