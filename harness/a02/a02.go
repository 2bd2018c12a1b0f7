package a02

import (
	"crypto/sha512"

	"github.com/steve-care-software/steve/domain/hash"
	"github.com/steve-care-software/steve/domain/hashtree"
	"github.com/steve-care-software/steve/zz_verif/vt"
)

func digest(b []byte) [64]byte {
	if len(b) == 64 {
		out := [64]byte{}
		copy(out[:], b)
		return out
	}
	return sha512.Sum512(b)
}

// root is the reference Merkle root: pad with the digest of nothing to a power of two (at least two leaves).
func root(blocks [][]byte) ([64]byte, int, int) {
	level := [][64]byte{}
	for _, b := range blocks {
		level = append(level, digest(b))
	}
	n := 2
	height := 1
	for n < len(level) {
		n *= 2
	}
	for len(level) < n {
		level = append(level, digest(nil))
	}
	leaves := n
	for len(level) > 1 {
		next := [][64]byte{}
		for i := 0; i < len(level); i += 2 {
			j := append(append([]byte{}, level[i][:]...), level[i+1][:]...)
			next = append(next, sha512.Sum512(j))
		}
		level = next
		height++
	}
	return level[0], leaves, height
}

func max(q, t int) int {
	if vt.Thorough() {
		return t
	}
	return q
}

func blocks(name string, min, n, l int) [][]byte {
	k := min + vt.Choose(name+"-count", n-min+1)
	out := [][]byte{}
	for i := 0; i < k; i++ {
		out = append(out, vt.Bytes(name, 0, l))
	}
	return out
}

// walk gives the digest of what hangs below a parent and adds the digests of its blocks to out.
func walk(p hashtree.ParentLeaf, out *[][]byte) hash.Hash {
	both := []byte{}
	for _, l := range []hashtree.Leaf{p.Left(), p.Right()} {
		h := l.Head()
		before := len(*out)
		if l.HasParent() {
			vt.Assert(walk(l.Parent(), out) == h, "head-of-children")
		} else {
			*out = append(*out, h.Bytes())
		}
		both = append(both, h.Bytes()...)
		vt.Assert(len(l.Leaves().Leaves()) == len(*out)-before, "leaves-below")
	}
	return hash.Hash(digest(both))
}

// HRoot: the head is the Merkle root of the blocks in order, whatever the number of blocks.
func HRoot() {
	k := vt.Choose("count", max(18, 34))
	in := [][]byte{}
	for i := 0; i < k; i++ {
		in = append(in, vt.Bytes("block", 2, 2))
	}
	tree, err := hashtree.NewBuilder().Create().WithBlocks(in).Now()
	vt.Assert(err == nil, "builds")
	if err != nil {
		return
	}
	want, leaves, height := root(in)
	vt.Assert(tree.Head() == hash.Hash(want), "head-is-merkle-root")
	vt.Assert(tree.Length() == leaves, "length-is-power-of-two")
	vt.Assert(tree.Height() == height, "height")
	vt.Assert(tree.Compact().Head() == hash.Hash(want), "compact-head")
	vt.Assert(tree.Compact().Length() == leaves, "compact-length")
	lv := tree.Compact().Leaves().Leaves()
	vt.Assert(len(lv) == leaves, "compact-leaves")
	for i := 0; i < len(lv) && i < leaves; i++ {
		w := digest(nil)
		if i < len(in) {
			w = digest(in[i])
		}
		vt.Assert(lv[i].Head() == hash.Hash(w), "leaf-is-block-digest")
	}
	got := [][]byte{}
	vt.Assert(walk(tree.Parent(), &got) == tree.Head(), "walked-head")
	vt.Assert(len(got) == leaves && len(tree.Parent().BlockLeaves().Leaves()) == leaves, "walked-leaves")
	for i := 0; i < len(got) && i < len(lv); i++ {
		vt.Assert(string(got[i]) == string(lv[i].Head().Bytes()), "walked-order")
	}
	// looking at a tree does not change it
	vt.Assert(tree.Length() == leaves && tree.Height() == height && tree.Compact().Length() == leaves, "same-again")
	vt.Reach("built")
	vt.Observe("length", tree.Length())
	vt.Observe("height", tree.Height())
}

// HShapes: the same with blocks of every length, including empty ones and ones as long as a digest.
func HShapes() {
	k := vt.Choose("count", max(4, 6))
	in := [][]byte{}
	lens := []int{0, 1, 3, 63, 64, 65}
	for i := 0; i < k; i++ {
		l := lens[vt.Choose("len", len(lens))]
		in = append(in, vt.Bytes("block", l, l))
	}
	want, leaves, height := root(in)
	tree, err := hashtree.NewBuilder().Create().WithBlocks(in).Now()
	vt.Assert(err == nil, "builds")
	if err != nil {
		return
	}
	vt.Assert(tree.Head() == hash.Hash(want), "head-is-merkle-root")
	vt.Assert(tree.Length() == leaves, "length-is-power-of-two")
	vt.Assert(tree.Height() == height, "height")
	vt.Reach("built")
}

// HBinding: two trees over the same number of blocks have the same head only if the blocks are the same in the same order.
func HBinding() {
	k := 1 + vt.Choose("count", max(5, 9))
	a, b := [][]byte{}, [][]byte{}
	same := true
	for i := 0; i < k; i++ {
		x := vt.Bytes("a", 3, 3)
		y := vt.Bytes("b", 3, 3)
		a = append(a, x)
		b = append(b, y)
		if string(x) != string(y) {
			same = false
		}
	}
	ta, err := hashtree.NewBuilder().Create().WithBlocks(a).Now()
	vt.Assert(err == nil, "builds")
	tb, err2 := hashtree.NewBuilder().Create().WithBlocks(b).Now()
	vt.Assert(err2 == nil, "builds")
	if err != nil || err2 != nil {
		return
	}
	vt.Assert(ta.Head().Compare(tb.Head()) == same, "head-binds-the-blocks")
	if same {
		vt.Reach("same")
	} else {
		vt.Reach("different")
	}
}

// HMissing: a builder without blocks refuses to build.
func HMissing() {
	_, err := hashtree.NewBuilder().Create().Now()
	vt.Assert(err != nil, "blocks-are-mandatory")
	b := hashtree.NewBuilder().WithBlocks([][]byte{vt.Bytes("b", 0, 2)})
	_, err = b.Create().Now()
	vt.Assert(err != nil, "create-resets")
	vt.Reach("missing")
}

// HUntouched: building a tree changes neither the blocks of the caller nor what lies behind them.
func HUntouched() {
	k := 1 + vt.Choose("count", 3)
	back := [][]byte{}
	cp := []string{}
	for i := 0; i < k; i++ {
		b := vt.Bytes("block", 1, 1)
		back = append(back, b)
		cp = append(cp, string(b))
	}
	n := vt.Choose("used", k+1)
	tree, err := hashtree.NewBuilder().Create().WithBlocks(back[:n]).Now()
	vt.Assert(err == nil, "builds")
	if err != nil {
		return
	}
	first := tree.Head()
	tree.Compact().Leaves().Leaves()
	tree.Height()
	tree.Length()
	for i := 0; i < k; i++ {
		vt.Assert(string(back[i]) == cp[i], "caller-blocks-untouched")
	}
	vt.Assert(tree.Head() == first, "tree-is-stable")
	vt.Assert(tree.Length() == tree.Compact().Length(), "length-is-stable")
	vt.Reach("untouched")
}

// HLarge: the same for large trees of which one block is arbitrary.
func HLarge() {
	sizes := []int{40, 63, 64, 65, 100, 129, 257}
	k := sizes[vt.Choose("count", max(5, 7))]
	in := [][]byte{}
	for i := 0; i < k; i++ {
		in = append(in, []byte{byte(i), byte(i >> 8), 'b'})
	}
	l := []int{2, 64, 300}[vt.Choose("length", 3)]
	block := make([]byte, l)
	for i := range block {
		block[i] = byte(i)
	}
	block[0], block[l-1] = vt.Bytes("first", 1, 1)[0], vt.Bytes("last", 1, 1)[0]
	at := []int{0, k / 2, k - 1}[vt.Choose("at", 3)]
	in[at] = block
	want, leaves, height := root(in)
	tree, err := hashtree.NewBuilder().Create().WithBlocks(in).Now()
	vt.Assert(err == nil, "builds")
	if err != nil {
		return
	}
	vt.Assert(tree.Head() == hash.Hash(want), "head-is-merkle-root")
	vt.Assert(tree.Length() == leaves, "length-is-power-of-two")
	vt.Assert(tree.Height() == height, "height")
	vt.Assert(len(tree.Compact().Leaves().Leaves()) == leaves, "compact-leaves")
	out, err := tree.Order(in)
	vt.Assert(err == nil && len(out) == k, "ordered")
	vt.Reach("built")
}
