package a03

import (
	"github.com/steve-care-software/steve/domain/hashtree"
	"github.com/steve-care-software/steve/zz_verif/vt"
)

func max(q, t int) int {
	if vt.Thorough() {
		return t
	}
	return q
}

// permutation of n chosen by n-1 decisions
func permute(in [][]byte) [][]byte {
	rest := append([][]byte{}, in...)
	out := [][]byte{}
	for len(rest) > 0 {
		k := vt.Choose("next", len(rest))
		out = append(out, rest[k])
		rest = append(append([][]byte{}, rest[:k]...), rest[k+1:]...)
	}
	return out
}

// HOrder: whatever the order in which the blocks arrive, the tree puts them back in order.
func HOrder() {
	k := vt.Choose("count", max(6, 7))
	in := [][]byte{}
	for i := 0; i < k; i++ {
		in = append(in, vt.Bytes("block", 0, 1))
	}
	tree, err := hashtree.NewBuilder().Create().WithBlocks(in).Now()
	vt.Assert(err == nil, "builds")
	if err != nil {
		return
	}
	data := permute(in)
	out, err := tree.Order(data)
	vt.Assert(err == nil, "order-accepts-a-permutation")
	if err != nil {
		return
	}
	vt.Assert(len(out) == len(in), "order-length")
	for i := 0; i < len(in) && i < len(out); i++ {
		vt.Assert(string(out[i]) == string(in[i]), "order-restores-the-sequence")
	}
	vt.Reach("ordered")
}

// HForeign: data that is not part of the blocks is refused, missing blocks are left out.
func HForeign() {
	k := 1 + vt.Choose("count", max(3, 4))
	in := [][]byte{}
	for i := 0; i < k; i++ {
		in = append(in, vt.Bytes("block", 1, 1))
	}
	tree, err := hashtree.NewBuilder().Create().WithBlocks(in).Now()
	vt.Assert(err == nil, "builds")
	if err != nil {
		return
	}
	m := vt.Choose("data-count", k+2)
	data := [][]byte{}
	for i := 0; i < m; i++ {
		data = append(data, vt.Bytes("data", 1, 1))
	}
	// every block takes the first data that is equal to it and was not taken before
	taken := make([]bool, m)
	want := []byte{}
	for _, b := range in {
		for j, d := range data {
			if !taken[j] && b[0] == d[0] {
				taken[j] = true
				want = append(want, b[0])
				break
			}
		}
	}
	out, err := tree.Order(data)
	if len(want) < m {
		vt.Assert(err != nil, "foreign-data-refused")
		vt.Reach("refused")
		return
	}
	vt.Assert(err == nil, "blocks-accepted")
	if err != nil {
		return
	}
	vt.Assert(len(out) == m, "nothing-lost-or-invented")
	for i := 0; i < len(out) && i < len(want); i++ {
		vt.Assert(string(out[i]) == string(want[i:i+1]), "order-of-the-tree")
	}
	if m == k {
		vt.Reach("permutation")
	} else {
		vt.Reach("part")
	}
}

// HLarge: the same for many blocks of which one is arbitrary (it may be one that is there already), in some orders.
func HLarge() {
	sizes := []int{8, 9, 17, 33, 40, 70}
	k := sizes[vt.Choose("count", max(4, 6))]
	in := [][]byte{}
	for i := 0; i < k; i++ {
		in = append(in, []byte{byte(i % 12)})
	}
	at := []int{0, k / 2, k - 1}[vt.Choose("at", 3)]
	in[at] = vt.Bytes("block", 1, 1)
	tree, err := hashtree.NewBuilder().Create().WithBlocks(in).Now()
	vt.Assert(err == nil, "builds")
	if err != nil {
		return
	}
	data := [][]byte{}
	switch vt.Choose("arrival", 5) {
	case 0:
		data = append(data, in...)
	case 1:
		for i := k - 1; i >= 0; i-- {
			data = append(data, in[i])
		}
	case 2:
		data = append(append(data, in[k/2:]...), in[:k/2]...)
	case 3:
		for i := 0; i < k; i += 2 {
			data = append(data, in[i])
		}
		for i := 1; i < k; i += 2 {
			data = append(data, in[i])
		}
	default:
		data = append(append(data, in[k-1]), in[:k-1]...)
	}
	extra := vt.Bool("too-many")
	if extra {
		data = append(data, []byte{200}) // may be the arbitrary block once more
	}
	out, err := tree.Order(data)
	if extra {
		vt.Assert(err != nil, "foreign-data-refused")
		return
	}
	vt.Assert(err == nil, "order-accepts-a-permutation")
	if err != nil {
		return
	}
	vt.Assert(len(out) == k, "order-length")
	for i := 0; i < k && i < len(out); i++ {
		vt.Assert(string(out[i]) == string(in[i]), "order-restores-the-sequence")
	}
	vt.Reach("ordered")
}
