// Package hx holds helpers shared by the harnesses.
package hx

import (
	"time"

	"github.com/steve-care-software/steve/domain/hash"
	"github.com/steve-care-software/steve/zz_verif/vt"
)

// Hash is an arbitrary 64-byte hash.
func Hash(name string) hash.Hash {
	b := vt.Bytes(name, len(hash.Hash{}), len(hash.Hash{}))
	out := hash.Hash{}
	copy(out[:], b)
	return out
}

// Time is an arbitrary instant between 2001-09-09 and 2242 with nanosecond resolution.
func Time(name string) time.Time {
	s := vt.IntIn(name+"-sec", 1000000000, 8589934591)
	n := vt.IntIn(name+"-nsec", 0, 999999999)
	return time.Unix(s, n)
}

// Seconds is an arbitrary instant between 2001-09-09 and 2242 with a resolution of one second.
func Seconds(name string) time.Time {
	return time.Unix(vt.IntIn(name+"-sec", 1000000000, 8589934591), 0)
}

// Equal compares two hashes without going through the code under test.
func Equal(a, b hash.Hash) bool { return a == b }

// HashOf is the hash of arbitrary data of four bytes.
func HashOf(name string) hash.Hash {
	h, err := hash.NewAdapter().FromBytes(vt.Bytes(name, 4, 4))
	vt.Assume(err == nil)
	return *h
}

// Same tells whether two instants are the same, without going through the code under test.
func Same(a, b time.Time) bool { return a.Unix() == b.Unix() && a.Nanosecond() == b.Nanosecond() }

// Hashes are n hashes.
func Hashes(name string, n int) []hash.Hash {
	out := []hash.Hash{}
	for i := 0; i < n; i++ {
		out = append(out, HashOf(name))
	}
	return out
}

// EqualLists compares two lists of hashes.
func EqualLists(a, b []hash.Hash) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// List checks a list builder: it refuses an empty list, keeps the members in order, and its hash identifies the members and their order.
// build makes a list out of members with the given hashes and returns its hash and the hashes of its members.
func List(build func(members []hash.Hash) (*hash.Hash, []hash.Hash, error)) {
	if vt.Bool("many") {
		Many(build)
		return
	}
	max := 3
	if vt.Thorough() {
		max = 4
	}
	x := Hashes("member-1", vt.Choose("size-1", max+1))
	y := Hashes("member-2", vt.Choose("size-2", max+1))
	hx, kx, ex := build(x)
	vt.Assert((ex == nil) == (len(x) > 0), "refused-iff-empty")
	if ex != nil {
		vt.Reach("empty")
		return
	}
	vt.Assert(EqualLists(kx, x), "members-kept")
	hy, _, ey := build(y)
	if ey != nil {
		return
	}
	vt.Assert(hx.Compare(*hy) == EqualLists(x, y), "hash-binds-members")
	if EqualLists(x, y) {
		vt.Reach("same")
	} else {
		vt.Reach("different")
	}
}

// Many is List for long lists that differ in one place.
func Many(build func(members []hash.Hash) (*hash.Hash, []hash.Hash, error)) {
	sizes := []int{5, 9, 17, 33, 65, 130, 257}
	n := sizes[vt.Choose("many-size", len(sizes))]
	x := []hash.Hash{}
	for i := 0; i < n; i++ {
		h, err := hash.NewAdapter().FromBytes([]byte{byte(i), byte(i >> 8), 'm'})
		vt.Assume(err == nil)
		x = append(x, *h)
	}
	at := []int{0, n / 2, n - 1}[vt.Choose("at", 3)]
	x[at] = HashOf("member")
	y := append([]hash.Hash{}, x...)
	switch vt.Choose("other", 4) {
	case 0:
		y[at] = HashOf("other-member")
	case 1:
		j := (at + 1) % n
		y[at], y[j] = y[j], y[at]
	case 2:
		y = append(y[:at], y[at+1:]...)
	default:
		y = append(y, x[at])
	}
	hx, kx, ex := build(x)
	vt.Assert(ex == nil, "many-accepted")
	if ex != nil {
		return
	}
	vt.Assert(EqualLists(kx, x), "many-kept")
	hy, ky, ey := build(y)
	vt.Assert(ey == nil, "many-accepted")
	if ey != nil {
		return
	}
	vt.Assert(EqualLists(ky, y), "many-kept")
	vt.Assert(hx.Compare(*hy) == EqualLists(x, y), "hash-binds-many")
	vt.Reach("many")
}

var lengths = []int{33, 64, 300}

// long is a text of n characters of which the one at the place is arbitrary.
func long(name string, n, at int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "0123456789abcdefghijklmnopqrstuvwxyz"[i%36]
	}
	return string(b[:at]) + vt.String(name+"-character", 1, 1) + string(b[at+1:])
}

func longer(name string) (string, int) {
	n := lengths[vt.Choose(name+"-length", len(lengths))]
	at := 0
	if vt.Bool(name + "-at-the-end") {
		at = n - 1
	}
	return long(name, n, at), at
}

// Text is an arbitrary text of min to max characters, or a long one.
func Text(name string, min, max int) string {
	if vt.Bool(name + "-is-long") {
		t, _ := longer(name)
		return t
	}
	return vt.String(name, min, max)
}

// Texts is two arbitrary texts of min to max characters, or two long ones that differ in a character at most.
func Texts(name string, min, max int) (string, string) {
	if !vt.Bool(name + "-is-long") {
		return vt.String(name+"-1", min, max), vt.String(name+"-2", min, max)
	}
	t, at := longer(name)
	switch vt.Choose(name+"-other", 3) {
	case 0:
		return t, t[:at] + vt.String(name+"-other-character", 1, 1) + t[at+1:]
	case 1:
		return t, t[:len(t)-1]
	}
	return t, t + "0"
}
