// Package j04 checks that ring signatures do not tell who made them.
package j04

import (
	"encoding/base64"
	"strings"

	"github.com/steve-care-software/steve/domain/cryptography/keys/signature"
	"github.com/steve-care-software/steve/zz_verif/hx"
	"github.com/steve-care-software/steve/zz_verif/vt"
)

func size() int {
	if vt.Deep() {
		return 5
	}
	if vt.Thorough() {
		return 3
	}
	return 2
}

func must(err error, what string) {
	vt.Assert(err == nil, what)
	vt.Assume(err == nil)
}

func keys(n int) ([]signature.PrivateKey, []signature.PublicKey) {
	fac := signature.NewPrivateKeyFactory()
	pks, pubs := []signature.PrivateKey{}, []signature.PublicKey{}
	for i := 0; i < n; i++ {
		pk := fac.Create()
		pks = append(pks, pk)
		pubs = append(pubs, pk.PublicKey())
	}
	return pks, pubs
}

// numbers are the scalars a signature publishes for the members of its ring, and its first challenge.
func numbers(sig signature.RingSignature, ring []signature.PublicKey) []string {
	b, err := base64.StdEncoding.DecodeString(sig.String())
	must(err, "decoded")
	f := strings.Split(string(b), "#")
	vt.Assert(len(f) == 3, "parts")
	vt.Assume(len(f) == 3)
	pubs := strings.Split(strings.TrimSuffix(f[0], "|"), "|")
	vt.Assert(len(pubs) == len(ring) && len(sig.Ring()) == len(ring), "one-key-for-each-member")
	vt.Assume(len(pubs) == len(ring) && len(sig.Ring()) == len(ring))
	for i, p := range ring {
		vt.Assert(pubs[i] == p.String() && sig.Ring()[i].Equals(p), "ring-in-its-order")
	}
	ss := strings.Split(strings.TrimSuffix(f[1], "|"), "|")
	vt.Assert(len(ss) == len(ring), "one-number-for-each-member")
	for i, s := range ss {
		vt.Assert(len(s) == len(ss[0]), "numbers-of-one-length")
		for _, o := range ss[i+1:] {
			vt.Assert(s != o, "numbers-of-members-differ")
		}
	}
	return append(ss, f[2])
}

func disjoint(a, b []string, what string) {
	for _, x := range a {
		for _, y := range b {
			vt.Assert(x != y, what)
		}
	}
}

// HOne: a signature of any member of a ring shows the ring as it was given and different numbers.
func HOne() {
	pks, ring := keys(1 + vt.Choose("members", 5))
	who := vt.Choose("signer", len(pks))
	sig, err := pks[who].RingSign(vt.String("message", 0, size()), ring)
	must(err, "signed")
	numbers(sig, ring)
	vt.Reach("signed")
}

// HMessages: signatures of one member for two messages share no number.
func HMessages() {
	pks, ring := keys(2 + vt.Choose("members", 2))
	who := vt.Choose("signer", len(pks))
	m, o := vt.String("message", 0, size()), vt.String("other", 0, size())
	vt.Assume(m != o)
	a, err := pks[who].RingSign(m, ring)
	must(err, "signed")
	b, err := pks[who].RingSign(o, ring)
	must(err, "signed")
	disjoint(numbers(a, ring), numbers(b, ring), "messages-share-no-number")
	vt.Reach("signed")
}

// HSigners: signatures of two members, for any messages, share no number.
func HSigners() {
	pks, ring := keys(2 + vt.Choose("members", 3))
	who := vt.Choose("signer", len(pks))
	by := vt.Choose("by", len(pks))
	vt.Assume(who != by)
	m := vt.String("message", 0, size())
	o := m
	if vt.Bool("other-message") {
		o = vt.String("other", 0, size())
	}
	a, err := pks[who].RingSign(m, ring)
	must(err, "signed")
	b, err := pks[by].RingSign(o, ring)
	must(err, "signed")
	disjoint(numbers(a, ring), numbers(b, ring), "signers-share-no-number")
	vt.Reach("signed")
}

// HRings: signatures of one member in two rings (another member, fewer members, another order) share no number.
func HRings() {
	pks, pubs := keys(4)
	one := pubs[:3]
	var two []signature.PublicKey
	at := 0
	switch vt.Choose("ring", 4) {
	case 0: // another member
		two = []signature.PublicKey{pubs[0], pubs[1], pubs[3]}
	case 1: // a member less
		two = pubs[:2]
	case 2: // another order, at the same place
		two = []signature.PublicKey{pubs[0], pubs[2], pubs[1]}
	case 3: // another order, at another place
		two = []signature.PublicKey{pubs[1], pubs[0], pubs[2]}
		at = vt.Choose("signer", 2)
	}
	m := vt.String("message", 0, size())
	a, err := pks[at].RingSign(m, one)
	must(err, "signed")
	b, err := pks[at].RingSign(m, two)
	must(err, "signed")
	disjoint(numbers(a, one), numbers(b, two), "rings-share-no-number")
	vt.Reach("signed")
}

// HLarge: the same for large rings and long messages.
func HLarge() {
	n := []int{6, 9, 17}[vt.Choose("members", 3)]
	pks, ring := keys(n)
	places := []int{0, n / 2, n - 1}
	m, o := hx.Texts("message", 1, 1)
	who, by := places[vt.Choose("signer", 3)], places[vt.Choose("by", 3)]
	vt.Assume(who != by || m != o)
	a, err := pks[who].RingSign(m, ring)
	must(err, "signed")
	b, err := pks[by].RingSign(o, ring)
	must(err, "signed")
	disjoint(numbers(a, ring), numbers(b, ring), "large-rings-share-no-number")
	vt.Reach("signed")
}

// Quick: the quick tier has the larger bounds too.
const Quick = 1
