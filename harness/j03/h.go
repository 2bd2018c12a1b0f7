// Package j03 checks that signatures do not give away the key.
package j03

import (
	"encoding/base64"
	"encoding/hex"
	"strings"

	"github.com/steve-care-software/steve/domain/cryptography/keys/signature"
	"github.com/steve-care-software/steve/zz_verif/hx"
	"github.com/steve-care-software/steve/zz_verif/vt"
	kyber "go.dedis.ch/kyber/v3"
	"go.dedis.ch/kyber/v3/group/edwards25519"
)

var curve = edwards25519.NewBlakeSHA256Ed25519()

func size() int {
	if vt.Deep() {
		return 5
	}
	if vt.Thorough() {
		return 3
	}
	return 2
}

func must(err error, what string) {
	vt.Assert(err == nil, what)
	vt.Assume(err == nil)
}

func key() signature.PrivateKey { return signature.NewPrivateKeyFactory().Create() }

// digest is the challenge of a text.
func digest(s string) kyber.Scalar {
	h := curve.Hash()
	h.Write([]byte(s))
	return curve.Scalar().SetBytes(h.Sum(nil))
}

func scalar(s string) kyber.Scalar {
	b, err := hex.DecodeString(s)
	must(err, "scalar-decoded")
	x := curve.Scalar()
	must(x.UnmarshalBinary(b), "scalar-read")
	return x
}

func fields(text string) []string {
	b, err := base64.StdEncoding.DecodeString(text)
	must(err, "decoded")
	return strings.Split(string(b), "#")
}

// equation is what is known of the key x of a signature: k = s + e * x, where only k*G is public.
type equation struct {
	point kyber.Point // k * G
	e     kyber.Scalar
}

// published is what a signature publishes.
type published struct {
	equations []equation
	numbers   []kyber.Scalar
}

func add(p *published, pub signature.PublicKey, s, e kyber.Scalar) kyber.Point {
	pt := curve.Point().Add(curve.Point().Mul(s, nil), curve.Point().Mul(e, pub.Point()))
	p.equations = append(p.equations, equation{pt, e})
	p.numbers = append(p.numbers, s, e)
	return pt
}

func simple(pk signature.PrivateKey, msg string) *published {
	sig, err := pk.Sign(msg)
	must(err, "signed")
	f := fields(sig.String())
	vt.Assume(len(f) == 2)
	p := &published{}
	r := add(p, pk.PublicKey(), scalar(f[1]), digest(msg+f[0]))
	vt.Assert(r.String() == f[0], "signature-holds")
	return p
}

// inRing publishes a signature of the first key for a ring where it is at the index.
func inRing(pk signature.PrivateKey, others []signature.PublicKey, at int, msg string) *published {
	ring := append(append(append([]signature.PublicKey{}, others[:at]...), pk.PublicKey()), others[at:]...)
	sig, err := pk.RingSign(msg, ring)
	must(err, "signed")
	f := fields(sig.String())
	vt.Assume(len(f) == 3)
	ss := strings.Split(strings.TrimSuffix(f[1], "|"), "|")
	vt.Assume(len(ss) == len(ring))
	p := &published{}
	e := scalar(f[2])
	for i, pub := range ring {
		// every member could be the signer: only those of the key count
		one := &published{}
		s := scalar(ss[i])
		pt := add(one, pub, s, e)
		if i == at {
			p.equations = append(p.equations, one.equations...)
		}
		p.numbers = append(p.numbers, one.numbers...)
		e = digest(msg + pt.String())
	}
	vt.Assert(e.String() == f[2], "ring-closes")
	return p
}

// publish is a signature of the key, of any kind.
func publish(pk signature.PrivateKey, others []signature.PublicKey, what string) *published {
	msg := vt.String("message", 0, size())
	kind := vt.Choose(what, 2)
	if kind == 0 {
		return simple(pk, msg)
	}
	n := vt.Choose("others", len(others)+1)
	list := others[:n]
	if n == 1 && vt.Bool("another-ring") {
		list = others[1:2]
	}
	return inRing(pk, list, vt.Choose("at", n+1), msg)
}

// secret asserts that the equations do not determine the key.
func secret(all ...*published) {
	eqs, nums := []equation{}, []kyber.Scalar{}
	for _, p := range all {
		eqs = append(eqs, p.equations...)
		nums = append(nums, p.numbers...)
	}
	for i, a := range eqs {
		for _, b := range eqs[i+1:] {
			vt.Assert(!a.point.Equal(b.point) || a.e.Equal(b.e), "secret-number-used-once")
		}
		for _, t := range nums {
			vt.Assert(!a.point.Equal(curve.Point().Mul(t, nil)), "secret-number-not-published")
		}
	}
}

// HLeak: two signatures of a key, of any kind and for any messages and rings, do not give the key.
func HLeak() {
	pk := key()
	others := []signature.PublicKey{key().PublicKey(), key().PublicKey()}
	first := publish(pk, others, "first")
	second := publish(pk, others, "second")
	secret(first, second)
	vt.Reach("published")
}

// HKey: the key is not a part of what is published.
func HKey() {
	pk := key()
	others := []signature.PublicKey{key().PublicKey(), key().PublicKey()}
	p := publish(pk, others, "kind")
	for _, t := range p.numbers {
		vt.Assert(t.String() != pk.String() && !curve.Point().Mul(t, nil).Equal(pk.PublicKey().Point()), "key-not-published")
	}
	vt.Reach("published")
}

// HLong: the same for long messages and a larger ring.
func HLong() {
	pk := key()
	others := []signature.PublicKey{}
	for i := 0; i < 7; i++ {
		others = append(others, key().PublicKey())
	}
	m, o := hx.Texts("message", 1, 1)
	sign := func(kind int, msg string) *published {
		if kind == 0 {
			return simple(pk, msg)
		}
		return inRing(pk, others, []int{0, 3, 7}[kind-1], msg)
	}
	secret(sign(vt.Choose("first", 4), m), sign(vt.Choose("second", 4), o))
	vt.Reach("published")
}

// Quick: the quick tier has the larger bounds too.
const Quick = 1
