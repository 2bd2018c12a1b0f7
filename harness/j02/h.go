// Package j02 checks ring signatures.
package j02

import (
	"encoding/base64"
	"strings"

	"github.com/steve-care-software/steve/domain/cryptography/keys/signature"
	"github.com/steve-care-software/steve/domain/hash"
	"github.com/steve-care-software/steve/zz_verif/hx"
	"github.com/steve-care-software/steve/zz_verif/vt"
)

func size() int {
	if vt.Deep() {
		return 4
	}
	if vt.Thorough() {
		return 3
	}
	return 2
}

func most() int {
	if vt.Deep() {
		return 5
	}
	if vt.Thorough() {
		return 4
	}
	return 3
}

func must(err error, what string) {
	vt.Assert(err == nil, what)
	vt.Assume(err == nil)
}

func key() signature.PrivateKey { return signature.NewPrivateKeyFactory().Create() }

// ring is a ring of n keys.
func ring(n int) ([]signature.PrivateKey, []signature.PublicKey) {
	pks, pubs := []signature.PrivateKey{}, []signature.PublicKey{}
	for i := 0; i < n; i++ {
		pk := key()
		pks = append(pks, pk)
		pubs = append(pubs, pk.PublicKey())
	}
	return pks, pubs
}

func hashes(pubs []signature.PublicKey) []hash.Hash {
	out := []hash.Hash{}
	for _, p := range pubs {
		h, err := hash.NewAdapter().FromString(p.String())
		must(err, "hashed")
		out = append(out, *h)
	}
	return out
}

// HRing: what a member of the ring signs is verified for the message, and for no other one.
func HRing() {
	n := 1 + vt.Choose("ring", most())
	pks, pubs := ring(n)
	signer := vt.Choose("signer", n)
	msg, wrong := vt.String("message", 0, size()), vt.String("wrong", 0, size())
	sig, err := pks[signer].RingSign(msg, pubs)
	must(err, "signed")
	vt.Assert(sig.Verify(msg), "verified")
	vt.Assert(sig.Verify(wrong) == (msg == wrong), "no-other-message")
	vt.Assert(len(sig.Ring()) == n, "ring-kept")
	for i := range sig.Ring() {
		vt.Assert(i < n && sig.Ring()[i].Equals(pubs[i]), "ring-kept")
	}
	back, err := signature.NewRingSignatureAdapter().ToSignature(sig.String())
	must(err, "read")
	vt.Assert(back.String() == sig.String() && len(back.Ring()) == n, "text-kept")
	for i := range back.Ring() {
		vt.Assert(i < n && back.Ring()[i].Equals(pubs[i]), "ring-kept")
	}
	vt.Assert(back.Verify(msg) && back.Verify(wrong) == (msg == wrong), "verified-after-reading")
	ok, err := signature.NewRingSignatureAdapter().ToVerification(back, msg, hashes(pubs))
	vt.Assert(ok && err == nil, "verified-with-hashes")
	vt.Reach("signed")
}

// HForeign: who is not in the ring cannot sign for it.
func HForeign() {
	_, pubs := ring(vt.Choose("ring", most()+1))
	sig, err := key().RingSign(vt.String("message", 0, size()), pubs)
	vt.Assert(err != nil && sig == nil, "refused")
	vt.Reach("refused")
}

// parts are the parts of the text of a ring signature.
func parts(sig signature.RingSignature) (ring []string, s []string, e string) {
	decoded, err := base64.StdEncoding.DecodeString(sig.String())
	must(err, "decoded")
	p := strings.Split(string(decoded), "#")
	vt.Assume(len(p) == 3)
	return strings.Split(strings.TrimSuffix(p[0], "|"), "|"), strings.Split(strings.TrimSuffix(p[1], "|"), "|"), p[2]
}

func text(ring []string, s []string, e string) string {
	out := ""
	for _, x := range ring {
		out += x + "|"
	}
	out += "#"
	for _, x := range s {
		out += x + "|"
	}
	return base64.StdEncoding.EncodeToString([]byte(out + "#" + e))
}

func swap(l []string, i, j int) []string {
	out := append([]string{}, l...)
	out[i], out[j] = out[j], out[i]
	return out
}

func without(l []string, i int) []string {
	return append(append([]string{}, l[:i]...), l[i+1:]...)
}

func replaced(l []string, i int, s string) []string {
	out := append([]string{}, l...)
	out[i] = s
	return out
}

// HTamper: a signature of which a part is changed is refused or not verified.
func HTamper() {
	n := 1 + vt.Choose("ring", most())
	pks, pubs := ring(n)
	msg := vt.String("message", 0, size())
	sig, err := pks[vt.Choose("signer", n)].RingSign(msg, pubs)
	must(err, "signed")
	other, err := pks[0].RingSign(msg+"!", pubs)
	must(err, "signed")
	r, s, e := parts(sig)
	_, s2, e2 := parts(other)
	i := vt.Choose("at", n)
	stranger := key()
	how := vt.Choose("how", 14)
	switch how {
	case 0: // another key
		r = replaced(r, i, stranger.PublicKey().String())
	case 1: // another number
		s = replaced(s, i, stranger.String())
	case 2: // another challenge
		e = stranger.String()
	case 3: // a key less
		r = without(r, i)
	case 4: // a number less
		s = without(s, i)
	case 5: // a member less
		r, s = without(r, i), without(s, i)
	case 6: // another order
		vt.Assume(n > 1)
		r = swap(r, i, (i+1)%n)
	case 7:
		vt.Assume(n > 1)
		s = swap(s, i, (i+1)%n)
	case 8: // a member more
		r = append(append([]string{}, r...), stranger.PublicKey().String())
	case 9:
		r, s = append(append([]string{}, r...), stranger.PublicKey().String()), append(append([]string{}, s...), stranger.String())
	case 10: // the parts of another signature
		s = replaced(s, i, s2[i])
	case 11:
		e = e2
	case 12: // nobody
		r, s = nil, nil
	case 13: // a number more
		s = append(append([]string{}, s...), stranger.String())
	}
	back, err := signature.NewRingSignatureAdapter().ToSignature(text(r, s, e))
	vt.Reach("tampered")
	if err != nil {
		return
	}
	vt.Assert(!back.Verify(msg), "not-verified")
	ok, err := signature.NewRingSignatureAdapter().ToVerification(back, msg, hashes(back.Ring()))
	vt.Assert(!ok && err != nil, "not-verified-with-hashes")
}

// HVerification: a signature is verified with the hashes of exactly its ring.
func HVerification() {
	n := 1 + vt.Choose("ring", most())
	pks, pubs := ring(n)
	msg := vt.String("message", 0, size())
	sig, err := pks[vt.Choose("signer", n)].RingSign(msg, pubs)
	must(err, "signed")
	hs := hashes(pubs)
	good := true
	switch vt.Choose("how", 6) {
	case 0:
		i := vt.Choose("at", n)
		hs = append(append([]hash.Hash{}, hs[:i]...), hs[i+1:]...)
		good = false
	case 1:
		hs = append(hs, hs[0])
		good = false
	case 2:
		vt.Assume(n > 1)
		i := vt.Choose("at", n-1)
		hs[i], hs[i+1] = hs[i+1], hs[i]
		good = false
	case 3:
		hs[vt.Choose("at", n)] = hashes([]signature.PublicKey{key().PublicKey()})[0]
		good = false
	case 4:
		wrong := vt.String("wrong", 0, size())
		good = wrong == msg
		msg = wrong
	}
	ok, err := signature.NewRingSignatureAdapter().ToVerification(sig, msg, hs)
	vt.Assert(ok == good && (err == nil) == good, "verification")
	vt.Reach("verified")
}

// HMalformed: texts that are not those of a ring signature are refused.
func HMalformed() {
	pks, pubs := ring(2)
	sig, err := pks[0].RingSign("message", pubs)
	must(err, "signed")
	r, s, e := parts(sig)
	at := vt.Choose("part", 3)
	cut := func(s string, how int) string {
		switch how {
		case 0:
			return s[:len(s)-2]
		case 1:
			return s[:len(s)-1]
		case 2:
			return s + "00"
		case 3:
			return "g" + s[1:]
		case 4:
			return s + s
		default:
			return s[:10] + "#" + s[11:]
		}
	}
	how := vt.Choose("how", 6)
	switch at {
	case 0:
		i := vt.Choose("at", 2)
		r = replaced(r, i, cut(r[i], how))
	case 1:
		i := vt.Choose("at", 2)
		s = replaced(s, i, cut(s[i], how))
	default:
		if how == 5 {
			e = ""
		} else {
			e = cut(e, how)
		}
	}
	_, err = signature.NewRingSignatureAdapter().ToSignature(text(r, s, e))
	vt.Assert(err != nil, "malformed-refused")
	full := sig.String()
	_, err = signature.NewRingSignatureAdapter().ToSignature([]string{full[1:], full[:len(full)-1], "", full + "A", "!" + full[1:], full + full}[how])
	vt.Assert(err != nil, "malformed-encoding-refused")
	vt.Reach("refused")
}

// HLarge: the same for large rings and long messages that differ in one place at most.
func HLarge() {
	n := []int{1, 6, 9, 17}[vt.Choose("ring", 4)]
	pks, pubs := ring(n)
	signer := []int{0, n / 2, n - 1}[vt.Choose("signer", 3)]
	msg, wrong := hx.Texts("message", 1, 1)
	sig, err := pks[signer].RingSign(msg, pubs)
	must(err, "signed")
	vt.Assert(sig.Verify(msg), "verified")
	vt.Assert(sig.Verify(wrong) == (msg == wrong), "no-other-message")
	back, err := signature.NewRingSignatureAdapter().ToSignature(sig.String())
	must(err, "read")
	vt.Assert(back.String() == sig.String() && len(back.Ring()) == n && len(sig.Ring()) == n, "text-kept")
	for i := range back.Ring() {
		vt.Assert(i < n && back.Ring()[i].Equals(pubs[i]), "ring-kept")
	}
	vt.Assert(back.Verify(msg) && back.Verify(wrong) == (msg == wrong), "verified-after-reading")
	ok, err := signature.NewRingSignatureAdapter().ToVerification(back, msg, hashes(pubs))
	vt.Assert(ok && err == nil, "verified-with-hashes")
	_, err = key().RingSign(msg, pubs)
	vt.Assert(err != nil, "refused")
	vt.Reach("signed")
}

// Quick: the quick tier has the larger bounds too.
const Quick = 1
