// Package j01 checks signatures and the texts of keys and signatures.
package j01

import (
	"encoding/base64"
	"strings"

	"github.com/steve-care-software/steve/domain/cryptography/keys/signature"
	"github.com/steve-care-software/steve/zz_verif/hx"
	"github.com/steve-care-software/steve/zz_verif/vt"
)

func size() int {
	if vt.Thorough() {
		return 4
	}
	return 2
}

func must(err error, what string) {
	vt.Assert(err == nil, what)
	vt.Assume(err == nil)
}

func key() signature.PrivateKey { return signature.NewPrivateKeyFactory().Create() }

// HSign: a signature gives the public key of its signer for its message, and for no other message.
func HSign() {
	pk, other := key(), key()
	msg, wrong := vt.String("message", 0, size()), vt.String("wrong", 0, size())
	sig, err := pk.Sign(msg)
	must(err, "signed")
	pub := sig.PublicKey(msg)
	vt.Assert(sig.Verify(), "verified")
	vt.Assert(pub.Equals(pk.PublicKey()) && pub.String() == pk.PublicKey().String(), "public-key-of-the-signer")
	vt.Assert(!pub.Equals(other.PublicKey()) && pub.String() != other.PublicKey().String(), "no-other-public-key")
	vt.Assert(sig.PublicKey(wrong).Equals(pk.PublicKey()) == (msg == wrong), "no-other-message")
	vt.Reach("signed")
}

// HTwo: signatures of two keys or of two messages differ, and none gives the key of the other.
func HTwo() {
	pk, other := key(), key()
	a, b := vt.String("message", 0, size()), vt.String("second", 0, size())
	first, err := pk.Sign(a)
	must(err, "signed")
	second, err := pk.Sign(b)
	must(err, "signed")
	third, err := other.Sign(b)
	must(err, "signed")
	vt.Assert((first.String() == second.String()) == (a == b), "signature-of-the-message")
	vt.Assert(third.String() != second.String(), "signature-of-the-key")
	vt.Assert(second.PublicKey(b).Equals(pk.PublicKey()) && third.PublicKey(b).Equals(other.PublicKey()), "public-keys")
	vt.Assert(!third.PublicKey(b).Equals(pk.PublicKey()), "no-other-public-key")
	vt.Reach("signed")
}

// HText: a signature read from its text is the same one.
func HText() {
	pk := key()
	msg, wrong := vt.String("message", 0, size()), vt.String("wrong", 0, size())
	sig, err := pk.Sign(msg)
	must(err, "signed")
	back, err := signature.NewAdapter().ToSignature(sig.String())
	must(err, "read")
	vt.Assert(back.String() == sig.String(), "text-kept")
	vt.Assert(back.Verify(), "verified")
	vt.Assert(back.PublicKey(msg).Equals(pk.PublicKey()), "public-key-of-the-signer")
	vt.Assert(back.PublicKey(wrong).Equals(pk.PublicKey()) == (msg == wrong), "no-other-message")
	vt.Reach("read")
}

// HKeys: keys read from their texts are the same ones.
func HKeys() {
	pk, other := key(), key()
	back, err := signature.NewPrivateKeyAdapter().ToPrivateKey(pk.String())
	must(err, "private-key-read")
	vt.Assert(back.String() == pk.String() && back.PublicKey().Equals(pk.PublicKey()), "private-key-kept")
	vt.Assert(pk.String() != other.String() && !pk.PublicKey().Equals(other.PublicKey()), "keys-differ")
	pub, err := signature.NewPublicKeyAdapter().ToPublicKey(pk.PublicKey().String())
	must(err, "public-key-read")
	vt.Assert(pub.Equals(pk.PublicKey()) && pk.PublicKey().Equals(pub) && pub.String() == pk.PublicKey().String(), "public-key-kept")
	vt.Assert(!pub.Equals(other.PublicKey()) && !other.PublicKey().Equals(pub), "public-keys-differ")
	msg := vt.String("message", 0, size())
	sig, err := back.Sign(msg)
	must(err, "signed")
	vt.Assert(sig.PublicKey(msg).Equals(pub), "signed-with-the-key-read")
	vt.Reach("read")
}

// hexText is the text with its i-th part of the length.
func cut(s string, what int) string {
	switch what {
	case 0:
		return s[:len(s)-2]
	case 1:
		return s[:len(s)-1]
	case 2:
		return ""
	case 3:
		return s + "00"
	case 4:
		return s + s
	case 5:
		return "g" + s[1:]
	case 6:
		return s[:10] + "#" + s[11:]
	default:
		return s[2:]
	}
}

const cuts = 8

// HMalformed: texts that are not those of a key or of a signature are refused.
func HMalformed() {
	pk := key()
	how := vt.Choose("how", cuts)
	_, err := signature.NewPrivateKeyAdapter().ToPrivateKey(cut(pk.String(), how))
	vt.Assert(err != nil, "malformed-private-key-refused")
	_, err = signature.NewPublicKeyAdapter().ToPublicKey(cut(pk.PublicKey().String(), how))
	vt.Assert(err != nil, "malformed-public-key-refused")
	sig, err := pk.Sign("message")
	must(err, "signed")
	decoded, err := base64.StdEncoding.DecodeString(sig.String())
	must(err, "decoded")
	parts := strings.Split(string(decoded), "#")
	vt.Assume(len(parts) == 2)
	text := ""
	switch vt.Choose("part", 4) {
	case 0:
		text = cut(parts[0], how) + "#" + parts[1]
	case 1:
		text = parts[0] + "#" + cut(parts[1], how)
	case 2:
		text = []string{"", "#", parts[0], parts[0] + "#", "#" + parts[1], parts[0] + parts[1], parts[0] + "#" + parts[1] + "#", "#" + parts[0] + "#" + parts[1]}[how]
	default:
		s := sig.String()
		_, err := signature.NewAdapter().ToSignature([]string{s[1:], s[:len(s)-1], "", "#" + s, s[:20] + "!" + s[21:], s + "=", s + "A", "-" + s[1:]}[how])
		vt.Assert(err != nil, "malformed-encoding-refused")
		return
	}
	_, err = signature.NewAdapter().ToSignature(base64.StdEncoding.EncodeToString([]byte(text)))
	vt.Assert(err != nil, "malformed-signature-refused")
	vt.Reach("refused")
}

// HShort: short texts are neither keys nor signatures, and reading them never panics.
func HShort() {
	s := vt.String("text", 0, size()+2)
	_, err := signature.NewPrivateKeyAdapter().ToPrivateKey(s)
	vt.Assert(err != nil, "short-private-key-refused")
	_, err = signature.NewPublicKeyAdapter().ToPublicKey(s)
	vt.Assert(err != nil, "short-public-key-refused")
	_, err = signature.NewAdapter().ToSignature(s)
	vt.Assert(err != nil, "short-signature-refused")
	_, err = signature.NewAdapter().ToSignature(base64.StdEncoding.EncodeToString([]byte(s)))
	vt.Assert(err != nil, "short-signature-refused")
	_, err = signature.NewRingSignatureAdapter().ToSignature(s)
	vt.Assert(err != nil, "short-ring-signature-refused")
	vt.Reach("refused")
}

// HLong: the same for long messages that differ in one place at most.
func HLong() {
	pk := key()
	msg, wrong := hx.Texts("message", 1, 1)
	sig, err := pk.Sign(msg)
	must(err, "signed")
	vt.Assert(sig.PublicKey(msg).Equals(pk.PublicKey()), "public-key-of-the-signer")
	vt.Assert(sig.PublicKey(wrong).Equals(pk.PublicKey()) == (msg == wrong), "no-other-message")
	second, err := pk.Sign(wrong)
	must(err, "signed")
	vt.Assert((sig.String() == second.String()) == (msg == wrong), "signature-of-the-message")
	back, err := signature.NewAdapter().ToSignature(sig.String())
	must(err, "read")
	vt.Assert(back.PublicKey(msg).Equals(pk.PublicKey()) && back.PublicKey(wrong).Equals(pk.PublicKey()) == (msg == wrong), "read-back")
	vt.Reach("signed")
}
