// Package k02 checks the encryption of messages for the owner of a private key.
package k02

import (
	"bytes"
	"encoding/base64"

	"github.com/steve-care-software/steve/domain/cryptography/keys/encryption"
	"github.com/steve-care-software/steve/domain/hash"
	"github.com/steve-care-software/steve/zz_verif/vt"
)

const bits = 1024

func must(err error, what string) {
	vt.Assert(err == nil, what)
	vt.Assume(err == nil)
}

func key() encryption.PrivateKey {
	pk, err := encryption.NewFactory(bits).Create()
	must(err, "key")
	return pk
}

func size() int {
	if vt.Thorough() {
		return bits/8 - 66
	}
	return 8
}

func same(a, b encryption.PrivateKey) bool {
	x, y := a.Key(), b.Key()
	return x.Equal(&y)
}

func samePublic(a, b encryption.PublicKey) bool {
	x, y := a.Key(), b.Key()
	return x.Equal(&y)
}

// HRound: what is encrypted for a public key is read with its private key, and with no other.
func HRound() {
	pk, other := key(), key()
	msg := vt.Bytes("message", 0, size())
	given := append([]byte{}, msg...)
	cipher, err := pk.Public().Encrypt(msg)
	must(err, "encrypted")
	vt.Assert(bytes.Equal(msg, given), "message-left-alone")
	back, err := pk.Decrypt(cipher)
	must(err, "decrypted")
	vt.Assert(bytes.Equal(back, given), "message-kept")
	_, err = other.Decrypt(cipher)
	vt.Assert(err != nil, "refused-by-another-key")
	second, err := pk.Public().Encrypt(msg)
	must(err, "encrypted")
	vt.Assert(!bytes.Equal(cipher, second), "ciphers-differ")
	vt.Reach("decrypted")
}

// HTamper: what is not a message encrypted for the key is refused.
func HTamper() {
	pk := key()
	cipher, err := pk.Public().Encrypt([]byte("message"))
	must(err, "encrypted")
	switch vt.Choose("how", 4) {
	case 0:
		cipher = cipher[:len(cipher)-1]
	case 1:
		cipher = append(cipher, 0)
	case 2:
		cipher = append([]byte{}, cipher...)
		cipher[vt.Choose("at", 3)*(bits/8-1)/2] ^= 1 + byte(vt.Choose("bit", 3))
	default:
		cipher = vt.Bytes("raw", 0, 3)
	}
	_, err = pk.Decrypt(cipher)
	vt.Assert(err != nil, "refused")
	vt.Reach("refused")
}

// HTexts: keys read from their bytes and texts are the same ones and work together.
func HTexts() {
	pk, other := key(), key()
	adapter, publics := encryption.NewAdapter(), encryption.NewPublickeyAdapter()
	var back encryption.PrivateKey
	var pub encryption.PublicKey
	var err error
	if vt.Bool("encoded") {
		back, err = adapter.FromEncoded(adapter.ToEncoded(pk))
		must(err, "private-key-read")
		pub, err = publics.FromEncoded(publics.ToEncoded(pk.Public()))
	} else {
		back, err = adapter.FromBytes(adapter.ToBytes(pk))
		must(err, "private-key-read")
		pub, err = publics.FromBytes(publics.ToBytes(pk.Public()))
	}
	must(err, "public-key-read")
	vt.Assert(same(back, pk) && !same(back, other), "private-key-kept")
	vt.Assert(samePublic(pub, pk.Public()) && samePublic(back.Public(), pub), "public-key-kept")
	vt.Assert(!samePublic(pub, other.Public()), "public-keys-differ")
	msg := vt.Bytes("message", 0, 3)
	cipher, err := pub.Encrypt(msg)
	must(err, "encrypted")
	got, err := back.Decrypt(cipher)
	must(err, "decrypted")
	vt.Assert(bytes.Equal(got, msg), "message-kept")
	got, err = pk.Decrypt(cipher)
	must(err, "decrypted")
	vt.Assert(bytes.Equal(got, msg), "message-kept-with-the-first-key")
	vt.Reach("read")
}

// HSequence: an adapter reads one key after another, each as itself.
func HSequence() {
	a, b := key(), key()
	adapter, publics := encryption.NewAdapter(), encryption.NewPublickeyAdapter()
	first, err := adapter.FromBytes(adapter.ToBytes(a))
	must(err, "private-key-read")
	firstPub, err := publics.FromBytes(publics.ToBytes(a.Public()))
	must(err, "public-key-read")
	second, err := adapter.FromBytes(adapter.ToBytes(b))
	must(err, "private-key-read")
	secondPub, err := publics.FromBytes(publics.ToBytes(b.Public()))
	must(err, "public-key-read")
	vt.Assert(same(first, a) && same(second, b), "private-keys-kept")
	vt.Assert(samePublic(first.Public(), a.Public()) && samePublic(second.Public(), b.Public()), "public-keys-of-the-private-keys")
	vt.Assert(samePublic(firstPub, a.Public()) && samePublic(secondPub, b.Public()), "public-keys-kept")
	vt.Reach("read")
}

// HHash: the hash of a public key is that of its bytes, so that only the same key has it.
func HHash() {
	a, b := key(), key()
	publics := encryption.NewPublickeyAdapter()
	got, err := publics.ToHash(a.Public())
	must(err, "hash")
	want, err := hash.NewAdapter().FromBytes(publics.ToBytes(a.Public()))
	must(err, "hash")
	other, err := publics.ToHash(b.Public())
	must(err, "hash")
	vt.Assert(got.Compare(*want), "hash-of-the-bytes")
	vt.Assert(!got.Compare(*other), "hash-of-the-key")
	vt.Reach("hashed")
}

// HMalformed: bytes and texts that are not those of a key are refused.
func HMalformed() {
	pk := key()
	adapter, publics := encryption.NewAdapter(), encryption.NewPublickeyAdapter()
	private, public := adapter.ToBytes(pk), publics.ToBytes(pk.Public())
	cut := func(data []byte, how int) []byte {
		switch how {
		case 0:
			return data[:len(data)-1]
		case 1:
			return data[1:]
		case 2:
			return append(append([]byte{}, data...), 0)
		case 3:
			return nil
		default:
			return append(append([]byte{}, data...), data...)
		}
	}
	switch vt.Choose("kind", 4) {
	case 0:
		how := vt.Choose("how", 5)
		_, err := adapter.FromBytes(cut(private, how))
		vt.Assert(err != nil, "malformed-private-key-refused")
		_, err = publics.FromBytes(cut(public, how))
		vt.Assert(err != nil, "malformed-public-key-refused")
		_, err = adapter.FromEncoded(base64.StdEncoding.EncodeToString(cut(private, how)))
		vt.Assert(err != nil, "malformed-private-key-text-refused")
		_, err = publics.FromEncoded(base64.StdEncoding.EncodeToString(cut(public, how)))
		vt.Assert(err != nil, "malformed-public-key-text-refused")
	case 1:
		_, err := adapter.FromBytes(public)
		vt.Assert(err != nil, "public-key-is-no-private-key")
		_, err = publics.FromBytes(private)
		vt.Assert(err != nil, "private-key-is-no-public-key")
	case 2:
		raw := vt.Bytes("raw", 0, 3)
		_, err := adapter.FromBytes(raw)
		vt.Assert(err != nil, "short-private-key-refused")
		_, err = publics.FromBytes(raw)
		vt.Assert(err != nil, "short-public-key-refused")
	default:
		text := vt.String("text", 0, 5)
		_, err := adapter.FromEncoded(text)
		vt.Assert(err != nil, "short-private-key-text-refused")
		_, err = publics.FromEncoded(text)
		vt.Assert(err != nil, "short-public-key-text-refused")
	}
	vt.Reach("refused")
}

// HBuilders: keys are mandatory, and Create forgets them.
func HBuilders() {
	pk := key()
	given, restarted := vt.Bool("given"), vt.Bool("restarted")
	b, p := encryption.NewBuilder().Create(), encryption.NewPublicKeyBuilder().Create()
	if given {
		b, p = b.WithPK(pk.Key()), p.WithKey(pk.Public().Key())
	}
	if restarted {
		b, p = b.Create(), p.Create()
	}
	private, err := b.Now()
	vt.Assert((err == nil) == (given && !restarted), "private-key-mandatory")
	vt.Assert(err != nil || same(private, pk) && samePublic(private.Public(), pk.Public()), "private-key-kept")
	public, err := p.Now()
	vt.Assert((err == nil) == (given && !restarted), "public-key-mandatory")
	vt.Assert(err != nil || samePublic(public, pk.Public()), "public-key-kept")
	vt.Reach("built")
}

// Quick: the quick tier has the larger bounds too.
const Quick = 1
