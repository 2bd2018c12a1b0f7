// Package k01 checks the encryption of messages with a password.
package k01

import (
	"bytes"
	"encoding/base64"

	"github.com/steve-care-software/steve/domain/cryptography"
	"github.com/steve-care-software/steve/zz_verif/vt"
)

func must(err error, what string) {
	vt.Assert(err == nil, what)
	vt.Assume(err == nil)
}

func size() int {
	if vt.Deep() {
		return 81
	}
	if vt.Thorough() {
		return 49
	}
	return 34
}

func build(password []byte) encryption.Encryption {
	enc, err := encryption.NewBuilder().Create().WithPassword(password).Now()
	must(err, "built")
	return enc
}

// HRound: what is encrypted with a password is read with the same password, and the message of the caller is left alone.
func HRound() {
	password := vt.Bytes("password", 0, 3)
	msg := vt.Bytes("message", 0, size())
	given := append([]byte{}, msg...)
	enc := build(password)
	text, err := enc.Encrypt(msg)
	must(err, "encrypted")
	vt.Assert(bytes.Equal(msg, given), "message-left-alone")
	back, err := enc.Decrypt(text)
	must(err, "decrypted")
	vt.Assert(bytes.Equal(back, given), "message-kept")
	again, err := build(append([]byte{}, password...)).Decrypt(text)
	must(err, "decrypted")
	vt.Assert(bytes.Equal(again, given), "message-kept-with-the-same-password")
	third, err := encryption.NewEncryption(string(password)).Decrypt(text)
	must(err, "decrypted")
	vt.Assert(bytes.Equal(third, given), "message-kept-with-the-password-as-a-text")
	vt.Reach("decrypted")
}

// HFresh: encrypting twice never gives the same text nor the same stream, and the text does not show the message.
func HFresh() {
	msg := vt.Bytes("message", 16, 20)
	other := vt.Bytes("other", 16, 20)
	enc := build([]byte(vt.String("password", 0, 2)))
	first, err := enc.Encrypt(msg)
	must(err, "encrypted")
	second, err := enc.Encrypt(other)
	must(err, "encrypted")
	vt.Assert(first != second, "texts-differ")
	a, err := base64.StdEncoding.DecodeString(first)
	must(err, "base64")
	b, err := base64.StdEncoding.DecodeString(second)
	must(err, "base64")
	vt.Assert(len(a) >= 16+len(msg) && len(b) >= 16+len(other), "longer-than-the-message")
	vt.Assume(len(a) >= 16+len(msg) && len(b) >= 16+len(other))
	vt.Assert(!bytes.Equal(a[:16], b[:16]), "initial-vectors-differ")
	same := true
	for i := 16; i < 32; i++ {
		same = same && a[i]^msg[i-16] == b[i]^other[i-16]
	}
	vt.Assert(!same, "streams-differ")
	vt.Reach("encrypted")
}

// HWrong: another password does not give the message.
func HWrong() {
	password, wrong := vt.Bytes("password", 0, 3), vt.Bytes("wrong", 0, 3)
	vt.Assume(!bytes.Equal(password, wrong))
	msg := vt.Bytes("message", 16, 20)
	text, err := build(password).Encrypt(msg)
	must(err, "encrypted")
	back, err := build(wrong).Decrypt(text)
	vt.Assert(err != nil || !bytes.Equal(back, msg), "unreadable-with-another-password")
	back, err = encryption.NewEncryption(string(wrong)).Decrypt(text)
	vt.Assert(err != nil || !bytes.Equal(back, msg), "unreadable-with-another-password-as-a-text")
	vt.Reach("wrong")
}

// HBuilder: a password is mandatory, and Create forgets it.
func HBuilder() {
	given := vt.Bool("given")
	restarted := vt.Bool("restarted")
	b := encryption.NewBuilder().Create()
	if given {
		b = b.WithPassword(vt.Bytes("password", 0, 2))
	}
	if restarted {
		b = b.Create()
	}
	enc, err := b.Now()
	vt.Assert((err == nil) == (given && !restarted), "password-mandatory")
	vt.Assert(err != nil || enc != nil, "built")
	vt.Reach("built")
}

// HMalformed: a text that is not an encrypted message is refused.
func HMalformed() {
	enc := build([]byte("password"))
	switch vt.Choose("kind", 3) {
	case 0:
		raw := vt.Bytes("raw", 0, 15)
		_, err := enc.Decrypt(base64.StdEncoding.EncodeToString(raw))
		vt.Assert(err != nil, "short-text-refused")
	case 1:
		text, err := enc.Encrypt(vt.Bytes("message", 1, 4))
		must(err, "encrypted")
		switch vt.Choose("how", 4) {
		case 0:
			text = text[1:]
		case 1:
			text = text[:5] + "!" + text[6:]
		case 2:
			text = text + "="
		default:
			text = "-" + text[1:]
		}
		_, err = enc.Decrypt(text)
		vt.Assert(err != nil, "malformed-text-refused")
	default:
		_, err := enc.Decrypt(vt.String("text", 0, 5))
		vt.Assert(err != nil, "any-short-text-refused")
	}
	vt.Reach("refused")
}

// HTamper: the length of the message is that of the text, whatever the text holds, and reading it twice gives the same message.
func HTamper() {
	enc := build([]byte("password"))
	raw := vt.Bytes("raw", 16, 36)
	text := base64.StdEncoding.EncodeToString(raw)
	first, err := enc.Decrypt(text)
	must(err, "read")
	vt.Assert(len(first) == len(raw)-16, "length")
	second, err := enc.Decrypt(text)
	must(err, "read")
	vt.Assert(bytes.Equal(first, second), "read-twice")
	vt.Reach("read")
}

// HLong: the same for long messages and passwords.
func HLong() {
	long := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i * 5)
		}
		return b
	}
	msg := long([]int{64, 65, 130}[vt.Choose("length", 3)])
	msg[len(msg)-1] = vt.Bytes("last", 1, 1)[0]
	given := append([]byte{}, msg...)
	n := []int{4, 16, 32, 33, 64, 100}[vt.Choose("password-length", 6)]
	password := long(n)
	text, err := build(password).Encrypt(msg)
	must(err, "encrypted")
	vt.Assert(bytes.Equal(msg, given), "message-left-alone")
	back, err := build(append([]byte{}, password...)).Decrypt(text)
	must(err, "decrypted")
	vt.Assert(bytes.Equal(back, given), "message-kept")
	vt.Reach("decrypted")
}

// HLongWrong: a long password that is not the one does not give the message.
func HLongWrong() {
	n := []int{4, 16, 32, 33, 64, 100}[vt.Choose("password-length", 6)]
	password, wrong := make([]byte, n), make([]byte, n)
	for i := range password {
		password[i] = byte(i * 5)
	}
	copy(wrong, password)
	msg := vt.Bytes("message", 16, 16)
	text, err := build(password).Encrypt(msg)
	must(err, "encrypted")
	switch vt.Choose("wrong", 4) {
	case 0:
		wrong[0] = vt.Bytes("byte", 1, 1)[0]
		vt.Assume(wrong[0] != password[0])
	case 1:
		wrong[n-1] = vt.Bytes("byte", 1, 1)[0]
		vt.Assume(wrong[n-1] != password[n-1])
	case 2:
		wrong = wrong[:n-1]
	default:
		wrong = append(wrong, vt.Bytes("byte", 1, 1)...)
	}
	back, err := build(wrong).Decrypt(text)
	vt.Assert(err != nil || !bytes.Equal(back, msg), "unreadable-with-another-password")
	vt.Reach("wrong")
}

// Quick: the quick tier has the larger bounds too.
const Quick = 1
