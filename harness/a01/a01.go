package a01

import (
	"bytes"
	"crypto/sha512"

	"github.com/steve-care-software/steve/domain/hash"
	"github.com/steve-care-software/steve/zz_verif/vt"
)

func HBytesRoundTrip() {
	ad := hash.NewAdapter()
	b := vt.Bytes("b", 64, 64)
	cp := append([]byte{}, b...)
	h, err := ad.FromBytes(b)
	vt.Assert(err == nil, "from-bytes-accepts")
	if err != nil {
		return
	}
	vt.Assert(bytes.Equal(h.Bytes(), cp), "bytes-round-trip")
	h2, err := ad.FromString(h.String())
	vt.Assert(err == nil, "from-string-accepts")
	if err != nil {
		return
	}
	vt.Assert(h2.Compare(*h), "string-round-trip")
	vt.Assert(bytes.Equal(h2.Bytes(), cp), "string-round-trip-bytes")
	vt.Reach("round-trip")
	vt.Observe("s", h.String())
}

func HData() {
	ad := hash.NewAdapter()
	n := 70
	b := vt.Bytes("data", 0, n)
	if len(b) == 64 {
		return
	}
	h, err := ad.FromBytes(b)
	vt.Assert(err == nil, "from-bytes-accepts")
	if err != nil {
		return
	}
	w := sha512.Sum512(b)
	vt.Assert(bytes.Equal(h.Bytes(), w[:]), "digest")
	vt.Reach("digest")
}

func HCompare() {
	ad := hash.NewAdapter()
	a := vt.Bytes("a", 64, 64)
	b := vt.Bytes("b", 64, 64)
	x, _ := ad.FromBytes(a)
	y, _ := ad.FromBytes(b)
	vt.Assert(x.Compare(*y) == bytes.Equal(a, b), "compare-is-equality")
	vt.Reach("compare")
}

func HString() {
	ad := hash.NewAdapter()
	s := vt.String("s", 0, 5)
	h, err := ad.FromString(s)
	ok := len(s)%2 == 0
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F') {
			ok = false
		}
	}
	vt.Assert((err == nil) == ok, "hex-accepted-iff-valid")
	if ok {
		if err == nil {
			w := sha512.Sum512(decode(s))
			vt.Assert(bytes.Equal(h.Bytes(), w[:]), "hex-digest")
		}
		vt.Reach("valid")
	} else {
		vt.Reach("invalid")
	}
}

func decode(s string) []byte {
	out := []byte{}
	for i := 0; i+1 < len(s); i += 2 {
		out = append(out, digit(s[i])<<4|digit(s[i+1]))
	}
	return out
}

func digit(c byte) byte {
	switch {
	case c >= 'a':
		return c - 'a' + 10
	case c >= 'A':
		return c - 'A' + 10
	}
	return c - '0'
}

// HLongText: hexadecimal texts around the length of a hash.
func HLongText() {
	ad := hash.NewAdapter()
	b := vt.Bytes("b", 62, 66)
	text := []byte{}
	for _, c := range b {
		text = append(text, "0123456789abcdef"[c>>4], "0123456789ABCDEF"[c&15])
	}
	h, err := ad.FromString(string(text))
	vt.Assert(err == nil, "from-string-accepts")
	if err != nil {
		return
	}
	if len(b) == 64 {
		vt.Assert(bytes.Equal(h.Bytes(), b), "hash-text")
		vt.Reach("hash")
		return
	}
	w := sha512.Sum512(b)
	vt.Assert(bytes.Equal(h.Bytes(), w[:]), "text-digest")
	vt.Reach("data")
}

// HPieces: several pieces are read as the bytes of all of them, in order, and are left as they were.
func HPieces() {
	ad := hash.NewAdapter()
	n := vt.Choose("pieces", 4)
	max := 3
	if vt.Bool("hash-sized") {
		max = 0
	}
	list := [][]byte{}
	all := []byte{}
	for i := 0; i < n; i++ {
		var p []byte
		if max > 0 {
			p = vt.Bytes("piece", 0, max)
		} else {
			p = vt.Bytes("long", 32, 33)
		}
		room := append(make([]byte, 0, 80), p...)
		list = append(list, room)
		all = append(all, p...)
	}
	h, err := ad.FromMultiBytes(list)
	vt.Assert(err == nil, "pieces-accepted")
	if err != nil {
		return
	}
	if len(all) == 64 {
		vt.Assert(bytes.Equal(h.Bytes(), all), "pieces-of-a-hash")
		vt.Reach("hash")
	} else {
		w := sha512.Sum512(all)
		vt.Assert(bytes.Equal(h.Bytes(), w[:]), "pieces-digest")
		vt.Reach("data")
	}
	at := 0
	for _, p := range list {
		vt.Assert(bytes.Equal(p, all[at:at+len(p)]), "piece-unchanged")
		at += len(p)
	}
	again, err := ad.FromMultiBytes(list)
	vt.Assert(err == nil && again.Compare(*h), "pieces-again")
}

var large = []int{100, 127, 128, 129, 239, 240, 256, 1000, 5000}

// sized is data of the given length of which two bytes are arbitrary.
func sized(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i/256)
	}
	if n > 0 {
		b[n/2] = vt.Bytes(name+"-middle", 1, 1)[0]
		b[n-1] = vt.Bytes(name+"-last", 1, 1)[0]
	}
	return b
}

// HLarge: data of any length is read as the digest of all of it, from one piece or from many.
func HLarge() {
	ad := hash.NewAdapter()
	n := large[vt.Choose("length", len(large))]
	b := sized("data", n)
	w := sha512.Sum512(b)
	h, err := ad.FromBytes(b)
	vt.Assert(err == nil, "large-accepted")
	if err != nil {
		return
	}
	vt.Assert(bytes.Equal(h.Bytes(), w[:]), "large-digest")
	s := []int{1, 7, 64, 100}[vt.Choose("piece-length", 4)]
	list := [][]byte{}
	for i := 0; i < n; i += s {
		j := i + s
		if j > n {
			j = n
		}
		list = append(list, b[i:j])
	}
	h, err = ad.FromMultiBytes(list)
	vt.Assert(err == nil, "many-pieces-accepted")
	if err != nil {
		return
	}
	vt.Assert(bytes.Equal(h.Bytes(), w[:]), "many-pieces-digest")
	vt.Reach("large")
}
