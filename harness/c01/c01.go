// Package c01 checks peer addresses.
package c01

import (
	"strconv"
	"strings"

	"github.com/steve-care-software/steve/domain/peers"
	"github.com/steve-care-software/steve/zz_verif/hx"
	"github.com/steve-care-software/steve/zz_verif/vt"
)

// HParts: a peer built from a host and a port keeps both; its text is the host, the delimiter and the port.
func HParts() {
	host := vt.String("host", 0, 3)
	port := vt.Uint("port")
	if !vt.Deep() {
		vt.Assume(port < 100000)
	}
	b := peers.NewPeerBuilder(":").Create()
	if vt.Bool("dirty") {
		b = b.WithHost("dirt").WithPort(1).WithString("a:1").Create()
	}
	hasH, hasP := vt.Bool("has-host"), vt.Bool("has-port")
	if hasH {
		b = b.WithHost(host)
	}
	if hasP {
		b = b.WithPort(port)
	}
	p, err := b.Now()
	vt.Assert((err == nil) == (hasH && host != "" && hasP), "built-iff-complete")
	if err != nil {
		vt.Assert(p == nil, "no-value-with-error")
		vt.Reach("refused")
		return
	}
	vt.Assert(p.Host() == host, "host-kept")
	vt.Assert(p.Port() == port, "port-kept")
	vt.Reach("built")
	if strings.Contains(host, ":") {
		return
	}
	q, err := peers.NewPeerBuilder(":").Create().WithString(p.String()).Now()
	vt.Assert(err == nil, "text-accepted")
	if err != nil {
		return
	}
	vt.Assert(q.Host() == host, "text-keeps-host")
	vt.Assert(q.Port() == port, "text-keeps-port")
	vt.Assert(q.String() == p.String(), "text-stable")
	vt.Reach("round-trip")
}

// HText: a text is accepted exactly when it is a host, one delimiter and a decimal port.
func HText() {
	max := 5
	if vt.Thorough() {
		max = 7
	}
	s := vt.StringOf("text", 1, max, "a:0159-+ x_.")
	p, err := peers.NewPeerBuilder(":").Create().WithString(s).Now()
	i := strings.IndexByte(s, ':')
	valid := i > 0 && strings.Count(s, ":") == 1
	want := 0
	if valid {
		port := s[i+1:]
		valid = port != ""
		for k := 0; k < len(port); k++ {
			if port[k] < '0' || port[k] > '9' {
				valid = false
			}
			want = want*10 + int(port[k]-'0')
		}
	}
	vt.Assert((err == nil) == valid, "accepted-iff-valid")
	if err != nil {
		vt.Assert(p == nil, "no-value-with-error")
		vt.Reach("refused")
		return
	}
	if !valid {
		return
	}
	vt.Assert(p.Host() == s[:i], "host")
	vt.Assert(p.Port() == uint(want), "port")
	vt.Reach("accepted")
}

// HDelimiter: the delimiter is the one the builder was made with, also a long one.
func HDelimiter() {
	d := vt.StringOf("delimiter", 1, 2, ":|-")
	host := vt.StringOf("host", 1, 3, "ab.")
	port := uint(vt.IntIn("port", 0, 65535))
	p, err := peers.NewPeerBuilder(d).Create().WithHost(host).WithPort(port).Now()
	vt.Assert(err == nil, "built")
	if err != nil {
		return
	}
	vt.Assert(p.String() == host+d+strconv.Itoa(int(port)), "text")
	q, err := peers.NewPeerBuilder(d).Create().WithString(p.String()).Now()
	vt.Assert(err == nil, "text-accepted")
	if err == nil {
		vt.Assert(q.Host() == host && q.Port() == port, "round-trip")
		vt.Reach("round-trip")
	}
}

// HList: a list of peers is refused when empty and keeps its members in order.
func HList() {
	n := vt.Choose("size", 4)
	l := []peers.Peer{}
	ports := []uint{}
	for i := 0; i < n; i++ {
		port := vt.Uint("port")
		ports = append(ports, port)
		p, err := peers.NewPeerBuilder(":").Create().WithHost("h").WithPort(port).Now()
		vt.Assert(err == nil, "peer-built")
		l = append(l, p)
	}
	x, err := peers.NewBuilder().Create().WithList(l).Now()
	vt.Assert((err == nil) == (n > 0), "refused-iff-empty")
	if err != nil {
		vt.Reach("refused")
		return
	}
	vt.Assert(len(x.List()) == n, "size-kept")
	for i, p := range x.List() {
		vt.Assert(p.Port() == ports[i], "members-kept")
	}
	vt.Reach("built")
}

// HLong: the same for long hosts and long lists.
func HLong() {
	host := hx.Text("host", 1, 1)
	port := uint(vt.IntIn("port", 0, 65535))
	p, err := peers.NewPeerBuilder(":").Create().WithHost(host).WithPort(port).Now()
	vt.Assert(err == nil, "built")
	if err != nil {
		return
	}
	vt.Assert(p.Host() == host && p.Port() == port && p.String() == host+":"+strconv.Itoa(int(port)), "long-kept")
	q, err := peers.NewPeerBuilder(":").Create().WithString(p.String()).Now()
	if strings.Contains(host, ":") {
		vt.Assert(err != nil, "long-refused")
	} else {
		vt.Assert(err == nil && q.Host() == host && q.Port() == port, "long-round-trip")
		vt.Reach("round-trip")
	}
	n := []int{5, 9, 17, 33, 260}[vt.Choose("size", 5)]
	l := []peers.Peer{}
	for i := 0; i < n; i++ {
		l = append(l, p)
	}
	x, err := peers.NewBuilder().Create().WithList(l).Now()
	vt.Assert(err == nil && len(x.List()) == n, "long-list-kept")
}

// Quick: the quick tier has the larger bounds too.
const Quick = 1
