// Package f05 checks the records of readings, accepted or not.
package f05

import (
	"strings"

	"github.com/steve-care-software/steve/domain/languages/lexers/asts/tokens"
	"github.com/steve-care-software/steve/zz_verif/hx/gm"
	"github.com/steve-care-software/steve/zz_verif/vt"
)

// said is what a part of a record should say of itself.
type said struct {
	ok    bool
	text  string
	input string
}

func agree(what string, ok bool, text string, want said) {
	vt.Assert(ok == want.ok, what+"-valid")
	if want.ok {
		vt.Assert(text == want.text, what+"-text")
	}
}

// token walks the record of a token tried where script begins.
func token(t tokens.Token, name, script string) said {
	vt.Assert(t.Name() == name && t.Path().Element().Name() == name, "token-name")
	if !t.HasContent() {
		vt.Assert(!t.IsValid() && t.Discoveries() == "", "nothing-read")
		return said{}
	}
	c := t.Content()
	out := line(c.Must(), script)
	if c.HasNot() && line(c.Not(), script).ok {
		out = said{}
	}
	agree("content", c.IsValid(), c.Discoveries(), out)
	agree("token", t.IsValid(), t.Discoveries(), out)
	vt.Assert(!out.ok || strings.HasPrefix(script, out.text), "text-of-the-script")
	return out
}

func line(l tokens.LineMatch, script string) said {
	out := said{ok: true}
	m := l.Matches()
	vt.Assert(len(m.BlockMatches()) > 0, "line-of-something")
	for _, b := range m.BlockMatches() {
		vt.Assert(out.ok, "nothing-after-a-failure")
		rest := ""
		if len(out.text) <= len(script) {
			rest = script[len(out.text):]
		}
		one := block(b, rest)
		out.ok = out.ok && one.ok
		out.text += one.text
		out.input += one.input
	}
	agree("line", m.IsValid(), m.Discoveries(), out)
	vt.Assert(m.Input() == out.input, "line-input")
	return out
}

func block(b tokens.BlockMatch, script string) said {
	out := said{}
	rest := script
	if b.HasChannelPrefix() {
		ch := line(b.ChannelPrefix(), script)
		vt.Assert(ch.ok && ch.text != "" && strings.HasPrefix(script, ch.text), "channel-read")
		out.text, out.input = ch.text, ch.input
		if len(ch.text) <= len(script) {
			rest = script[len(ch.text):]
		}
	}
	var one said
	c := b.Content()
	switch {
	case c.IsContainer():
		vt.Assert(!c.IsBlock() && !c.IsNextElement(), "one-content")
		one = match(c.Container(), rest)
	case c.IsBlock():
		vt.Assert(!c.IsNextElement(), "one-content")
		one = block(c.Block(), rest)
	default:
		vt.Assert(c.IsNextElement() && rest == "", "next-element-at-the-end")
		vt.Reach("incomplete")
	}
	out.ok = one.ok
	out.text += one.text
	out.input += one.input
	agree("block", b.IsValid(), b.Discoveries(), out)
	vt.Assert(b.Input() == out.input, "block-input")
	return out
}

func match(m tokens.Match, script string) said {
	c := m.Content()
	out := said{}
	switch {
	case c.IsRule():
		r := c.Rule()
		out = rule(r, script)
		out.input = r.Rule().Base().Code()
	case c.IsToken():
		out = times(c.Token(), script)
		out.input = script
	default:
		vt.Assert(c.IsSkip() && !c.IsLine(), "one-content")
		out.ok = true
		s := c.Skip()
		if s.Content().IsRule() {
			r := s.Content().Rule()
			vt.Assert(!s.Content().IsToken() && s.Name() == r.Rule().Base().Name(), "skipped-rule")
			vt.Assert(!rule(r, script).ok && r.Rule().Cardinality().IsValid(0), "skipped-for-a-reason")
			out.input = r.Rule().Base().Code()
		} else {
			t := s.Content().Token()
			vt.Assert(s.Content().IsToken() && s.Name() == t.Path().Element().Name(), "skipped-token")
			vt.Assert(!times(t, script).ok && t.Result().Cardinality().IsValid(0), "skipped-for-a-reason")
			out.input = script
		}
		vt.Reach("skipped")
	}
	agree("match", m.IsValid(), m.Discoveries(), out)
	vt.Assert(m.Input() == out.input, "match-input")
	return out
}

func rule(r tokens.RuleMatch, script string) said {
	res := r.Result().Result()
	list := res.Results()
	vt.Assert(res.Amount() == uint(len(list)) && res.HasResults() == (len(list) > 0), "rule-amount")
	out := said{ok: r.Rule().Cardinality().IsValid(uint(len(list)))}
	vt.Assert(r.Result().IsCardinalityValid() == out.ok, "rule-cardinality")
	for i, one := range list {
		vt.Assert(one.HasMatches() && one.Input() == r.Rule().Base(), "rule-result")
		if i == 0 && one.Matches().List()[0].Discoveries().Index() > 0 {
			out.ok = false
		}
		out.text += one.Content()
	}
	vt.Assert(r.IsValid() == out.ok && res.Discoveries() == out.text, "rule")
	vt.Assert(!r.CanHavePrefix(), "no-legal-prefix")
	return out
}

// times walks the record of a token tried several times.
func times(t tokens.TokenMatch, script string) said {
	res := t.Result()
	vt.Assert(res.Input() == script, "token-input")
	n := uint(0)
	out := said{ok: true}
	name := t.Path().Element().Name()
	if res.HasMatches() {
		all := res.Matches()
		n = uint(len(all.All()))
		vt.Assert(n > 0 && all.Amount() == n, "amount")
		for _, one := range all.All() {
			rest := ""
			if len(out.text) <= len(script) {
				rest = script[len(out.text):]
			}
			s := token(one, name, rest)
			vt.Assert(s.ok, "only-what-was-read")
			out.text += s.text
		}
		vt.Assert(all.IsValid() && all.Discoveries() == out.text, "matches")
		counted(all, n)
	}
	out.ok = res.Cardinality().IsValid(n)
	vt.Assert(res.Amount() == n && res.IsCardinalityValid() == out.ok, "cardinality")
	agree("result", res.IsValid(), res.Discoveries(), out)
	vt.Assert(t.HasSpecifiers() == (len(t.Specifiers()) > 0), "has-specifiers")
	for _, s := range t.Specifiers() {
		k := count(res, s.ContainerName())
		vt.Assert(s.Amount() == k && s.IsValid() == s.Cardinality().IsValid(k) && s.Result() == res, "specifier")
		out.ok = out.ok && s.IsValid()
		vt.Reach("specified")
	}
	vt.Assert(t.IsValid() == out.ok, "token-match")
	return out
}

// anyAmount is whether amounts are compared with every other, or with the small ones.
var anyAmount bool

func counted(m tokens.TokenResultMatches, n uint) {
	if !anyAmount {
		for k := uint(0); k < 4; k++ {
			vt.Assert(m.IsAmount(k) == (n == k) && m.IsAtLeast(k) == (n >= k), "amounts")
			for l := uint(0); l < 4; l++ {
				vt.Assert(m.IsInRange(k, l) == (n >= k && n <= l), "range")
			}
		}
		return
	}
	k, l := vt.Uint("min"), vt.Uint("max")
	vt.Assert(m.IsAmount(k) == (n == k), "is-amount")
	vt.Assert(m.IsAtLeast(k) == (n >= k), "is-at-least")
	vt.Assert(m.IsInRange(k, l) == (n >= k && n <= l), "range")
}

// count is how many of the named element were read, in the lines of the tokens of a result.
func count(res tokens.TokenResult, name string) uint {
	if !res.HasMatches() {
		return 0
	}
	n := uint(0)
	for _, t := range res.Matches().All() {
		for _, b := range t.Content().Must().Matches().BlockMatches() {
			c := b.Content()
			for c.IsBlock() {
				c = c.Block().Content()
			}
			if !c.IsContainer() {
				continue
			}
			m := c.Container().Content()
			if m.IsToken() && m.Token().Path().Element().Name() == name {
				n += m.Token().Result().Amount()
			}
			if m.IsRule() && m.Rule().Rule().Base().Name() == name {
				n += m.Rule().Result().Result().Amount()
			}
		}
	}
	return n
}

func small(g *gm.Grammar, script string) {
	anyAmount = false
	check(g, script)
}

func check(g *gm.Grammar, script string) {
	rd := &gm.Reader{G: g}
	node, _ := rd.Read(script)
	vt.Assume(!rd.Retried && !rd.Trailing)
	t, err := g.Records().ToToken(script)
	vt.Assert(err == nil, "no-error")
	if err != nil {
		return
	}
	out := token(t, g.Root, script)
	vt.Assert(out.ok == (node != nil), "valid-iff-read")
	if node == nil || !out.ok {
		vt.Reach("refused")
		return
	}
	vt.Assert(out.text == script[:node.N], "text-read")
	vt.Assert(t.Content().Must().Index() == node.Line, "line-read")
	vt.Reach("read")
}

// HLines: see gm.Lines.
func HLines() { small(gm.Lines()) }

// HRuleCards: see gm.RuleCards.
func HRuleCards() { small(gm.RuleCards()) }

// HTokenCards: see gm.TokenCards.
func HTokenCards() { small(gm.TokenCards()) }

// HNested: see gm.Nested.
func HNested() { small(gm.Nested()) }

// HForbidden: see gm.Forbidden.
func HForbidden() { small(gm.Forbidden()) }

// HSpecifiers: see gm.Specifiers.
func HSpecifiers() { small(gm.Specifiers()) }

// HPatterns: see gm.Patterns.
func HPatterns() { small(gm.Patterns()) }

// HRecursion: see gm.Recursion.
func HRecursion() { small(gm.Recursion()) }

// HChannels: see gm.Channels.
func HChannels() { small(gm.Channels()) }

// HOverlap: see gm.Overlap.
func HOverlap() { small(gm.Overlap()) }

// HSwitched: see gm.Switched.
func HSwitched() { small(gm.Switched()) }

// HNewlines: see gm.Newlines.
func HNewlines() { small(gm.Newlines()) }

// HMixed: see gm.Mixed.
func HMixed() { small(gm.Mixed()) }

// HAmounts: the amounts of elements read, compared with every amount.
func HAmounts() {
	g, script := gm.Recursion()
	anyAmount = true
	check(g, script)
}

// HCounted: see gm.Counted.
func HCounted() { small(gm.Counted()) }

// HLarge: see gm.Large.
func HLarge() { small(gm.Large()) }
