// Package f04 checks that the text around what is read is refused unless it is legal.
package f04

import (
	"strings"

	"github.com/steve-care-software/steve/domain/languages/lexers/asts"
	"github.com/steve-care-software/steve/zz_verif/hx/gm"
	"github.com/steve-care-software/steve/zz_verif/vt"
)

var one = gm.One
var single = &gm.Grammar{Rules: gm.Rules, Root: "t", Toks: []gm.Tok{{Name: "t", Must: []gm.Line{{gm.R("A_B", one)}}}}}
var double = &gm.Grammar{Rules: gm.Rules, Root: "t", Toks: []gm.Tok{{Name: "t", Must: []gm.Line{{gm.R("A", one), gm.R("B", one)}}}}}
var nested = &gm.Grammar{Rules: gm.Rules, Root: "t", Toks: []gm.Tok{{Name: "t", Must: []gm.Line{{gm.T("x", one)}}}, {Name: "x", Must: []gm.Line{{gm.R("A_B", one)}}}}}

// builder makes all adapters: what one is told is not for the next one.
var builder = asts.NewAdapterBuilder()

func adapter(g *gm.Grammar, prefix, suffix bool) asts.Adapter {
	toks := g.RealTokens(g.Toks)
	root, err := toks.Find(g.Root)
	vt.Assert(err == nil, "root-found")
	b := builder.Create().WithRoot(root).WithTokens(toks)
	if len(g.Channels) > 0 {
		b.WithChannels(g.RealTokens(g.Channels))
	}
	if prefix {
		b.CanContainPrefix()
	}
	if suffix {
		b.CanContainSuffix()
	}
	ad, err := b.Now()
	vt.Assert(err == nil, "adapter-built")
	return ad
}

func read(g *gm.Grammar, prefix, suffix bool, script string) (asts.AST, bool) {
	ast, err := adapter(g, prefix, suffix).ToAST(script)
	vt.Assert(err == nil, "no-error")
	return ast, err == nil
}

func any() *gm.Grammar {
	return []*gm.Grammar{single, double, nested}[vt.Choose("grammar", 3)]
}

// HPrefixRefused: what is not legal before a script makes it a mistake.
func HPrefixRefused() {
	script := vt.String("script", 0, more(4, 7))
	adapter(double, true, true)
	ast, ok := read(any(), false, vt.Bool("suffix"), script)
	if !ok {
		return
	}
	vt.Assert(ast.IsSuccess() == strings.HasPrefix(script, "ab"), "prefix-refused")
	vt.Reach("read")
}

// HSuffixAccepted: what is legal after a script is left out of what is read.
func HSuffixAccepted() {
	suffix := vt.String("suffix", 0, 3)
	ast, ok := read(any(), vt.Bool("prefix"), true, "ab"+suffix)
	if !ok {
		return
	}
	vt.Assert(ast.IsSuccess() && ast.Success().Discovery() == "ab", "suffix-accepted")
	vt.Reach("read")
}

// HPrefixAccepted: what is legal before a script of one rule is left out of what is read.
func HPrefixAccepted() {
	script := vt.String("script", 0, more(8, 12))
	ast, ok := read(single, true, true, script)
	if !ok {
		return
	}
	vt.Assert(ast.IsSuccess() == strings.Contains(script, "ab"), "prefix-accepted")
	if ast.IsSuccess() {
		vt.Assert(ast.Success().Discovery() == "ab", "prefix-left-out")
		res := ast.Success().Match().Matches()[0].Rule().Result()
		vt.Assert(res.Prefix() == script[:strings.Index(script, "ab")] && res.Prefix()+"ab"+res.Suffix() == script, "prefix-kept-apart")
		vt.Reach("read")
	}
}

// HPrefixThenMore: the same, where a line has more than one element.
func HPrefixThenMore() {
	script := vt.StringOf("script", 0, 4, "abc")
	ast, ok := read(double, true, true, script)
	if !ok {
		return
	}
	want := strings.Contains(script, "ab")
	vt.Assert(ast.IsSuccess() == want && (!want || ast.Success().Discovery() == "ab"), "prefix-then-more")
	vt.Reach("read")
}

// HAround: the token of a script says what is legal around it.
func HAround() {
	before, after := vt.StringOf("before", 1, 2, "bc "), vt.StringOf("after", 1, 2, "bc ")
	ast, ok := read(single, true, true, before+"ab"+after)
	if !ok || !ast.IsSuccess() {
		return
	}
	vt.Assert(ast.Success().Prefix() == before && ast.Success().Suffix() == after, "around-a-token")
}

// HPrefixNested: the same, where the line begins with a token.
func HPrefixNested() {
	script := vt.StringOf("script", 0, 4, "abc")
	ast, ok := read(nested, true, true, script)
	if !ok {
		return
	}
	vt.Assert(ast.IsSuccess() == strings.Contains(script, "ab"), "prefix-nested")
	vt.Reach("read")
}

// HSuffixRefused: what is not legal after a script makes it a mistake.
func HSuffixRefused() {
	suffix := vt.String("suffix", 1, 2)
	adapter(single, true, true)
	ast, ok := read(any(), false, false, "ab"+suffix)
	if !ok {
		return
	}
	vt.Assert(ast.IsMistake(), "suffix-refused")
}

// pre is a text of up to two characters, or a long one that ends in up to two arbitrary characters.
func pre(name string) string {
	return []string{"", strings.Repeat("b", 40), strings.Repeat(" ", 12), "aaaa", "bcb", "\n\n"}[vt.Choose(name+"-start", 6)] + vt.String(name, 0, 2)
}

// HLong: the same for long texts around what is read.
func HLong() {
	before, after := pre("before"), pre("after")
	script := before + "ab" + after
	at := strings.Index(script, "ab")
	suffix := vt.Bool("suffix")
	ast, ok := read(single, true, suffix, script)
	if !ok {
		return
	}
	if suffix {
		vt.Assert(ast.IsSuccess() && ast.Success().Discovery() == "ab", "prefix-accepted")
		if ast.IsSuccess() {
			res := ast.Success().Match().Matches()[0].Rule().Result()
			vt.Assert(res.Prefix() == script[:at] && res.Prefix()+"ab"+res.Suffix() == script, "prefix-kept-apart")
			vt.Assert(res.HasPrefix() == (at > 0) && res.HasSuffix() == (at+2 < len(script)), "has-prefix-and-suffix")
		}
		vt.Reach("read")
	}
	ast, ok = read(any(), false, true, script)
	if !ok {
		return
	}
	vt.Assert(ast.IsSuccess() == (at == 0), "prefix-refused")
	if ast.IsSuccess() {
		vt.Assert(ast.Success().Discovery() == "ab", "suffix-accepted")
	}
}

// HRules: the same for a token of one rule, whatever the rule.
func HRules() {
	name := []string{"A", "A_B", "S", "L", "B"}[vt.Choose("rule", 5)]
	text := map[string]string{"A": "a", "A_B": "ab", "S": " ", "L": "\n", "B": "b"}[name]
	g := &gm.Grammar{Rules: gm.Rules, Root: "t", Toks: []gm.Tok{{Name: "t", Must: []gm.Line{{gm.R(name, one)}}}}}
	script := vt.String("script", 0, 4)
	legal := vt.Bool("legal")
	ast, ok := read(g, legal, true, script)
	if !ok {
		return
	}
	at := strings.Index(script, text)
	vt.Assert(ast.IsSuccess() == (at == 0 || at > 0 && legal), "read-iff-it-is-there")
	if !ast.IsSuccess() || at < 0 {
		return
	}
	vt.Assert(ast.Success().Discovery() == text, "prefix-and-suffix-left-out")
	vt.Reach("read")
}

// digits is a grammar of a rule that is made of a pattern.
var digits = &gm.Grammar{Rules: gm.Rules, Root: "t", Toks: []gm.Tok{{Name: "t", Must: []gm.Line{{gm.R("N", one)}}}}}

// HPattern: the same for a rule that is made of a pattern, with nothing before it.
func HPattern() {
	script := vt.StringOf("script", 0, 4, "12a ")
	ast, ok := read(digits, vt.Bool("legal"), true, script)
	if !ok {
		return
	}
	n := 0
	for n < len(script) && (script[n] == '1' || script[n] == '2') {
		n++
	}
	if n == 0 {
		return
	}
	vt.Assert(ast.IsSuccess() && ast.Success().Discovery() == script[:n], "suffix-left-out")
	vt.Reach("read")
}

// HPrefixPattern: the same, with something before it.
func HPrefixPattern() {
	script := vt.StringOf("script", 1, 3, "12a ")
	ast, ok := read(digits, true, true, script)
	if !ok {
		return
	}
	vt.Assert(ast.IsSuccess() == strings.ContainsAny(script, "12"), "prefix-pattern")
	vt.Reach("read")
}

// HPrefixRepeated: the same for a rule that repeats, read once and again.
func HPrefixRepeated() {
	card := []gm.Card{gm.Some, {Min: 2, Max: 2, HasMax: true}, {Min: 1, Max: 3, HasMax: true}}[vt.Choose("cardinality", 3)]
	g := &gm.Grammar{Rules: gm.Rules, Root: "t", Toks: []gm.Tok{{Name: "t", Must: []gm.Line{{gm.R("A", card)}}}}}
	if name := []string{"", "C", "S"}[vt.Choose("channel", 3)]; name != "" {
		g.Channels = []gm.Tok{{Name: "channel", Must: []gm.Line{{gm.R(name, gm.One)}}}}
	}
	before, after := vt.StringOf("before", 0, 3, "bd\n"), vt.StringOf("after", 0, 2, "bcd ")
	n := 2 + vt.Choose("repetitions", more(4, 9))
	script, rest := before+strings.Repeat("a", n)+after, after
	if card.HasMax && n > int(card.Max) {
		rest = strings.Repeat("a", n-int(card.Max)) + after
		n = int(card.Max)
	}
	ad := adapter(g, true, true)
	for i := 0; i < 2; i++ {
		ast, err := ad.ToAST(script)
		vt.Assert(err == nil && ast.IsSuccess(), "prefix-of-repetition-accepted")
		if err != nil || !ast.IsSuccess() {
			return
		}
		vt.Assert(ast.Success().Discovery() == strings.Repeat("a", n), "repetition-read")
		res := ast.Success().Match().Matches()[0].Rule().Result()
		vt.Assert(res.Prefix() == before && res.Suffix() == rest, "repetition-kept-apart")
	}
	vt.Reach("read")
}

// HPrefixChannel: the same where a channel takes the blanks.
func HPrefixChannel() {
	g := &gm.Grammar{Rules: gm.Rules, Root: "t", Toks: single.Toks, Channels: []gm.Tok{{Name: "space", Must: []gm.Line{{gm.R([]string{"S", "C"}[vt.Choose("channel", 2)], gm.One)}}}}}
	before, after := vt.StringOf("before", 0, 3, "bd"), vt.StringOf("after", 0, 3, "bc ")
	ast, ok := read(g, true, true, before+"ab"+after)
	if !ok {
		return
	}
	vt.Assert(ast.IsSuccess() && ast.Success().Discovery() == "ab", "prefix-with-channel-accepted")
	vt.Reach("read")
}

// more is a bound, and the one of the thorough tier.
func more(n, deep int) int {
	if vt.Deep() {
		return deep
	}
	return n
}

// Quick: the quick tier has the larger bounds too.
const Quick = 1
