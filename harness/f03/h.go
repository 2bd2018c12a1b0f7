// Package f03 checks that reading a script depends on the grammar and the script alone.
package f03

import (
	"strconv"
	"strings"

	"github.com/steve-care-software/steve/domain/languages/lexers/asts"
	"github.com/steve-care-software/steve/zz_verif/hx/gm"
	"github.com/steve-care-software/steve/zz_verif/vt"
)

func token(t asts.Token) string {
	out := []string{t.Name(), strconv.Itoa(int(t.Match().Index()))}
	for _, m := range t.Match().Matches() {
		if m.IsRule() {
			out = append(out, m.Rule().Rule()+"="+m.Rule().Result().Discoveries().Content())
			if res := m.Rule().Result(); res.HasPrefix() || res.HasSuffix() {
				out = append(out, "<"+res.Prefix()+">", "<"+res.Suffix()+">")
			}
			continue
		}
		for _, s := range m.Token().Matches() {
			out = append(out, token(s))
		}
	}
	return "[" + strings.Join(out, " ") + "]"
}

// dump writes everything an AST says.
func dump(ad asts.Adapter, script string) string {
	ast, err := ad.ToAST(script)
	if err != nil {
		return "error"
	}
	if ast.IsSuccess() {
		return token(ast.Success())
	}
	m := ast.Mistake()
	c := m.Content()
	out := []string{strconv.Itoa(int(m.Index().Index())), strconv.Itoa(int(m.Index().Line())), strconv.Itoa(int(m.Index().Column())), m.Path().Container().Rule(), m.Path().Container().Token()}
	out = append(out, m.Path().Parents()...)
	for _, b := range []bool{c.IsTokenHasNoMatch(), c.IsContainsValidNotMatch(), c.IsSpecifierDoNotMatch(), c.IsContainsNextElement(), c.IsCardinalityIsInvalid(), c.IsContainsPrefix()} {
		out = append(out, strconv.FormatBool(b))
	}
	return strings.Join(out, " ")
}

func size() int {
	if vt.Deep() {
		return 5
	}
	if vt.Thorough() {
		return 4
	}
	return 3
}

func grammar() *gm.Grammar {
	one, opt, many := gm.One, gm.Opt, gm.Many
	switch vt.Choose("grammar", 4) {
	case 0:
		return &gm.Grammar{Rules: gm.Rules, Root: "t", Toks: []gm.Tok{
			{Name: "t", Must: []gm.Line{{gm.R("A", one), gm.T("x", many)}, {gm.T("x", one), gm.R("B", opt)}}},
			{Name: "x", Must: []gm.Line{{gm.R("B", one)}, {gm.R("B", one), gm.R("A", one)}}}}}
	case 1:
		return &gm.Grammar{Rules: gm.Rules, Root: "t", Toks: []gm.Tok{
			{Name: "t", Must: []gm.Line{{gm.R("A", one), gm.T("t", opt), gm.R("B", one)}, {gm.R("A", one)}}}}}
	case 2:
		return &gm.Grammar{Rules: gm.Rules, Root: "t", Toks: []gm.Tok{
			{Name: "t", Must: []gm.Line{{gm.R("A", one), gm.T("t", one), gm.R("B", one)}, {gm.R("A", one), gm.T("t", one)}, {gm.R("A", one)}}}}}
	}
	g := &gm.Grammar{Rules: gm.Rules, Root: "t", Toks: []gm.Tok{
		{Name: "t", Must: []gm.Line{{gm.R("A", one), gm.R("B", opt), gm.R("C", one)}}}},
		Channels: []gm.Tok{
			{Name: "one", Must: []gm.Line{{gm.R("B", one)}}},
			{Name: "two", Must: []gm.Line{{gm.R("B", one), gm.R("C", one)}, {gm.R("S", one)}}},
		}}
	g.Channels = g.Channels[:2]
	return g
}

// HHistory: a script is read the same by an adapter that read another one before.
func HHistory() {
	g := grammar()
	before, script := vt.String("before", 0, 3), vt.String("script", 0, size())
	used := g.Adapter()
	dump(used, before)
	vt.Assert(dump(used, script) == dump(g.Adapter(), script), "history")
	vt.Reach("read")
}

// HMapOrder: the order in which maps are walked changes nothing.
func HMapOrder() {
	g := grammar()
	script := vt.String("script", 0, 3)
	one := dump(g.Adapter(), script)
	vt.MapOrder(2)
	vt.Assert(dump(g.Adapter(), script) == one, "map-order")
	vt.Reach("read")
}

// HLegalPrefix: the same, where text before the first element is legal.
func HLegalPrefix() {
	g := &gm.Grammar{Rules: gm.Rules, Root: "t", Toks: []gm.Tok{{Name: "t", Must: []gm.Line{{gm.R("A", gm.Some)}, {gm.R("C", gm.One), gm.R("A", gm.Opt)}}}}}
	if vt.Bool("longer") {
		g = grammar()
	}
	before, script := vt.String("before", 0, 2), vt.String("script", 0, 3)
	toks := g.RealTokens(g.Toks)
	root, err := toks.Find(g.Root)
	vt.Assert(err == nil, "root-found")
	build := func() asts.Adapter {
		ad, err := asts.NewAdapterBuilder().Create().WithRoot(root).WithTokens(toks).CanContainPrefix().Now()
		vt.Assert(err == nil, "adapter-built")
		return ad
	}
	used := build()
	dump(used, before)
	vt.Assert(dump(used, script) == dump(build(), script), "history")
	vt.Reach("read")
}

// HLarge: the same for large scripts.
func HLarge() {
	g, script := gm.Large()
	used := g.Adapter()
	want := dump(g.Adapter(), script)
	dump(used, "ab"+script[:len(script)/2])
	vt.Assert(dump(used, script) == want, "history")
	vt.Assert(dump(used, script) == want, "again")
	vt.Reach("read")
}

// Quick: the quick tier has the larger bounds too.
const Quick = 1
