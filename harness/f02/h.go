// Package f02 checks the mistakes reported on the scripts a grammar refuses.
package f02

import (
	"strings"

	"github.com/steve-care-software/steve/domain/languages/lexers/asts/mistakes"
	"github.com/steve-care-software/steve/zz_verif/hx/gm"
	"github.com/steve-care-software/steve/zz_verif/vt"
)

func count(bs ...bool) int {
	n := 0
	for _, b := range bs {
		if b {
			n++
		}
	}
	return n
}

// check reads the script with the real adapter and with the reference.
func check(g *gm.Grammar, script string) {
	rd := &gm.Reader{G: g}
	node, bad := rd.Read(script)
	vt.Assume(!rd.Retried && !rd.Trailing)
	ast, err := g.Adapter().ToAST(script)
	vt.Assert(err == nil, "no-error")
	if err != nil {
		return
	}
	vt.Assert(ast.IsMistake() == (node == nil) && ast.IsSuccess() == (bad == nil), "refused")
	if bad == nil || !ast.IsMistake() {
		return
	}
	vt.Reach("refused")
	m := ast.Mistake()
	c := m.Content()
	kinds := []bool{c.IsTokenHasNoMatch(), c.IsContainsValidNotMatch(), c.IsSpecifierDoNotMatch(), c.IsContainsNextElement(), c.IsCardinalityIsInvalid(), c.IsContainsPrefix()}
	vt.Assert(count(kinds...) == 1 && kinds[bad.Kind], "kind")
	where(m.Index(), script[:bad.Index])
	p := m.Path().Container()
	if p.IsToken() {
		vt.Assert(!m.Path().HasParents() && len(m.Path().Parents()) == 0, "path-of-the-root-token")
	}
	vt.Assert(p.IsRule() == bad.Rule && p.IsToken() == !bad.Rule, "path-to-a-rule-or-a-token")
	if bad.Rule {
		vt.Assert(p.Rule() == bad.Name, "path-name")
	} else {
		vt.Assert(p.Token() == bad.Name, "path-name")
	}
	if !kinds[bad.Kind] {
		return
	}
	switch bad.Kind {
	case gm.ForbiddenLine:
		vt.Assert(c.ContainsValidNotMatch().Line() == bad.Line, "forbidden-line")
	case gm.Specifier:
		vt.Assert(c.SpecifierDoNotMatch().Amount() == bad.Amount, "specifier-amount")
		vt.Assert(c.SpecifierDoNotMatch().ContainerName() == bad.Part, "specifier-name")
		min, max := c.SpecifierDoNotMatch().Cardinality().Delimiter()
		demand(min, max, bad.Card)
	case gm.Cardinality:
		vt.Assert(bad.Rule && bad.Amount == 0 || c.CardinalityIsInvalid().Amount() == bad.Amount, "amount")
		min, max := c.CardinalityIsInvalid().Cardinality().Delimiter()
		demand(min, max, bad.Card)
	case gm.NextElement:
		next := c.ContainsNextElement().NextElement()
		for _, r := range g.Rules {
			if r.Name == bad.Next {
				vt.Assert(next.Constant() == r.Const && next.IsConstant() == (r.Const != "") && next.IsPattern() == (r.Const == ""), "element-expected")
			}
		}
	case gm.Prefix:
		rest := script[bad.Index:]
		for _, r := range g.Rules {
			if r.Name == bad.Name {
				vt.Assert(c.ContainsPrefix().Prefix() == rest[:strings.Index(rest, r.Const)], "prefix")
			}
		}
	}
}

// demand asserts that the amounts asked for are those of the grammar.
func demand(min uint, max *uint, want gm.Card) {
	vt.Assert(min == want.Min && (max != nil) == want.HasMax, "amount-asked-for")
	if max != nil && want.HasMax {
		vt.Assert(*max == want.Max, "most-asked-for")
	}
}

// where asserts that the index is at the end of the text read before it.
func where(got mistakes.Index, before string) {
	vt.Assert(got.Index() == uint(len(before)), "index")
	lines := strings.Split(before, "\n")
	last := len(lines[len(lines)-1])
	if last > 0 {
		last--
	}
	vt.Assert(got.Line() == uint(len(lines)-1), "line")
	vt.Assert(got.Column() == uint(last), "column")
}

// HLines: see gm.Lines.
func HLines() { check(gm.Lines()) }

// HRuleCards: see gm.RuleCards.
func HRuleCards() { check(gm.RuleCards()) }

// HTokenCards: see gm.TokenCards.
func HTokenCards() { check(gm.TokenCards()) }

// HNested: see gm.Nested.
func HNested() { check(gm.Nested()) }

// HForbidden: see gm.Forbidden.
func HForbidden() { check(gm.Forbidden()) }

// HSpecifiers: see gm.Specifiers.
func HSpecifiers() { check(gm.Specifiers()) }

// HPatterns: see gm.Patterns.
func HPatterns() { check(gm.Patterns()) }

// HRecursion: see gm.Recursion.
func HRecursion() { check(gm.Recursion()) }

// HChannels: see gm.Channels.
func HChannels() { check(gm.Channels()) }

// HOverlap: see gm.Overlap.
func HOverlap() { check(gm.Overlap()) }

// HSwitched: see gm.Switched.
func HSwitched() { check(gm.Switched()) }

// HNewlines: see gm.Newlines.
func HNewlines() { check(gm.Newlines()) }

// HMixed: see gm.Mixed.
func HMixed() { check(gm.Mixed()) }

// HCounted: see gm.Counted.
func HCounted() { check(gm.Counted()) }

// HAny: see gm.Any.
func HAny() { check(gm.Any()) }

// HLarge: see gm.Large.
func HLarge() { check(gm.Large()) }
