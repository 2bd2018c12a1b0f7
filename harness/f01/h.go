// Package f01 checks what is read from scripts with a grammar.
package f01

import (
	"github.com/steve-care-software/steve/zz_verif/hx/gm"
	"github.com/steve-care-software/steve/zz_verif/vt"
)

// check reads the script with the real adapter and with the reference.
func check(g *gm.Grammar, script string) {
	rd := &gm.Reader{G: g}
	node, bad := rd.Read(script)
	vt.Assume(!rd.Retried && !rd.Trailing)
	ast, err := g.Adapter().ToAST(script)
	vt.Assert(err == nil, "no-error")
	if err != nil {
		return
	}
	vt.Assert(ast.IsSuccess() == (node != nil) && ast.IsMistake() == (bad != nil), "accepted")
	if node == nil || !ast.IsSuccess() {
		return
	}
	vt.Reach("accepted")
	gm.Compare(ast.Success(), node, script)
}

// HLines: see gm.Lines.
func HLines() { check(gm.Lines()) }

// HRuleCards: see gm.RuleCards.
func HRuleCards() { check(gm.RuleCards()) }

// HTokenCards: see gm.TokenCards.
func HTokenCards() { check(gm.TokenCards()) }

// HNested: see gm.Nested.
func HNested() { check(gm.Nested()) }

// HForbidden: see gm.Forbidden.
func HForbidden() { check(gm.Forbidden()) }

// HSpecifiers: see gm.Specifiers.
func HSpecifiers() { check(gm.Specifiers()) }

// HPatterns: see gm.Patterns.
func HPatterns() { check(gm.Patterns()) }

// HRecursion: see gm.Recursion.
func HRecursion() { check(gm.Recursion()) }

// HChannels: see gm.Channels.
func HChannels() { check(gm.Channels()) }

// HOverlap: see gm.Overlap.
func HOverlap() { check(gm.Overlap()) }

// HSwitched: see gm.Switched.
func HSwitched() { check(gm.Switched()) }

// HNewlines: see gm.Newlines.
func HNewlines() { check(gm.Newlines()) }

// HMixed: see gm.Mixed.
func HMixed() { check(gm.Mixed()) }

// HCounted: see gm.Counted.
func HCounted() { check(gm.Counted()) }

// HAny: see gm.Any.
func HAny() { check(gm.Any()) }

// HRetried: a token that holds itself, tried again at the same place by another line.
func HRetried() {
	g := &gm.Grammar{Rules: gm.Rules, Root: "t", Toks: []gm.Tok{
		{Name: "t", Must: []gm.Line{{gm.T("x", gm.One), gm.R("B", gm.One)}, {gm.T("x", gm.One), gm.R("C", gm.One)}}},
		{Name: "x", Rec: true, Must: []gm.Line{{gm.R("A", gm.One), gm.T("x", gm.One)}, {gm.R("A", gm.One)}}}}}
	script := vt.StringOf("script", 1, 4, "abc")
	node, _ := (&gm.Reader{G: g, Free: true}).Read(script)
	ast, err := g.Adapter().ToAST(script)
	vt.Assert(err == nil, "no-error")
	if err != nil {
		return
	}
	vt.Reach("read")
	vt.Assert(ast.IsSuccess() == (node != nil) && (node == nil || ast.Success().Discovery() == script[:node.N]), "retried-recursion")
}

// HLeft: left recursive tokens end.
func HLeft() {
	one := gm.One
	grammars := []*gm.Grammar{
		{Toks: []gm.Tok{{Name: "t", Must: []gm.Line{{gm.T("t", one), gm.R("A", one)}, {gm.R("A", one)}}}}},
		{Toks: []gm.Tok{{Name: "t", Must: []gm.Line{{gm.T("t", one), gm.R("A", one)}, {gm.T("t", one), gm.R("B", one)}, {gm.R("A", one)}}}}},
		{Toks: []gm.Tok{{Name: "t", Must: []gm.Line{{gm.R("B", one), gm.T("u", one)}}}, {Name: "u", Must: []gm.Line{{gm.T("u", one), gm.R("A", one)}, {gm.R("A", one)}}}}},
		{Toks: []gm.Tok{{Name: "t", Must: []gm.Line{{gm.T("u", one), gm.R("B", one)}, {gm.R("A", one)}}}, {Name: "u", Must: []gm.Line{{gm.T("t", one), gm.R("A", one)}, {gm.T("t", one), gm.R("C", one)}, {gm.R("A", one)}}}}},
	}
	g := grammars[vt.Choose("grammar", len(grammars))]
	g.Rules, g.Root = gm.Rules, "t"
	script := vt.StringOf("script", 0, 3, "abc")
	ast, err := g.Adapter().ToAST(script)
	vt.Assert(err == nil && (ast.IsSuccess() || ast.IsMistake()), "left-recursion-ends")
	vt.Reach("read")
}

// HLarge: see gm.Large.
func HLarge() { check(gm.Large()) }
