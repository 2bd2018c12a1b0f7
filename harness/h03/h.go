// Package h03 checks the lexer application: grammars and scripts as texts, includes and replacements.
package h03

import (
	"github.com/steve-care-software/steve/applications/languages/lexers"
	"github.com/steve-care-software/steve/domain/languages/lexers/resources/paths"
	"github.com/steve-care-software/steve/zz_verif/hx/gm"
	"github.com/steve-care-software/steve/zz_verif/vt"
)

var one = gm.One

// Rules that can be written on a line.
var rules = []gm.Rule{
	{Name: "A", Const: "a"}, {Name: "B", Const: "b"}, {Name: "C", Const: "c"}, {Name: "A_B", Const: "ab"},
	{Name: "S", Const: " "}, {Name: "N", Chars: "12", Card: gm.Some},
}

func size() int {
	if vt.Thorough() {
		return 4
	}
	return 3
}

func tok(name string, lines ...gm.Line) gm.Tok { return gm.Tok{Name: name, Must: lines} }

func base() *gm.Grammar {
	g := &gm.Grammar{Rules: rules, Root: "t"}
	switch vt.Choose("grammar", 5) {
	case 0:
		x := tok("x", gm.Line{gm.R("B", gm.N(2))}, gm.Line{gm.R("N", one), gm.R("A", gm.Opt)})
		x.Not = []gm.Line{{gm.R("N", one), gm.R("B", one)}}
		g.Toks = []gm.Tok{tok("t", gm.Line{gm.R("A", one), gm.T("x", gm.Many)}, gm.Line{gm.T("x", one), gm.R("C", one)}), x}
	case 1:
		g.Toks = []gm.Tok{
			tok("t", gm.Line{gm.T("x", gm.Some, gm.Spec{Name: "A", Rule: true, Card: gm.Card{Min: 1, Max: 2, HasMax: true}}), gm.R("C", gm.Opt)}),
			tok("x", gm.Line{gm.R("A", gm.Opt), gm.R("B", one)}, gm.Line{gm.R("A_B", one), gm.R("A", one)})}
	case 2:
		g.Toks = []gm.Tok{{Name: "t", Rec: true, Must: []gm.Line{{gm.R("A", one), gm.T("t", gm.Opt), gm.R("B", gm.Opt)}}}}
	case 3:
		g.Toks = []gm.Tok{
			tok("t", gm.Line{gm.R("A", one), gm.Hash, gm.T("x", one), gm.Hash, gm.R("C", gm.Opt)}),
			tok("x", gm.Line{gm.R("B", gm.Some)})}
		g.Channels = []gm.Tok{tok("space", gm.Line{gm.R("S", one)})}
	default:
		g.Toks = []gm.Tok{
			tok("t", gm.Line{gm.R("A", one), gm.T("x", gm.Many), gm.R("A", gm.Opt)}),
			tok("x", gm.Line{gm.R("B", one), gm.R("C", gm.Opt)})}
		g.Channels = []gm.Tok{tok("space", gm.Line{gm.R("S", one)})}
	}
	return g
}

// check asserts that the application reads the script as the grammar says.
func check(app lexers.Application, g *gm.Grammar, extra string, as *gm.Grammar, script string) {
	rd := &gm.Reader{G: as}
	node, _ := rd.Read(script)
	vt.Assume(!rd.Retried && !rd.Trailing)
	res := g.Single(extra)
	ast, err := app.AST(res, gm.Content(script, false, true))
	vt.Assert(err == nil, "no-error")
	if err != nil {
		return
	}
	vt.Assert(ast.IsSuccess() == (node != nil), "accepted")
	root, mistake, err := app.Root(res, gm.Content(script, false, true))
	vt.Assert(err == nil && (root != nil) == (node != nil) && (mistake != nil) == (node == nil), "root-or-mistake")
	if node == nil || !ast.IsSuccess() {
		return
	}
	gm.Compare(ast.Success(), node, script)
	if root != nil {
		vt.Assert(root.Name() == g.Root && root.Content() == script[:node.N], "root")
	}
	vt.Reach("accepted")
}

// HRead: scripts are read with the grammar written in the resource.
func HRead() {
	g := base()
	check(gm.Application(), g, "", g, vt.String("script", 1, size()))
}

// HLarge: the same for large scripts and grammars.
func HLarge() {
	g, script := gm.Large()
	rules := []gm.Rule{}
	for _, r := range g.Rules {
		if r.Const != "\n" {
			rules = append(rules, r)
		}
	}
	for _, c := range g.Channels {
		vt.Assume(len(c.Must) == 1) // a line break cannot be written as a constant
	}
	g.Rules = rules
	check(gm.Application(), g, "", g, script)
}

// HPrefix: the content tells whether a prefix is legal.
func HPrefix() {
	g := &gm.Grammar{Rules: rules, Root: "t", Toks: []gm.Tok{tok("t", gm.Line{gm.R("A_B", one)})}}
	script := vt.String("script", 1, 4)
	legal := vt.Bool("prefix-legal")
	app := gm.Application()
	if vt.Bool("again") {
		// what is legal in one script is not what is legal in the next one
		ast, err := app.AST(g.Single(""), gm.Content("cab", !legal, true))
		vt.Assert(err == nil && ast.IsSuccess() == !legal, "prefix-before")
	}
	ast, err := app.AST(g.Single(""), gm.Content(script, legal, true))
	vt.Assert(err == nil, "no-error")
	if err != nil {
		return
	}
	at := -1
	for i := 0; i+2 <= len(script); i++ {
		if at < 0 && script[i:i+2] == "ab" {
			at = i
		}
	}
	vt.Assert(ast.IsSuccess() == (at == 0 || at > 0 && legal), "prefix")
	vt.Reach("read")
}

// The file that is included.
var files = []gm.Tok{
	{Name: "e", Must: []gm.Line{{gm.R("A", one), gm.T("f", one)}, {gm.R("N", one)}}, Not: []gm.Line{{gm.R("A", one), gm.T("f", one), gm.R("C", one)}}},
	{Name: "f", Must: []gm.Line{{gm.R("B", gm.Some)}, {gm.R("C", one)}}},
	{Name: "g", Rec: true, Must: []gm.Line{{gm.R("B", one), gm.T("g", gm.Opt), gm.R("C", gm.Opt)}}},
	{Name: "h", Must: []gm.Line{{gm.R("A", gm.Opt), gm.T("f", gm.N(2), gm.Spec{Name: "B", Rule: true, Card: gm.Card{Min: 1}})}, {gm.T("e", one), gm.R("B", gm.N(2))}}, Not: []gm.Line{{gm.T("f", gm.N(3))}}},
}

func renamed(all []gm.Tok, from, to string) gm.Tok {
	for _, t := range all {
		if t.Name == from {
			t.Name = to
			return t
		}
	}
	panic("no token")
}

// swapped are the tokens where references to one token refer to another.
func swapped(all []gm.Tok, from, to string) []gm.Tok {
	out := []gm.Tok{}
	for _, t := range all {
		lines := func(all []gm.Line) []gm.Line {
			out := []gm.Line{}
			for _, l := range all {
				line := gm.Line{}
				for _, e := range l {
					if !e.Rule && e.Name == from {
						e.Name = to
					}
					line = append(line, e)
				}
				out = append(out, line)
			}
			return out
		}
		t.Must, t.Not = lines(t.Must), lines(t.Not)
		out = append(out, t)
	}
	return out
}

func write() {
	vt.File("rules.alex", gm.RulesText(rules))
	vt.File("dir/tokens.alex", gm.Text(files))
}

// HInclude: a token of another file is read as if it were declared in the first one.
func HInclude() {
	write()
	name := []string{"e", "f", "g", "h"}[vt.Choose("included", 4)]
	g := &gm.Grammar{Rules: rules, Root: "t", Toks: []gm.Tok{
		tok("t", gm.Line{gm.T("y", one), gm.R("A", gm.Opt)}, gm.Line{gm.R("C", one), gm.T("x", gm.Some)}),
		tok("x", gm.Line{gm.R("B", one), gm.T("y", gm.Opt)})}}
	if vt.Bool("channels") {
		g.Channels = []gm.Tok{tok("space", gm.Line{gm.R("S", one)})}
	}
	as := &gm.Grammar{Rules: rules, Root: "t", Channels: g.Channels}
	as.Toks = append(as.Toks, g.Toks...)
	as.Toks = append(as.Toks, files...)
	as.Toks = append(as.Toks, renamed(files, name, "y"))
	check(gm.Application(), g, "include other \"rules.alex;dir/tokens.alex\"\nreference y other."+name+"\n", as, vt.String("script", 1, size()))
}

// HReplace: a token of another file is read as a token of the first one.
func HReplace() {
	write()
	name := []string{"e", "h"}[vt.Choose("included", 2)]
	x := tok("x", gm.Line{gm.R("B", one), gm.R("A", gm.Opt)}, gm.Line{gm.R("N", one)})
	if vt.Bool("forbidden") {
		x.Not = []gm.Line{{gm.R("N", one), gm.R("A", one)}}
	}
	g := &gm.Grammar{Rules: rules, Root: "t", Toks: []gm.Tok{
		tok("t", gm.Line{gm.T("y", one), gm.R("A", gm.Opt)}, gm.Line{gm.R("C", one), gm.T("x", gm.Some)}), x}}
	as := &gm.Grammar{Rules: rules, Root: "t"}
	as.Toks = append(as.Toks, g.Toks...)
	out := swapped(files, "f", "x")
	as.Toks = append(as.Toks, out...)
	as.Toks = append(as.Toks, renamed(out, name, "y"))
	check(gm.Application(), g, "include other \"rules.alex;dir/tokens.alex\"\nreference y other."+name+"\nreplace other.f x\n", as, vt.String("script", 1, size()))
}

// HSameNames: a replacement is for the file it names, not for the tokens of that name of another file or of the grammar.
func HSameNames() {
	write()
	// the other file: a token of the same name, and one that refers to it
	far := []gm.Tok{tok("k", gm.Line{gm.R("B", one), gm.T("f", one)}), tok("f", gm.Line{gm.R("A", gm.Some)}, gm.Line{gm.R("C", one), gm.R("A", one)})}
	vt.File("far.alex", gm.Text(far))
	extra := "include far \"rules.alex;far.alex\"\ninclude other \"rules.alex;dir/tokens.alex\"\nreference y other.e\nreference z far.k\n"
	first, second := "f", "f2"
	switch vt.Choose("replaced", 4) {
	case 1:
		extra += "replace other.f x\n"
		first = "x"
	case 2:
		extra += "replace far.f x\n"
		second = "x"
	case 3:
		extra += "replace far.f f\nreplace other.f x\n"
		first, second = "x", "f0"
	}
	g := &gm.Grammar{Rules: rules, Root: "t", Toks: []gm.Tok{
		tok("t", gm.Line{gm.T("y", one), gm.R("C", gm.Opt)}, gm.Line{gm.T("z", one), gm.R("A", gm.Opt)}, gm.Line{gm.R("C", one), gm.T("f", one)}),
		tok("f", gm.Line{gm.R("N", one), gm.R("C", one)}, gm.Line{gm.R("A_B", one)}),
		tok("x", gm.Line{gm.R("N", one)}, gm.Line{gm.R("A", one), gm.R("C", one)})}}
	as := &gm.Grammar{Rules: rules, Root: "t"}
	local := g.Toks[1]
	local.Name = "f0"
	as.Toks = append(as.Toks, swapped(g.Toks[:1], "f", "f0")[0], local, g.Toks[2])
	as.Toks = append(as.Toks, files[1], renamed(swapped(files, "f", first), "e", "y"))
	f2 := far[1]
	f2.Name = "f2"
	as.Toks = append(as.Toks, f2, renamed(swapped(far, "f", second), "k", "z"))
	script := vt.String("script", 1, size())
	rd := &gm.Reader{G: as}
	node, _ := rd.Read(script)
	ast, err := gm.Application().AST(g.Single(extra), gm.Content(script, false, true))
	vt.Assert(err == nil, "no-error")
	if err != nil {
		return
	}
	vt.Assert(ast.IsSuccess() == (node != nil) && (node == nil || ast.Success().Discovery() == script[:node.N] && ast.Success().Match().Index() == node.Line), "same-names")
	vt.Reach("read")
}

// HRecursiveNames: tokens that hold themselves, of the same name in two files.
func HRecursiveNames() {
	vt.File("rules.alex", gm.RulesText(rules))
	vt.File("other.alex", gm.Text([]gm.Tok{tok("e", gm.Line{gm.R("A", one), gm.T("g", one)}), tok("g", gm.Line{gm.R("B", one), gm.T("g", gm.Opt), gm.R("C", one)})}))
	g := &gm.Grammar{Rules: rules, Root: "t", Toks: []gm.Tok{
		tok("t", gm.Line{gm.R("C", one), gm.T("g", one)}, gm.Line{gm.T("y", one)}),
		tok("g", gm.Line{gm.R("A", one), gm.T("g", gm.Opt), gm.R("B", one)})}}
	as := &gm.Grammar{Rules: rules, Root: "t"}
	as.Toks = append(as.Toks, g.Toks[0],
		gm.Tok{Name: "g", Rec: true, Must: g.Toks[1].Must},
		tok("y", gm.Line{gm.R("A", one), gm.T("g2", one)}),
		gm.Tok{Name: "g2", Rec: true, Must: []gm.Line{{gm.R("B", one), gm.T("g2", gm.Opt), gm.R("C", one)}}})
	script := vt.StringOf("script", 1, 5, "abc")
	node, _ := (&gm.Reader{G: as, Free: true}).Read(script)
	ast, err := gm.Application().AST(g.Single("include other \"rules.alex;other.alex\"\nreference y other.e\n"), gm.Content(script, false, true))
	vt.Assert(err == nil, "no-error")
	if err != nil {
		return
	}
	vt.Reach("read")
	vt.Assert(ast.IsSuccess() == (node != nil) && (node == nil || ast.Success().Discovery() == script[:node.N]), "recursive-names")
}

// HHistory: what an application read before changes nothing.
func HHistory() {
	write()
	extra := "include other \"rules.alex;dir/tokens.alex\"\nreference y other.e\n"
	g := &gm.Grammar{Rules: rules, Root: "t", Toks: []gm.Tok{
		tok("t", gm.Line{gm.T("y", one), gm.R("A", gm.Opt)}, gm.Line{gm.R("C", one), gm.T("f", one)}),
		tok("f", gm.Line{gm.R("B", one)}),
		tok("x", gm.Line{gm.R("B", one), gm.R("A", one)})}}
	before := &gm.Grammar{Rules: rules, Root: "t", Toks: []gm.Tok{
		tok("t", gm.Line{gm.T("y", one)}),
		tok("x", gm.Line{gm.R("A", one)})}}
	app := gm.Application()
	replaced := []string{"", "replace other.f x\n", "replace other.e x\n"}[vt.Choose("replaced-before", 3)]
	switch vt.Choose("what", 3) {
	case 0:
		app.AST(before.Single(extra+replaced), gm.Content("ab", false, true))
	case 1:
		app.Tests(before.Multiple(extra + replaced))
	case 2:
		p, err := paths.NewBuilder().Create().WithRootToken("t").WithContainer(before.Container(extra + replaced)).Now()
		vt.Assert(err == nil, "path-built")
		app.Path(p)
	}
	as := &gm.Grammar{Rules: rules, Root: "t"}
	as.Toks = append(as.Toks, g.Toks...)
	// the tokens of the other file have their own names
	for _, t := range swapped(files, "f", "f2") {
		if t.Name == "f" {
			t.Name = "f2"
		}
		as.Toks = append(as.Toks, t)
		if t.Name == "e" {
			t.Name = "y"
			as.Toks = append(as.Toks, t)
		}
	}
	script := vt.String("script", 1, size())
	rd := &gm.Reader{G: as}
	node, _ := rd.Read(script)
	ast, err := app.AST(g.Single(extra), gm.Content(script, false, true))
	vt.Assert(err == nil, "no-error")
	if err != nil {
		return
	}
	vt.Assert(ast.IsSuccess() == (node != nil) && (node == nil || ast.Success().Discovery() == script[:node.N]), "history")
	vt.Reach("read")
}

// HNested: a file that is included includes another one.
func HNested() {
	vt.File("rules.alex", gm.RulesText(rules))
	vt.File("last.alex", gm.Text([]gm.Tok{tok("l", gm.Line{gm.R("B", one), gm.T("m", gm.Opt)}), tok("m", gm.Line{gm.R("C", gm.Some)})}))
	mid := []gm.Tok{tok("e", gm.Line{gm.R("A", one), gm.T("k", one)}), tok("n", gm.Line{gm.R("A", gm.Some)})}
	extra := ""
	replaced := vt.Bool("replaced")
	if replaced {
		extra = "replace far.m n\n"
	}
	vt.File("mid.alex", "include far \"rules.alex;last.alex\"\nreference k far.l\n"+extra+gm.Text(mid))
	g := &gm.Grammar{Rules: rules, Root: "t", Toks: []gm.Tok{
		tok("t", gm.Line{gm.T("y", one), gm.R("B", gm.Opt)}, gm.Line{gm.T("z", one)}, gm.Line{gm.R("C", one), gm.T("m", one)}),
		tok("m", gm.Line{gm.R("B", one)})}}
	as := &gm.Grammar{Rules: rules, Root: "t"}
	as.Toks = append(as.Toks, g.Toks...)
	as.Toks = append(as.Toks, renamed(mid, "e", "y"), mid[1],
		tok("m2", gm.Line{gm.R("C", gm.Some)}),
		tok("z", gm.Line{gm.R("B", one), gm.T("m2", gm.Opt)}))
	if replaced {
		as.Toks = append(as.Toks, tok("k", gm.Line{gm.R("B", one), gm.T("n", gm.Opt)}))
	} else {
		as.Toks = append(as.Toks, tok("k", gm.Line{gm.R("B", one), gm.T("m2", gm.Opt)}))
	}
	script := vt.String("script", 1, size()+1)
	rd := &gm.Reader{G: as}
	node, _ := rd.Read(script)
	ast, err := gm.Application().AST(g.Single("include other \"rules.alex;mid.alex\"\ninclude far \"rules.alex;last.alex\"\nreference y other.e\nreference z far.l\n"), gm.Content(script, false, true))
	vt.Assert(err == nil, "no-error")
	if err != nil {
		return
	}
	vt.Assert(ast.IsSuccess() == (node != nil) && (node == nil || ast.Success().Discovery() == script[:node.N]), "nested-include")
	vt.Reach("read")
}

func read(g *gm.Grammar, extra string, as *gm.Grammar, script, what string) {
	node, _ := (&gm.Reader{G: as}).Read(script)
	ast, err := gm.Application().AST(g.Single(extra), gm.Content(script, false, true))
	vt.Assert(err == nil, "no-error")
	if err != nil {
		return
	}
	vt.Assert(ast.IsSuccess() == (node != nil) && (node == nil || ast.Success().Discovery() == script[:node.N] && ast.Success().Match().Index() == node.Line), what)
	vt.Reach("read")
}

// HChain: each of many files includes the next one.
func HChain() {
	vt.File("rules.alex", gm.RulesText(rules))
	n := []int{3, 6, 9}[vt.Choose("files", 3)]
	file := func(i int) string { return "f" + string(rune('a'+i)) + ".alex" }
	name := func(i int) string { return "y" + string(rune('a'+i)) }
	extra := func(i int) string {
		return "include other \"rules.alex;" + file(i) + "\"\nreference y other.e\n"
	}
	as := &gm.Grammar{Rules: rules, Root: "t"}
	top := gm.Line{gm.T("y", one), gm.R("B", gm.Opt)}
	as.Toks = append(as.Toks, tok("t", gm.Line{gm.T("ya", one), gm.R("B", gm.Opt)}))
	for i := 0; i < n; i++ {
		if i == n-1 {
			last := tok("e", gm.Line{gm.R("A", one)}, gm.Line{gm.R("C", one)})
			vt.File(file(i), gm.Text([]gm.Tok{last}))
			as.Toks = append(as.Toks, tok(name(i), last.Must...))
			break
		}
		vt.File(file(i), extra(i+1)+gm.Text([]gm.Tok{tok("e", gm.Line{gm.R("A", one), gm.T("y", one)}, gm.Line{gm.R("C", one)})}))
		as.Toks = append(as.Toks, tok(name(i), gm.Line{gm.R("A", one), gm.T(name(i+1), one)}, gm.Line{gm.R("C", one)}))
	}
	script := ""
	for k := vt.Choose("length", n+2); k > 0; k-- {
		script += "a"
	}
	read(&gm.Grammar{Rules: rules, Root: "t", Toks: []gm.Tok{tok("t", top)}}, extra(0), as, script+vt.String("end", 1, 1), "chain-of-files")
}

// HMany: many files are included, and many of their tokens referred to.
func HMany() {
	vt.File("rules.alex", gm.RulesText(rules))
	n := []int{4, 9, 14}[vt.Choose("files", 3)]
	letter := func(i int) string { return string(rune('a' + i)) }
	extra, refs := "", ""
	g := &gm.Grammar{Rules: rules, Root: "t", Toks: []gm.Tok{tok("t"), tok("m", gm.Line{gm.R("C", one)})}}
	as := &gm.Grammar{Rules: rules, Root: "t"}
	swap := vt.Choose("replaced", n+1)
	lines, others := []gm.Line{}, []gm.Tok{}
	for i := 0; i < n; i++ {
		vt.File("f"+letter(i)+".alex", gm.Text([]gm.Tok{tok("e", gm.Line{gm.R("A", gm.N(uint(i+1))), gm.T("m", one)}), tok("m", gm.Line{gm.R("B", one)})}))
		extra += "include file" + letter(i) + " \"rules.alex;f" + letter(i) + ".alex\"\n"
		refs += "reference y" + letter(i) + " file" + letter(i) + ".e\n"
		end := "B"
		if i == swap {
			refs += "replace file" + letter(i) + ".m m\n"
			end = "C"
		}
		lines = append(lines, gm.Line{gm.T("y"+letter(i), one)})
		others = append(others, tok("y"+letter(i), gm.Line{gm.R("A", gm.N(uint(i+1))), gm.R(end, one)}))
	}
	g.Toks[0].Must = lines
	as.Toks = append(as.Toks, tok("t", lines...))
	as.Toks = append(as.Toks, others...)
	script := ""
	for k := []int{1, n / 2, n - 1, n}[vt.Choose("length", 4)]; k > 0; k-- {
		script += "a"
	}
	read(g, extra+refs, as, script+vt.String("end", 1, 1), "many-files")
}

// HMissing: what is not there is refused.
func HMissing() {
	write()
	toks := []gm.Tok{tok("t", gm.Line{gm.T("y", one), gm.R("A", gm.Opt)})}
	g := &gm.Grammar{Rules: rules, Root: "t", Toks: toks}
	extra := []string{
		"",
		"include other \"rules.alex;absent.alex\"\nreference y other.e\n",
		"include other \"absent.alex;dir/tokens.alex\"\nreference y other.e\n",
		"include other \"rules.alex;dir/tokens.alex\"\nreference y other.absent\n",
		"include other \"rules.alex;dir/tokens.alex\"\nreference z other.e\n",
		"include other \"rules.alex;dir/tokens.alex\"\nreference y other.e\nreplace other.f absent\n",
		"include other \"rules.alex;dir/tokens.alex\"\nreference y other.e\n",
	}
	i := vt.Choose("extra", len(extra))
	if vt.Bool("root-absent") {
		g.Root = "absent"
	}
	script := vt.String("script", 1, 2)
	_, err := gm.Application().AST(g.Single(extra[i]), gm.Content(script, false, true))
	vt.Assert((err == nil) == (i == 6 && g.Root == "t"), "missing-refused")
	_, err = gm.Application().Tests(g.Multiple(extra[i]))
	vt.Assert(i == 6 && err == nil || i != 6, "tests-refused")
	vt.Reach("read")
}

// HTests: the tests of the tokens are executed.
func HTests() {
	g := base()
	a, b := vt.String("test", 1, 1), vt.StringOf("test", 1, 2, "ab1")
	vt.Assume(a[0] > ' ' && a[0] < 127 && a[0] != ';' && a[0] != '#')
	g.Toks[0].Test = []string{a, b}
	got, err := gm.Application().Tests(g.Multiple(""))
	vt.Assert(err == nil && len(got) == 1, "one-suite")
	if err != nil || len(got) != 1 {
		return
	}
	vt.Assert(got[0].Name() == "t" && len(got[0].Lines()) == 2, "two-tests")
	for i, text := range g.Toks[0].Test {
		rd := &gm.Reader{G: g}
		node, _ := rd.Read(text)
		vt.Assume(!rd.Retried && !rd.Trailing)
		vt.Assert(i < len(got[0].Lines()) && got[0].Lines()[i].IsSuccess() == (node != nil) && got[0].Lines()[i].Index() == uint(i), "test-outcome")
	}
	vt.Reach("tested")
}
