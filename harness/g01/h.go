// Package g01 checks the test suites of tokens.
package g01

import (
	"strings"

	"github.com/steve-care-software/steve/domain/languages/lexers/asts/paths"
	"github.com/steve-care-software/steve/domain/languages/lexers/suites"
	"github.com/steve-care-software/steve/zz_verif/hx/gm"
	"github.com/steve-care-software/steve/zz_verif/vt"
)

// The builders are shared: what one object was given is not for the next one.
var (
	sharedPathsAdapter      = paths.NewAdapterBuilder()
	sharedSuites            = suites.NewBuilder()
	sharedSuitesApplication = suites.NewApplicationBuilder()
	sharedSuitesLine        = suites.NewLineBuilder()
)

var one = gm.One

func must(err error, what string) {
	vt.Assert(err == nil, what)
	vt.Assume(err == nil)
}

func size() int {
	if vt.Thorough() {
		return 4
	}
	return 3
}

// read tells whether the token reads the text.
func read(g *gm.Grammar, root, text string) bool {
	all := *g
	all.Root = root
	rd := &gm.Reader{G: &all}
	node, _ := rd.Read(text)
	vt.Assume(!rd.Retried && !rd.Trailing)
	return node != nil
}

// compare asserts that the suites are those of the grammar, read as the other grammar says.
func compare(got []suites.Suite, g *gm.Grammar, as *gm.Grammar) {
	i := 0
	for _, t := range g.Toks {
		if len(t.Test) == 0 {
			continue
		}
		if i >= len(got) {
			i++
			continue
		}
		s := got[i]
		i++
		vt.Assert(s.Name() == t.Name, "suite-name")
		vt.Assert(len(s.Lines()) == len(t.Test), "one-line-per-test")
		if len(s.Lines()) != len(t.Test) {
			continue
		}
		for j, text := range t.Test {
			vt.Assert(s.Lines()[j].Index() == uint(j), "index-of-a-test")
			vt.Assert(s.Lines()[j].IsSuccess() == read(as, t.Name, text), "success-of-a-test")
		}
	}
	vt.Assert(i == len(got), "one-suite-per-token-with-tests")
}

func application(g *gm.Grammar, notFound paths.FetchTokenNotFoundFn, replacement paths.FetchElementReplacementFn) suites.Application {
	b := sharedSuitesApplication.Create().WithTokens(g.RealTokens(g.Toks))
	if len(g.Channels) > 0 {
		b.WithChannels(g.RealTokens(g.Channels))
	}
	if notFound != nil {
		b.WithTokenNotFoundFunc(notFound)
	}
	if replacement != nil {
		b.WithTokenReplacementFunc(replacement)
	}
	app, err := b.Now()
	must(err, "application-built")
	return app
}

func base() *gm.Grammar {
	g := &gm.Grammar{Rules: gm.Rules, Toks: []gm.Tok{
		{Name: "t", Must: []gm.Line{{gm.T("x", one), gm.R("C", gm.Opt)}, {gm.R("A", one), gm.T("y", gm.Many)}}},
		{Name: "x", Must: []gm.Line{{gm.R("B", gm.Some)}}, Not: []gm.Line{{gm.R("B", gm.N(2)), gm.R("A", one)}}},
		{Name: "y", Must: []gm.Line{{gm.R("C", one), gm.T("x", one)}}},
	}}
	if vt.Bool("channels") {
		g.Channels = []gm.Tok{{Name: "space", Must: []gm.Line{{gm.R("S", one)}}}}
	}
	return g
}

// HSuites: every token with tests has a suite with the outcome of each test in order.
func HSuites() {
	g := base()
	has := vt.Choose("tokens-with-tests", 8)
	for i := range g.Toks {
		if has>>i&1 == 1 {
			g.Toks[i].Test = []string{vt.String("test", 0, size()-2)}
			if i == 0 {
				g.Toks[i].Test = append(g.Toks[i].Test, vt.String("test", 0, size()-1))
			}
		}
	}
	app := application(g, nil, nil)
	for i := 0; i < 2; i++ {
		got, err := app.Execute()
		must(err, "executed")
		compare(got, g, g)
	}
	vt.Reach("executed")
}

// HExternal: tokens that are not declared are fetched, and tokens are replaced.
func HExternal() {
	g := base()
	out := &gm.Grammar{Rules: gm.Rules, Toks: []gm.Tok{
		{Name: "e", Must: []gm.Line{{gm.R("A_B", one)}, {gm.T("f", one), gm.R("B", one)}}},
		{Name: "f", Must: []gm.Line{{gm.R("C", one)}, {gm.R("A", one)}}},
	}}
	toks := out.RealTokens(out.Toks)
	path := func(name string) paths.Path {
		ad, err := sharedPathsAdapter.Create().WithTokens(toks).Now()
		must(err, "path-adapter-built")
		tok, err := toks.Find(name)
		must(err, "token-found")
		p, err := ad.ToPath(tok)
		must(err, "path-made")
		return p
	}
	var notFound paths.FetchTokenNotFoundFn
	var replacement paths.FetchElementReplacementFn
	as := &gm.Grammar{Rules: gm.Rules, Channels: g.Channels}
	external := vt.Bool("external")
	if external {
		// t also reads a token that is declared elsewhere
		g.Toks[0].Must = append(g.Toks[0].Must, gm.Line{gm.T("e", one), gm.R("A", one)})
		notFound = func(name string) paths.Path {
			if name == "e" {
				return path("e")
			}
			return nil
		}
	}
	as.Toks = append(append(as.Toks, g.Toks...), out.Toks...)
	if vt.Bool("replaced") {
		// x is read as f
		replacement = func(name string) (paths.Element, []paths.Element) {
			if name == "x" {
				p := path("f")
				return p.Element(), p.Dependencies().All()
			}
			return nil, nil
		}
		for i, t := range as.Toks {
			must := []gm.Line{}
			for _, l := range t.Must {
				line := gm.Line{}
				for _, e := range l {
					if e.Name == "x" {
						e.Name = "f"
					}
					line = append(line, e)
				}
				must = append(must, line)
			}
			as.Toks[i].Must = must
		}
	}
	g.Toks[0].Test = []string{vt.String("test", 0, size()+1)}
	got, err := application(g, notFound, replacement).Execute()
	must(err, "executed")
	compare(got, g, as)
	vt.Reach("executed")
}

// HUndeclared: a token that is declared nowhere is refused.
func HUndeclared() {
	g := base()
	g.Toks[0].Must = append(g.Toks[0].Must, gm.Line{gm.T("e", one), gm.R("A", one)})
	g.Toks[1].Test = []string{vt.String("test", 0, 2)}
	var notFound paths.FetchTokenNotFoundFn
	if vt.Bool("not-found") {
		notFound = func(name string) paths.Path { return nil }
	}
	_, err := application(g, notFound, nil).Execute()
	vt.Assert(err != nil, "undeclared-token-refused")
	vt.Reach("refused")
}

// HBuilders: suites and their lines are complete.
func HBuilders() {
	_, err := sharedSuitesApplication.Create().Now()
	vt.Assert(err != nil, "application-without-tokens")
	idx, ok := vt.Uint("index"), vt.Bool("success")
	vt.Assume(idx < 1<<62)
	lb := sharedSuitesLine.Create().WithIndex(idx)
	if ok {
		lb.IsSuccessful()
	}
	l, err := lb.Now()
	must(err, "line-built")
	vt.Assert(l.Index() == idx && l.IsSuccess() == ok, "line-kept")
	_, err = lb.Create().Now()
	vt.Assert(err != nil, "line-without-an-index")
	name := vt.String("name", 0, 2)
	n := vt.Choose("lines", 3)
	list := []suites.Line{}
	for i := 0; i < n; i++ {
		list = append(list, l)
	}
	s, err := sharedSuites.Create().WithName(name).WithLines(list).Now()
	vt.Assert((err == nil) == (name != "" && n > 0), "suite-complete")
	if err == nil {
		vt.Assert(s.Name() == name && len(s.Lines()) == n && s.Lines()[0] == l, "suite-kept")
		vt.Reach("built")
	}
}

// HMany: many and long tests.
func HMany() {
	g := base()
	n := []int{5, 11, 20}[vt.Choose("tests", 3)]
	at := vt.Choose("at", 2) * (n - 1)
	for i := 0; i < n; i++ {
		text := strings.Repeat("b", i)
		if i == at {
			text = strings.Repeat("b", 10*vt.Choose("long", 2)) + vt.String("test", 0, 2)
		}
		g.Toks[0].Test = append(g.Toks[0].Test, text)
		g.Toks[2].Test = append(g.Toks[2].Test, "c"+text)
	}
	got, err := application(g, nil, nil).Execute()
	must(err, "executed")
	compare(got, g, g)
	vt.Reach("executed")
}
