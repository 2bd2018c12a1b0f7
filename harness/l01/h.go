// Package l01 checks the resources and contents given to the lexer application.
package l01

import (
	"github.com/steve-care-software/steve/domain/languages/lexers/contents"
	"github.com/steve-care-software/steve/domain/languages/lexers/paths"
	"github.com/steve-care-software/steve/domain/languages/lexers/resources/containers"
	"github.com/steve-care-software/steve/domain/languages/lexers/resources/multiples"
	resources "github.com/steve-care-software/steve/domain/languages/lexers/resources/paths"
	"github.com/steve-care-software/steve/domain/languages/lexers/resources/singles"
	"github.com/steve-care-software/steve/zz_verif/hx"
	"github.com/steve-care-software/steve/zz_verif/vt"
)

func size() int {
	if vt.Deep() {
		return 4
	}
	if vt.Thorough() {
		return 3
	}
	return 2
}

func text(name string) string { return vt.String(name, 0, size()) }

func must(err error, what string) {
	vt.Assert(err == nil, what)
	vt.Assume(err == nil)
}

// HContent: a content keeps its text, and says what is legal around the script.
func HContent() {
	b := contents.NewBuilder()
	if vt.Bool("used-before") {
		b.WithContent(text("before"))
		if vt.Bool("prefix-before") {
			b.IsPrefixLegal()
		}
		if vt.Bool("suffix-before") {
			b.IsSuffixLegal()
		}
		if vt.Bool("built-before") {
			b.Now()
		}
		b = b.Create()
	}
	s, given, prefix, suffix := text("content"), vt.Bool("given"), vt.Bool("prefix"), vt.Bool("suffix")
	if given {
		b.WithContent(s)
	}
	if prefix {
		b.IsPrefixLegal()
	}
	if suffix {
		b.IsSuffixLegal()
	}
	c, err := b.Now()
	vt.Assert((err == nil) == (given && s != ""), "content-mandatory")
	if err != nil {
		return
	}
	vt.Assert(c.Content() == s, "content-kept")
	vt.Assert(c.IsPrefixLegal() == prefix, "prefix-kept")
	vt.Assert(c.IsSuffixLegal() == suffix, "suffix-kept")
	vt.Reach("built")
}

// HPaths: paths of rules and of tokens, and of channels if there are some.
func HPaths() {
	b := paths.NewBuilder()
	if vt.Bool("used-before") {
		b.WithRules(text("rules-before")).WithTokens(text("tokens-before")).WithChannels(text("channels-before"))
		if vt.Bool("built-before") {
			b.Now()
		}
		b = b.Create()
	}
	r, t, c := "", "", ""
	if vt.Bool("with-rules") {
		r = text("rules")
		b.WithRules(r)
	}
	if vt.Bool("with-tokens") {
		t = text("tokens")
		b.WithTokens(t)
	}
	if vt.Bool("with-channels") {
		c = text("channels")
		b.WithChannels(c)
	}
	p, err := b.Now()
	vt.Assert((err == nil) == (r != "" && t != ""), "mandatory")
	if err != nil {
		return
	}
	vt.Assert(p.Rules() == r && p.Tokens() == t, "kept")
	vt.Assert(p.HasChannels() == (c != "") && p.Channels() == c, "channels")
	vt.Reach("built")
}

// HContainer: a container has patterns, rules and tokens.
func HContainer() {
	b := containers.NewBuilder()
	if vt.Bool("used-before") {
		b.WithPatterns(text("patterns-before")).WithRules(text("rules-before")).WithTokens(text("tokens-before"))
		if vt.Bool("built-before") {
			b.Now()
		}
		b = b.Create()
	}
	p, r, t := "", "", ""
	if vt.Bool("with-patterns") {
		p = text("patterns")
		b.WithPatterns(p)
	}
	if vt.Bool("with-rules") {
		r = text("rules")
		b.WithRules(r)
	}
	if vt.Bool("with-tokens") {
		t = text("tokens")
		b.WithTokens(t)
	}
	c, err := b.Now()
	vt.Assert((err == nil) == (p != "" && r != "" && t != ""), "mandatory")
	if err != nil {
		return
	}
	vt.Assert(c.Patterns() == p && c.Rules() == r && c.Tokens() == t, "kept")
	vt.Reach("built")
}

func container(name string) containers.Container {
	c, err := containers.NewBuilder().Create().WithPatterns("p").WithRules(name).WithTokens("t").Now()
	must(err, "container-built")
	return c
}

func multiple(name string) multiples.Multiple {
	m, err := multiples.NewBuilder().Create().WithContainer(container(name)).Now()
	must(err, "multiple-built")
	return m
}

// HMultiple: a resource has a container, and channels if some are given.
func HMultiple() {
	b := multiples.NewBuilder()
	if vt.Bool("used-before") {
		b.WithChannels(text("channels-before"))
		if vt.Bool("container-before") {
			b.WithContainer(container("before"))
		}
		if vt.Bool("built-before") {
			b.Now()
		}
		b = b.Create()
	}
	ct, given, ch := container("r"), vt.Bool("with-container"), ""
	if given {
		b.WithContainer(ct)
	}
	if vt.Bool("with-channels") {
		ch = text("channels")
		b.WithChannels(ch)
	}
	m, err := b.Now()
	vt.Assert((err == nil) == given, "mandatory")
	if err != nil {
		return
	}
	vt.Assert(m.Container() == ct, "kept")
	vt.Assert(m.HasChannels() == (ch != "") && m.Channels() == ch, "channels")
	vt.Reach("built")
}

// HSingle: a single resource has a root token and a resource.
func HSingle() {
	b := singles.NewBuilder()
	if vt.Bool("used-before") {
		b.WithRootToken(text("root-before"))
		if vt.Bool("multiple-before") {
			b.WithMultiple(multiple("before"))
		}
		if vt.Bool("built-before") {
			b.Now()
		}
		b = b.Create()
	}
	m, given, name := multiple("r"), vt.Bool("with-multiple"), ""
	if given {
		b.WithMultiple(m)
	}
	if vt.Bool("with-root") {
		name = text("root")
		b.WithRootToken(name)
	}
	s, err := b.Now()
	vt.Assert((err == nil) == (given && name != ""), "mandatory")
	if err != nil {
		return
	}
	vt.Assert(s.RootToken() == name && s.Multiple() == m, "kept")
	vt.Reach("built")
}

// HPath: a path resource has a root token and a container.
func HPath() {
	b := resources.NewBuilder()
	if vt.Bool("used-before") {
		b.WithRootToken(text("root-before"))
		if vt.Bool("container-before") {
			b.WithContainer(container("before"))
		}
		if vt.Bool("built-before") {
			b.Now()
		}
		b = b.Create()
	}
	c, given, name := container("r"), vt.Bool("with-container"), ""
	if given {
		b.WithContainer(c)
	}
	if vt.Bool("with-root") {
		name = text("root")
		b.WithRootToken(name)
	}
	p, err := b.Now()
	vt.Assert((err == nil) == (given && name != ""), "mandatory")
	if err != nil {
		return
	}
	vt.Assert(p.RootToken() == name && p.Container() == c, "kept")
	vt.Reach("built")
}

// HLong: long texts are kept as they are.
func HLong() {
	s := hx.Text("text", 1, 1)
	c, err := contents.NewBuilder().Create().WithContent(s).Now()
	vt.Assert(err == nil && c.Content() == s, "content-kept")
	p, err := paths.NewBuilder().Create().WithRules(s).WithTokens(s + "t").WithChannels("c" + s).Now()
	vt.Assert(err == nil && p.Rules() == s && p.Tokens() == s+"t" && p.HasChannels() && p.Channels() == "c"+s, "paths-kept")
	ct, err := containers.NewBuilder().Create().WithPatterns(s).WithRules("r" + s).WithTokens(s + "t").Now()
	vt.Assert(err == nil && ct.Patterns() == s && ct.Rules() == "r"+s && ct.Tokens() == s+"t", "container-kept")
	m, err := multiples.NewBuilder().Create().WithContainer(ct).WithChannels(s).Now()
	vt.Assert(err == nil && m.Container() == ct && m.Channels() == s, "multiple-kept")
	one, err := singles.NewBuilder().Create().WithMultiple(m).WithRootToken(s).Now()
	vt.Assert(err == nil && one.RootToken() == s && one.Multiple() == m, "single-kept")
	path, err := resources.NewBuilder().Create().WithContainer(ct).WithRootToken(s).Now()
	vt.Assert(err == nil && path.RootToken() == s && path.Container() == ct, "path-kept")
	vt.Reach("built")
}

// Quick: the quick tier has the larger bounds too.
const Quick = 1
