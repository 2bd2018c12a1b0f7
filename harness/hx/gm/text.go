package gm

import (
	"strconv"
	"strings"

	"github.com/steve-care-software/steve/applications/languages/lexers"
	"github.com/steve-care-software/steve/domain/languages/lexers/contents"
	"github.com/steve-care-software/steve/domain/languages/lexers/paths"
	"github.com/steve-care-software/steve/domain/languages/lexers/resources/containers"
	"github.com/steve-care-software/steve/domain/languages/lexers/resources/multiples"
	"github.com/steve-care-software/steve/domain/languages/lexers/resources/singles"
	"github.com/steve-care-software/steve/zz_verif/vt"
)

var sharedMultiplesBuilder = multiples.NewBuilder()
var sharedContentsBuilder = contents.NewBuilder()

// Text is the cardinality as it is written.
func (c Card) Text() string {
	switch {
	case c == One:
		return ""
	case c == Opt:
		return "?"
	case c == Many:
		return "*"
	case c == Some:
		return "+"
	}
	return c.braces()
}

func (c Card) braces() string {
	min := strconv.Itoa(int(c.Min))
	if !c.HasMax {
		return "{" + min + ",}"
	}
	if c.Min == c.Max {
		return "{" + min + "}"
	}
	return "{" + min + "," + strconv.Itoa(int(c.Max)) + "}"
}

func lines(all []Line) string {
	out := []string{}
	for _, l := range all {
		one := []string{}
		for _, e := range l {
			if e.Hash {
				one = append(one, "#")
				continue
			}
			s := e.Name + e.Card.Text()
			if len(e.Specs) > 0 {
				s += "->"
				for _, p := range e.Specs {
					s += " " + p.Name + p.Card.braces()
				}
				s += " <-"
			}
			one = append(one, s)
		}
		out = append(out, strings.Join(one, " "))
	}
	return strings.Join(out, " | ")
}

// Text is tokens as they are written.
func Text(toks []Tok) string {
	out := ""
	for _, t := range toks {
		out += t.Name + ": " + lines(t.Must)
		if len(t.Not) > 0 {
			out += "\n---:\n" + lines(t.Not)
		}
		if len(t.Test) > 0 {
			out += "\n+++:" + strings.Join(t.Test, "###")
		}
		out += ";\n"
	}
	return out
}

// RulesText is rules as they are written, and PatternsText the patterns these need.
func RulesText(rules []Rule) string {
	out := ""
	for _, r := range rules {
		if r.Const != "" {
			out += r.Name + ": \"" + r.Const + "\";\n"
			continue
		}
		c := r.Card.Text()
		if c == "" {
			c = "{1}"
		}
		out += r.Name + ": [" + strings.ToLower(r.Name) + "]" + c + ";\n"
	}
	return out
}

// PatternsText are the patterns of the rules.
func PatternsText(rules []Rule) string {
	out := ""
	for _, r := range rules {
		if r.Const == "" {
			out += strings.ToLower(r.Name) + ": " + r.Name + ";\n"
		}
	}
	for _, r := range rules {
		if r.Const == "" {
			out += r.Name + ": $" + r.Name + ";\n"
		}
	}
	for _, r := range rules {
		if r.Const == "" {
			out += "$" + r.Name + ": \"" + strings.Join(strings.Split(r.Chars, ""), ",") + "\";\n"
		}
	}
	return out
}

// Application builds a lexer application whose files are those of the run.
func Application() lexers.Application {
	d := vt.Dir()
	p, err := paths.NewBuilder().Create().WithRules(d).WithTokens(d).WithChannels(d).Now()
	must(err, "paths-built")
	app, err := lexers.NewBuilder().Create().WithBasePaths(p).Now()
	must(err, "application-built")
	return app
}

// Container is the grammar as a resource; extra is put before its tokens.
func (g *Grammar) Container(extra string) containers.Container {
	c, err := containers.NewBuilder().Create().WithPatterns(PatternsText(g.Rules)).WithRules(RulesText(g.Rules)).WithTokens(extra + Text(g.Toks)).Now()
	must(err, "container-built")
	return c
}

// Multiple is the grammar with its channels as a resource.
func (g *Grammar) Multiple(extra string) multiples.Multiple {
	b := sharedMultiplesBuilder.Create().WithContainer(g.Container(extra))
	if len(g.Channels) > 0 {
		b.WithChannels(Text(g.Channels))
	}
	m, err := b.Now()
	must(err, "multiple-built")
	return m
}

// Single is the grammar with its root as a resource.
func (g *Grammar) Single(extra string) singles.Single {
	s, err := singles.NewBuilder().Create().WithRootToken(g.Root).WithMultiple(g.Multiple(extra)).Now()
	must(err, "single-built")
	return s
}

// Content is a script.
func Content(script string, prefix, suffix bool) contents.Content {
	b := sharedContentsBuilder.Create().WithContent(script)
	if prefix {
		b.IsPrefixLegal()
	}
	if suffix {
		b.IsSuffixLegal()
	}
	c, err := b.Now()
	must(err, "content-built")
	return c
}
