// Package gm describes grammars, builds them with the real builders, and holds a reference reading of scripts.
package gm

import (
	"strings"

	"github.com/steve-care-software/steve/domain/languages/lexers/asts"
	records "github.com/steve-care-software/steve/domain/languages/lexers/asts/tokens"
	"github.com/steve-care-software/steve/domain/languages/lexers/cardinality"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/patterns"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/rules"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/tokens"
	"github.com/steve-care-software/steve/zz_verif/vt"
)

// The builders are shared: what one object was given is not for the next one.
var (
	sharedAstsAdapter                 = asts.NewAdapterBuilder()
	sharedCardinality                 = cardinality.NewBuilder()
	sharedCardinalityRange            = cardinality.NewRangeBuilder()
	sharedCardinalitySpecific         = cardinality.NewSpecificBuilder()
	sharedPatterns                    = patterns.NewBuilder()
	sharedPatternsChoice              = patterns.NewChoiceBuilder()
	sharedPatternsGroup               = patterns.NewGroupBuilder()
	sharedPatternsPattern             = patterns.NewPatternBuilder()
	sharedPatternsSerie               = patterns.NewSerieBuilder()
	sharedRecordsAdapter              = records.NewAdapterBuilder()
	sharedRulesContent                = rules.NewContentBuilder()
	sharedRulesElement                = rules.NewElementBuilder()
	sharedRulesPattern                = rules.NewPatternBuilder()
	sharedRulesRule                   = rules.NewRuleBuilder()
	sharedTokens                      = tokens.NewBuilder()
	sharedTokensBlock                 = tokens.NewBlockBuilder()
	sharedTokensContent               = tokens.NewContentBuilder()
	sharedTokensElement               = tokens.NewElementBuilder()
	sharedTokensInstruction           = tokens.NewInstructionBuilder()
	sharedTokensLine                  = tokens.NewLineBuilder()
	sharedTokensLines                 = tokens.NewLinesBuilder()
	sharedTokensTestSuite             = tokens.NewTestSuiteBuilder()
	sharedTokensToken                 = tokens.NewTokenBuilder()
	sharedTokensTokenReference        = tokens.NewTokenReferenceBuilder()
	sharedTokensTokenSpecifier        = tokens.NewTokenSpecifierBuilder()
	sharedTokensTokenSpecifierContent = tokens.NewTokenSpecifierContentBuilder()
	sharedTokensTokenSpecifiers       = tokens.NewTokenSpecifiersBuilder()
)

// Card is a cardinality: at least Min, at most Max when HasMax.
type Card struct {
	Min, Max uint
	HasMax   bool
}

// The usual cardinalities.
var (
	One  = Card{1, 1, true}
	Opt  = Card{0, 1, true}
	Many = Card{0, 0, false}
	Some = Card{1, 0, false}
)

// N is exactly n times.
func N(n uint) Card { return Card{n, n, true} }

// Has tells whether the amount is accepted.
func (c Card) Has(n uint) bool { return n >= c.Min && (!c.HasMax || n <= c.Max) }

// Spec asks that a token holds an amount of one of its parts.
type Spec struct {
	Name string
	Rule bool
	Card Card
}

// Elem is one instruction of a line: a channel switch, a rule or a token.
type Elem struct {
	Hash  bool
	Rule  bool
	Name  string
	Card  Card
	Specs []Spec
}

// Line is a sequence of instructions.
type Line []Elem

// Tok is a token.
type Tok struct {
	Name string
	Must []Line
	Not  []Line
	Rec  bool // the token refers to itself, directly or not
	Test []string
}

// Rule is a constant, or a repetition of one of some characters.
type Rule struct {
	Name  string
	Const string
	Chars string
	Card  Card
}

// Grammar is a set of rules, tokens and channels.
type Grammar struct {
	Rules    []Rule
	Toks     []Tok
	Channels []Tok
	Root     string
}

func must(err error, what string) {
	vt.Assert(err == nil, what)
	vt.Assume(err == nil)
}

// Cardinality builds a cardinality.
func (c Card) Cardinality() cardinality.Cardinality {
	b := sharedCardinality.Create()
	switch {
	case c == One:
		b.IsMandatory()
	case c == Opt:
		b.IsOptional()
	case c == Many:
		b.IsZeroMultiple()
	case c == Some:
		b.IsNonZeroMultiple()
	default:
		b.WithSpecific(c.Specific())
	}
	ins, err := b.Now()
	must(err, "cardinality-built")
	return ins
}

// Specific builds a specific cardinality.
func (c Card) Specific() cardinality.Specific {
	b := sharedCardinalitySpecific.Create()
	if c.HasMax && c.Min == c.Max {
		b.WithAmount(c.Min)
	} else {
		r := sharedCardinalityRange.Create().WithMinimum(c.Min)
		if c.HasMax {
			r.WithMaximum(c.Max)
		}
		rng, err := r.Now()
		must(err, "range-built")
		b.WithRange(rng)
	}
	ins, err := b.Now()
	must(err, "specific-built")
	return ins
}

func (g *Grammar) rule(name string) *Rule {
	for i := range g.Rules {
		if g.Rules[i].Name == name {
			return &g.Rules[i]
		}
	}
	return nil
}

func (g *Grammar) tok(name string) *Tok {
	for i := range g.Toks {
		if g.Toks[i].Name == name {
			return &g.Toks[i]
		}
	}
	return nil
}

func (g *Grammar) realRule(name string) rules.Rule {
	r := g.rule(name)
	cb := sharedRulesContent.Create()
	if r.Const != "" {
		cb.WithConstant(r.Const)
	} else {
		values := []string{}
		for i := 0; i < len(r.Chars); i++ {
			values = append(values, r.Chars[i:i+1])
		}
		grp, err := sharedPatternsGroup.Create().WithName(name).WithList(values).Now()
		must(err, "group-built")
		serie, err := sharedPatternsSerie.Create().WithName(name).WithList([]patterns.Group{grp}).Now()
		must(err, "serie-built")
		choice, err := sharedPatternsChoice.Create().WithSerie(serie).Now()
		must(err, "choice-built")
		p, err := sharedPatternsPattern.Create().WithName(name).WithList([]patterns.Choice{choice}).Now()
		must(err, "pattern-built")
		ps, err := sharedPatterns.Create().WithList([]patterns.Pattern{p}).Now()
		must(err, "patterns-built")
		rp, err := sharedRulesPattern.Create().WithSubPatterns(ps).WithCardinality(r.Card.Cardinality()).Now()
		must(err, "rule-pattern-built")
		cb.WithPattern(rp)
	}
	c, err := cb.Now()
	must(err, "rule-content-built")
	e, err := sharedRulesElement.Create().WithContent(c).WithCode("code").Now()
	must(err, "rule-element-built")
	ins, err := sharedRulesRule.Create().WithName(name).WithCode("code").WithElement(e).Now()
	must(err, "rule-built")
	return ins
}

func (g *Grammar) realLines(all []Line) tokens.Lines {
	lines := []tokens.Line{}
	for _, one := range all {
		ins := []tokens.Instruction{}
		for _, e := range one {
			b := sharedTokensInstruction.Create()
			if e.Hash {
				b.IsChannelSwitch()
			} else {
				b.WithElement(g.realElem(e))
			}
			i, err := b.Now()
			must(err, "instruction-built")
			ins = append(ins, i)
		}
		l, err := sharedTokensLine.Create().WithInstructions(ins).Now()
		must(err, "line-built")
		lines = append(lines, l)
	}
	out, err := sharedTokensLines.Create().WithLines(lines).Now()
	must(err, "lines-built")
	return out
}

func (g *Grammar) realElem(e Elem) tokens.Element {
	cb := sharedTokensContent.Create()
	if e.Rule {
		cb.WithRule(g.realRule(e.Name))
	} else {
		rb := sharedTokensTokenReference.Create().WithName(e.Name)
		if len(e.Specs) > 0 {
			list := []tokens.TokenSpecifier{}
			for _, s := range e.Specs {
				sb := sharedTokensTokenSpecifierContent.Create()
				if s.Rule {
					sb.WithRule(g.realRule(s.Name))
				} else {
					sb.WithToken(s.Name)
				}
				sc, err := sb.Now()
				must(err, "specifier-content-built")
				sp, err := sharedTokensTokenSpecifier.Create().WithContent(sc).WithCardinality(s.Card.Specific()).Now()
				must(err, "specifier-built")
				list = append(list, sp)
			}
			sps, err := sharedTokensTokenSpecifiers.Create().WithTokenSpecifiers(list).Now()
			must(err, "specifiers-built")
			rb.WithSpecifiers(sps)
		}
		r, err := rb.Now()
		must(err, "reference-built")
		cb.WithToken(r)
	}
	c, err := cb.Now()
	must(err, "content-built")
	eb := sharedTokensElement.Create().WithContent(c).WithCode("code")
	if e.Card != One {
		eb.WithCardinality(e.Card.Cardinality())
	}
	ins, err := eb.Now()
	must(err, "element-built")
	return ins
}

// RealTokens builds the tokens.
func (g *Grammar) RealTokens(all []Tok) tokens.Tokens {
	list := []tokens.Token{}
	for _, t := range all {
		bb := sharedTokensBlock.Create().WithMust(g.realLines(t.Must))
		if len(t.Not) > 0 {
			bb.WithNot(g.realLines(t.Not))
		}
		b, err := bb.Now()
		must(err, "block-built")
		tb := sharedTokensToken.Create().WithName(t.Name).WithBlock(b)
		if len(t.Test) > 0 {
			s, err := sharedTokensTestSuite.Create().WithLines(t.Test).Now()
			must(err, "suite-built")
			tb.WithTestSuite(s)
		}
		tok, err := tb.Now()
		must(err, "token-built")
		list = append(list, tok)
	}
	out, err := sharedTokens.Create().WithTokens(list).Now()
	must(err, "tokens-built")
	return out
}

// Adapter builds the real AST adapter of the grammar.
func (g *Grammar) Adapter() asts.Adapter {
	toks := g.RealTokens(g.Toks)
	root, err := toks.Find(g.Root)
	must(err, "root-found")
	b := sharedAstsAdapter.Create().WithRoot(root).WithTokens(toks)
	if len(g.Channels) > 0 {
		b.WithChannels(g.RealTokens(g.Channels))
	}
	ad, err := b.Now()
	must(err, "adapter-built")
	return ad
}

// Records is the adapter that gives the records of readings.
func (g *Grammar) Records() records.Adapter {
	toks := g.RealTokens(g.Toks)
	root, err := toks.Find(g.Root)
	must(err, "root-found")
	b := sharedRecordsAdapter.Create().WithToken(root).WithTokens(toks)
	if len(g.Channels) > 0 {
		b.WithChannels(g.RealTokens(g.Channels))
	}
	ad, err := b.Now()
	must(err, "records-adapter-built")
	return ad
}

// Node is a token that was read.
type Node struct {
	Name  string
	Line  uint
	Parts []Part
	N     int // amount of characters
}

// Part is what one element of a line read: a text for a rule, nodes for a token.
type Part struct {
	Rule    bool
	Name    string
	Text    string
	Amount  uint
	Toks    []*Node
	Channel bool
}

// Kind is the kind of a mistake.
type Kind int

// The kinds of mistakes.
const (
	NoMatch Kind = iota
	ForbiddenLine
	Specifier
	NextElement
	Cardinality
	Prefix
)

// Mistake is why a script was refused.
type Mistake struct {
	Kind   Kind
	Index  int // characters read before it
	Rule   bool
	Name   string
	Amount uint
	Next   string
	Line   uint
	Card   Card
	Part   string // the name a specifier counts
}

// Reader is the reference reading.
type Reader struct {
	G *Grammar
	// Retried is set when a recursive token was tried twice at one place.
	Retried bool
	// Trailing is set where channel text ends the script before an optional element, or is left before a line without channels.
	Trailing bool
	// Free lets recursive tokens be tried several times at one place.
	Free  bool
	tried map[string]bool
}

// Read reads a script from its first character: the token, or the mistake.
func (r *Reader) Read(script string) (*Node, *Mistake) {
	r.tried = map[string]bool{}
	return r.token(r.G.tok(r.G.Root), script, true)
}

// token reads a token where rest begins.
func (r *Reader) token(t *Tok, rest string, active bool) (*Node, *Mistake) {
	best, bad := r.best(t, t.Must, rest, active)
	if best == nil && bad == nil {
		return nil, &Mistake{Kind: NoMatch, Name: t.Name}
	}
	if len(t.Not) > 0 {
		if not, _ := r.best(t, t.Not, rest, active); not != nil {
			return nil, &Mistake{Kind: ForbiddenLine, Index: not.N, Name: t.Name, Line: not.Line}
		}
	}
	return best, bad
}

// best is the line that reads the most, or the mistake of the line that went the farthest.
func (r *Reader) best(t *Tok, lines []Line, rest string, active bool) (*Node, *Mistake) {
	var best *Node
	var bad *Mistake
	far := 0
	for i, l := range lines {
		n, m, steps := r.line(t, l, rest, active)
		if m != nil {
			if steps > far {
				far, bad = steps, m
				bad.Line = uint(i)
			}
			continue
		}
		if n.N > 0 && (best == nil || n.N > best.N) {
			best = n
			best.Line = uint(i)
		}
	}
	if best != nil {
		return best, nil
	}
	return nil, bad
}

func (r *Reader) channel(rest string) *Node {
	var first *Tok
	var found *Node
	for i := range r.G.Channels {
		c := &r.G.Channels[i]
		if first != nil && first.Name < c.Name {
			continue
		}
		if n, _ := r.token(c, rest, false); n != nil {
			first, found = c, n
		}
	}
	return found
}

func (r *Reader) line(t *Tok, l Line, rest string, active bool) (*Node, *Mistake, int) {
	out := &Node{Name: t.Name}
	steps := 0
	inner, before := active, active
	for _, e := range l {
		if e.Hash {
			inner = !inner
			continue
		}
		if rest[out.N:] != "" && before {
			for {
				c := r.channel(rest[out.N:])
				if c == nil {
					break
				}
				if e.Card.Has(0) && rest[out.N+c.N:] == "" {
					r.Trailing = true
				}
				for _, p := range c.Parts {
					p.Channel = true
					out.Parts = append(out.Parts, p)
				}
				out.N += c.N
				if !inner {
					if rest[out.N:] != "" && r.channel(rest[out.N:]) != nil {
						r.Trailing = true
					}
					break
				}
				if rest[out.N:] == "" {
					break
				}
			}
		}
		if rest[out.N:] == "" {
			if e.Card.Has(0) {
				continue
			}
			return nil, &Mistake{Kind: NextElement, Index: out.N, Name: t.Name, Next: r.first(e, nil)}, steps + 1
		}
		steps++
		p, n, m := r.elem(e, rest[out.N:], inner)
		if m != nil {
			m.Index += out.N
			if !m.Rule {
				m.Name = t.Name
			}
			return nil, m, steps
		}
		if p != nil {
			out.Parts = append(out.Parts, *p)
		}
		out.N += n
		if !inner {
			before = false
		}
	}
	return out, nil, steps
}

// first is the rule an element begins with.
func (r *Reader) first(e Elem, seen []string) string {
	if e.Rule {
		return e.Name
	}
	for _, s := range seen {
		if s == e.Name {
			return ""
		}
	}
	seen = append(seen, e.Name)
	for _, l := range r.G.tok(e.Name).Must {
		for _, f := range l {
			if f.Hash {
				continue
			}
			if n := r.first(f, seen); n != "" {
				return n
			}
			break
		}
	}
	return ""
}

func (r *Reader) elem(e Elem, rest string, active bool) (*Part, int, *Mistake) {
	if e.Rule {
		return r.rule(e, rest)
	}
	t := r.G.tok(e.Name)
	p := &Part{Name: e.Name}
	n := 0
	for !e.Card.HasMax || p.Amount == 0 || p.Amount < e.Card.Max {
		if t.Rec && !r.Free {
			key := t.Name + ":" + string(rune('0'+len(rest)-n))
			if r.tried[key] {
				r.Retried = true
				vt.Assume(false)
			}
			r.tried[key] = true
		}
		one, _ := r.token(t, rest[n:], active)
		if one == nil {
			break
		}
		p.Toks = append(p.Toks, one)
		p.Amount++
		n += one.N
	}
	if p.Amount == 0 {
		if e.Card.Has(0) {
			return nil, 0, nil
		}
		return nil, 0, &Mistake{Kind: NoMatch}
	}
	if !e.Card.Has(p.Amount) {
		if e.Card.Has(0) {
			return nil, 0, nil
		}
		return nil, 0, &Mistake{Kind: Cardinality, Amount: p.Amount, Card: e.Card}
	}
	for _, s := range e.Specs {
		total := uint(0)
		for _, one := range p.Toks {
			for _, q := range one.Parts {
				if !q.Channel && q.Name == s.Name {
					total += q.Amount
				}
			}
		}
		if !s.Card.Has(total) {
			if e.Card.Has(0) {
				return nil, 0, nil
			}
			return nil, 0, &Mistake{Kind: Specifier, Index: n, Amount: total, Card: s.Card, Part: s.Name}
		}
	}
	return p, n, nil
}

func (r *Reader) rule(e Elem, rest string) (*Part, int, *Mistake) {
	ru := r.G.rule(e.Name)
	p := &Part{Rule: true, Name: e.Name}
	n := 0
	for !e.Card.HasMax || p.Amount == 0 || p.Amount < e.Card.Max {
		k := ru.at(rest[n:])
		if k == 0 {
			break
		}
		p.Amount++
		n += k
	}
	if p.Amount > 0 && e.Card.Has(p.Amount) {
		p.Text = rest[:n]
		return p, n, nil
	}
	if e.Card.Has(0) {
		return nil, 0, nil
	}
	if p.Amount == 0 && ru.Const != "" && e.Card.Has(1) && strings.Contains(rest, ru.Const) {
		return nil, 0, &Mistake{Kind: Prefix, Rule: true, Name: e.Name}
	}
	return nil, 0, &Mistake{Kind: Cardinality, Rule: true, Name: e.Name, Amount: p.Amount, Card: e.Card}
}

// at is how much one occurrence of the rule reads where rest begins, 0 if it does not.
func (ru *Rule) at(rest string) int {
	if ru.Const != "" {
		if strings.HasPrefix(rest, ru.Const) {
			return len(ru.Const)
		}
		return 0
	}
	n := uint(0)
	for int(n) < len(rest) && (!ru.Card.HasMax || n < ru.Card.Max) && strings.IndexByte(ru.Chars, rest[n]) >= 0 {
		n++
	}
	if !ru.Card.Has(n) {
		return 0
	}
	return int(n)
}

// Compare asserts that a token of the AST is the node.
func Compare(got asts.Token, want *Node, script string) {
	vt.Assert(got.Name() == want.Name, "token-name")
	vt.Assert(got.Match().Index() == want.Line, "line-chosen")
	vt.Assert(got.Discovery() == script[:want.N], "text-read")
	all := got.Match().Matches()
	vt.Assert(len(all) == len(want.Parts), "amount-of-parts")
	if len(all) != len(want.Parts) {
		return
	}
	at := 0
	for i, p := range want.Parts {
		vt.Assert(all[i].IsRule() == p.Rule && all[i].IsToken() == !p.Rule, "rule-or-token")
		if all[i].IsRule() != p.Rule {
			return
		}
		if p.Rule {
			vt.Assert(all[i].Rule().Rule() == p.Name, "rule-name")
			res := all[i].Rule().Result()
			vt.Assert(res.Discoveries().Content() == p.Text, "rule-text")
			vt.Assert(res.Input() == script[at:] && res.Suffix() == script[at+len(p.Text):] && res.Prefix() == "" && !res.HasPrefix(), "rule-input")
			at += len(p.Text)
			continue
		}
		t := all[i].Token()
		vt.Assert(t.Token() == p.Name, "part-name")
		vt.Assert(len(t.Matches()) == len(p.Toks), "amount-of-tokens")
		if len(t.Matches()) != len(p.Toks) {
			return
		}
		for k, one := range p.Toks {
			Compare(t.Matches()[k], one, script[at:])
			at += one.N
		}
	}
}
