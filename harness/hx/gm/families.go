package gm

import (
	"strings"

	"github.com/steve-care-software/steve/zz_verif/vt"
)

// R is a rule in a line.
func R(name string, c Card) Elem { return Elem{Rule: true, Name: name, Card: c} }

// T is a token in a line.
func T(name string, c Card, s ...Spec) Elem { return Elem{Name: name, Card: c, Specs: s} }

// Hash switches the channels.
var Hash = Elem{Hash: true}

// Rules are the rules of every family.
var Rules = []Rule{
	{Name: "A", Const: "a"}, {Name: "B", Const: "b"}, {Name: "C", Const: "c"}, {Name: "A_B", Const: "ab"},
	{Name: "S", Const: " "}, {Name: "L", Const: "\n"}, {Name: "N", Chars: "12", Card: Some}, {Name: "P", Chars: "ab", Card: Card{2, 3, true}},
}

func token(name string, lines ...Line) Tok { return Tok{Name: name, Must: lines} }

func recursive(name string, lines ...Line) Tok { return Tok{Name: name, Must: lines, Rec: true} }

func grammar(toks ...Tok) *Grammar { return &Grammar{Rules: Rules, Toks: toks, Root: toks[0].Name} }

// length is how long scripts are: one more in the thorough tier.
func script(n int) string {
	if vt.Thorough() {
		n++
	}
	return vt.String("script", 0, n)
}

// card is an arbitrary cardinality below four.
func card(name string) Card {
	c := Card{Min: vt.Uint(name + "-min"), Max: vt.Uint(name + "-max"), HasMax: vt.Bool(name + "-has-max")}
	vt.Assume(c.Min <= 3 && c.Max <= 3)
	if c.HasMax {
		vt.Assume(c.Min <= c.Max)
		// a specific amount of zero cannot be written
		vt.Assume(c.Max > 0)
	}
	return c
}

var cards = []Card{One, Opt, Many, Some, {2, 2, true}, {1, 2, true}, {0, 2, true}, {2, 0, false}}

func anyCard(name string) Card {
	n := 5
	if vt.Thorough() {
		n = len(cards)
	}
	return cards[vt.Choose(name, n)]
}

// Lines: several lines that begin alike.
func Lines() (*Grammar, string) {
	return grammar(
		token("t", Line{R("A", One)}, Line{R("A", One), R("B", One)}, Line{R("A_B", One)}, Line{T("x", One), R("C", One)}, Line{R("B", One), R("C", One)}),
		token("x", Line{R("B", One)}, Line{R("A", One)}, Line{R("C", One), R("B", One)}, Line{R("C", One)}),
	), script(4)
}

// RuleCards: rules with any cardinality.
func RuleCards() (*Grammar, string) {
	return grammar(token("t", Line{R("A", card("a")), R("B", card("b")), R("A", One)}, Line{R("A", Some), R("C", Opt)})), script(3)
}

// TokenCards: tokens with any cardinality.
func TokenCards() (*Grammar, string) {
	return grammar(
		token("t", Line{T("x", card("x")), R("B", Opt), T("y", anyCard("y"))}),
		token("x", Line{R("A", One)}, Line{R("B", One), R("A", One)}),
		token("y", Line{R("C", Some)}),
	), script(3)
}

// Nested: tokens within tokens.
func Nested() (*Grammar, string) {
	return grammar(
		token("t", Line{R("A", One), T("x", anyCard("x")), R("B", One)}, Line{T("y", One), T("y", anyCard("y"))}),
		token("x", Line{T("y", One), R("A", Opt)}, Line{R("C", One), T("z", One)}),
		token("y", Line{T("z", One)}, Line{T("z", One), R("B", One)}),
		token("z", Line{R("C", One)}, Line{R("B", One), R("C", One)}),
	), script(3)
}

// Forbidden: tokens with forbidden lines.
func Forbidden() (*Grammar, string) {
	x := token("x", Line{R("A", Some)}, Line{R("B", One)})
	x.Not = []Line{{R("A", One), R("C", One)}, {R("A", N(3))}}
	t := token("t", Line{T("x", anyCard("x")), R("C", One)}, Line{R("A", One), R("B", anyCard("b"))})
	t.Not = []Line{{R("B", One), R("C", One)}, {T("x", One), R("B", One)}}
	return grammar(t, x), script(3)
}

// Specifiers: tokens that must hold an amount of their parts.
func Specifiers() (*Grammar, string) {
	s := []Spec{{"A", true, card("a")}, {"y", false, Card{0, 2, true}}}
	if vt.Bool("one-specifier") {
		s = s[:1]
	}
	return grammar(
		token("t", Line{T("x", anyCard("x"), s...), R("B", Opt)}, Line{T("y", Some, Spec{"C", true, N(2)})}),
		token("x", Line{R("A", Some), T("y", Many)}, Line{T("y", N(2))}),
		token("y", Line{R("C", One)}),
	), script(3)
}

// Patterns: rules made of repeated characters.
func Patterns() (*Grammar, string) {
	return grammar(
		token("t", Line{R("N", anyCard("n")), R("A", Opt)}, Line{R("P", anyCard("p")), T("x", Opt)}),
		token("x", Line{R("N", One), R("C", One)}),
	), script(3)
}

// Recursion: tokens that hold themselves.
func Recursion() (*Grammar, string) {
	switch vt.Choose("grammar", 5) {
	case 0:
		return grammar(recursive("t", Line{R("A", One), T("t", One), R("B", One)}, Line{R("A", One)})), script(4)
	case 1:
		return grammar(recursive("t", Line{R("A", One), T("t", Opt), R("B", Opt)})), script(4)
	case 2:
		return grammar(token("r", Line{T("t", One), R("C", One)}), recursive("t", Line{R("A", One), T("t", One)}, Line{R("B", One)})), script(4)
	case 3:
		return grammar(recursive("t", Line{R("A", One), T("u", One)}, Line{R("A", One)}), recursive("u", Line{R("B", One), T("t", One)}, Line{R("C", One)})), script(4)
	}
	return grammar(recursive("t", Line{R("A", One), T("x", One), R("B", One)}), recursive("x", Line{T("t", One)}, Line{R("C", One)})), script(5)
}

// Channels: white space and comments between the elements.
func Channels() (*Grammar, string) {
	g := grammar(
		token("t", Line{R("A", anyCard("a")), T("x", anyCard("x")), R("C", One)}),
		token("x", Line{R("B", One), R("A", Opt)}),
	)
	g.Channels = []Tok{token("space", Line{R("S", Some)}), token("line", Line{R("L", One)}, Line{R("L", One), T("x", One)})}
	g.Toks = append(g.Toks)
	return g, script(3)
}

// Overlap: two channels read the same text.
func Overlap() (*Grammar, string) {
	g := grammar(token("t", Line{R("A", One), R("B", Opt), R("C", One)}))
	one, two := "one", "two"
	if vt.Bool("swapped") {
		one, two = two, one
	}
	g.Channels = []Tok{token(one, Line{R("B", One)}), token(two, Line{R("B", One), R("C", One)}, Line{R("S", One)})}
	return g, script(5)
}

// Switched: lines that switch the channels off.
func Switched() (*Grammar, string) {
	g := grammar(
		token("t", Line{R("A", One), T("x", One), R("C", One)}, Line{T("x", One), T("x", One)}),
		token("x", Line{Hash, R("A", One), R("B", anyCard("b")), Hash}, Line{Hash, R("B", One), T("y", One), Hash}),
		token("y", Line{R("A", One), R("C", One)}),
	)
	g.Channels = []Tok{token("space", Line{R("S", One)})}
	return g, script(4)
}

// Newlines: scripts of several lines.
func Newlines() (*Grammar, string) {
	return grammar(
		token("t", Line{T("x", Some), R("C", One)}),
		token("x", Line{R("A", One), R("L", One)}, Line{R("L", N(2)), R("B", One)}),
	), script(5)
}

// Any: grammars of two lines of any two elements.
func Any() (*Grammar, string) {
	names := []string{"A", "A_B", "x"}
	if vt.Thorough() {
		names = append(names, "B")
	}
	nCards := 2
	if vt.Thorough() {
		nCards = 4
	}
	elem := func(label string) Elem {
		i := vt.Choose(label, len(names))
		return Elem{Rule: names[i] != "x", Name: names[i], Card: cards[vt.Choose(label+"-card", nCards)]}
	}
	lines := []Line{{elem("first"), elem("second")}, {elem("third")}}
	return grammar(token("t", lines...), token("x", Line{R("A", Opt), R("B", One)}, Line{R("A", N(2))})), vt.String("script", 0, 3)
}

// Mixed: lines that read one token with the channels switched on and off.
func Mixed() (*Grammar, string) {
	end := []string{"B", "C"}
	order := vt.Choose("ends", 2)
	line := func(name string, at int) Line {
		l := Line{}
		where := vt.Choose(name+"-switch", 3)
		if where == 1 {
			l = append(l, Hash)
		}
		l = append(l, T("x", One))
		if where == 2 {
			l = append(l, Hash)
		}
		return append(l, R(end[(order+at)%2], One))
	}
	x := token("x", Line{R("A", One)}, Line{R("A", One), R("B", One)})
	if vt.Thorough() && vt.Bool("forbidden") {
		x.Not = []Line{{R("A", One), R("A", One)}}
	}
	g := grammar(token("t", line("first", 0), line("second", 1)), x)
	g.Channels = []Tok{token("space", Line{R("S", One)})}
	return g, script(4)
}

// Counted: tokens that must hold an amount of parts, with channels.
func Counted() (*Grammar, string) {
	s := []Spec{{"A", true, N(2)}, {"y", false, cards[vt.Choose("y", 2)]}}
	s = s[vt.Choose("without", 2):]
	g := grammar(
		token("t", Line{T("x", []Card{Some, N(2)}[vt.Choose("x", 2)], s...), R("B", Opt)}),
		token("x", Line{R("A", One), T("y", Opt)}, Line{T("y", One), R("A", One)}, Line{T("y", N(2))}),
		token("y", Line{R("C", One)}),
	)
	g.Channels = []Tok{token("space", Line{R("S", One)})}
	if vt.Bool("channel-alike") {
		g.Channels = []Tok{token("space", Line{R("S", One), R("A", One)})}
	}
	return g, script(3)
}

// spoilt is the text with an arbitrary character put in at the start, in the middle or at the end, or in the place of one.
func spoilt(text string) string {
	at := []int{0, len(text) / 2, len(text) - 1}[vt.Choose("at", 3)]
	most := 1
	if vt.Deep() {
		most = 2
	}
	c := vt.String("character", 0, most)
	if vt.Bool("in-place") {
		return text[:at] + c + text[at+1:]
	}
	if at == len(text)-1 {
		return text + c
	}
	return text[:at] + c + text[at:]
}

// Large: long scripts of much repeated, deeply nested or many different parts.
func Large() (*Grammar, string) {
	repeat := func(text string, times ...int) string {
		return strings.Repeat(text, times[vt.Choose("times", len(times))])
	}
	switch vt.Choose("grammar", 8) {
	case 0: // amounts of rules beyond ten
		c := []Card{{12, 15, true}, {12, 12, true}, {12, 0, false}, {0, 12, true}}[vt.Choose("card", 4)]
		return grammar(token("t", Line{R("A", c), R("B", One)})), spoilt(repeat("a", 11, 12, 13, 15, 16, 40) + "b")
	case 1: // amounts of tokens beyond ten
		c := []Card{Some, {12, 15, true}, {12, 0, false}}[vt.Choose("card", 3)]
		return grammar(token("t", Line{T("x", c), R("C", One)}), token("x", Line{R("A", One), R("B", Opt)})), spoilt(repeat("ab", 11, 12, 15, 16, 30) + "c")
	case 2: // nesting
		return grammar(recursive("t", Line{R("A", One), T("t", One), R("B", One)}, Line{R("C", One)})), deep("a", "c", "b")
	case 3: // long lines
		l := Line{}
		for i := 0; i < 12; i++ {
			l = append(l, R("A", One), T("x", Opt), R("B", Opt))
		}
		return grammar(token("t", l), token("x", Line{R("C", Some)})), spoilt(strings.Repeat("acb", 5) + strings.Repeat("ab", 4) + strings.Repeat("ac", 3))
	case 4: // many lines
		lines := []Line{}
		for i := 1; i <= 12; i++ {
			lines = append(lines, Line{R("A", N(uint(i))), R("B", One)})
		}
		return grammar(token("t", lines...)), spoilt(repeat("a", 1, 9, 10, 12, 13) + "b")
	case 5: // many tokens
		toks := []Tok{token("t", Line{T("xa", One), R("C", One)})}
		for i := 'a'; i < 'm'; i++ {
			toks = append(toks, token("x"+string(i), Line{R("A", One), T("x"+string(i+1), One)}, Line{R("B", One)}))
		}
		toks = append(toks, token("xm", Line{R("C", One)}))
		return grammar(toks...), spoilt(repeat("a", 3, 9, 12) + []string{"b", "c"}[vt.Choose("end", 2)] + "c")
	case 6: // long runs of white space and several lines
		g := grammar(token("t", Line{R("A", One), T("x", Many), R("C", One)}), token("x", Line{R("B", One)}))
		g.Channels = []Tok{token("space", Line{R("S", Some)}, Line{R("L", One)})}
		return g, spoilt("a" + repeat("  \n\n", 3, 12) + "b" + repeat(" ", 1, 20) + "bb\nb\n\nc")
	}
	// long patterns
	return grammar(token("t", Line{R("N", One), R("A", Opt)}, Line{R("P", Some), R("C", Opt)})), spoilt(repeat("1212", 3, 12))
}

func deep(open, middle, end string) string {
	n := []int{3, 6, 9}[vt.Choose("depth", 3)]
	return spoilt(strings.Repeat(open, n) + middle + strings.Repeat(end, n))
}
