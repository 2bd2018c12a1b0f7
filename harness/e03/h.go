// Package e03 checks how tokens are read from their text.
package e03

import (
	"strings"

	"github.com/steve-care-software/steve/domain/languages/lexers/cardinality"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/rules"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/tokens"
	"github.com/steve-care-software/steve/zz_verif/vt"
)

func adapter() tokens.Adapter {
	r, err := rules.NewAdapter().Rules("A: \"a\"; B: \"b\"; A_B: \"c\";", nil)
	vt.Assert(err == nil, "rules-read")
	vt.Assume(err == nil)
	ad, err := tokens.NewAdapterBuilder().Create().WithRules(r).Now()
	vt.Assert(err == nil, "adapter-built")
	vt.Assume(err == nil)
	// what was read before changes nothing
	_, err = ad.ToTokens("x: A+ y -> A{2} zz[1,] <- # B | A_B?\n---\n: A B +++ :good###a###; y: A; zz: x; t: B | A x;")
	vt.Assert(err == nil, "text-before-accepted")
	_, err = ad.ToTokens("x: A | MISSING;")
	vt.Assert(err != nil, "text-before-refused")
	return ad
}

// spec is what a token reference asks of its parts.
type spec struct {
	name string
	text string
	rule bool
}

// item is the reference description of one instruction.
type item struct {
	text  string
	swtch bool
	rule  bool
	name  string
	card  string
	specs []spec
}

var cards = []string{"", "*", "+", "?", "{2}", "{1,3}", "{0,}"}
var specifiers = [][]spec{nil, {{"x", "{2}", false}}, {{"A", "{1,}", true}, {"yZ", "{0,4}", false}}}

// anyItem is an arbitrary instruction; ok tells whether its rule exists.
func anyItem(nCards, nSpecs int) (item, bool) {
	switch vt.Choose("kind", 3) {
	case 0:
		return item{text: "#", swtch: true}, true
	case 1:
		it := item{rule: true, name: vt.StringOf("rule", 1, 1, "ABC"), card: cards[vt.Choose("cardinality", nCards)]}
		it.text = it.name + it.card
		return it, it.name != "C"
	}
	it := item{name: vt.StringOf("token", 1, 2, "xyZ"), card: cards[vt.Choose("cardinality", nCards)], specs: specifiers[vt.Choose("specifiers", nSpecs)]}
	vt.Assume(it.name[0] != 'Z')
	it.text = it.name + it.card
	if it.specs != nil {
		it.text += " -> "
		for _, s := range it.specs {
			it.text += s.name + s.text + " "
		}
		it.text += "<-"
	}
	return it, true
}

func sameCard(got, want interface {
	Delimiter() (uint, *uint)
}) bool {
	a, b := got.Delimiter()
	c, d := want.Delimiter()
	if a != c || (b == nil) != (d == nil) {
		return false
	}
	return b == nil || *b == *d
}

func compare(l tokens.Line, want []item) {
	ins := l.Instructions()
	vt.Assert(len(ins) == len(want), "number-of-instructions")
	if len(ins) != len(want) {
		return
	}
	for i, w := range want {
		vt.Assert(ins[i].IsChannelSwitch() == w.swtch && ins[i].IsElement() == !w.swtch, "channel-switch-where-written")
		if w.swtch || !ins[i].IsElement() {
			continue
		}
		e := ins[i].Element()
		c := e.Content()
		vt.Assert(c.IsRule() == w.rule && c.IsToken() == !w.rule, "token-or-rule")
		vt.Assert(c.Name() == w.name, "name")
		vt.Assert(e.HasCardinality() == (w.card != ""), "has-a-cardinality")
		if w.card != "" && e.HasCardinality() {
			card, err := cardinality.NewAdapter().ToCardinality(w.card)
			vt.Assert(err == nil && sameCard(e.Cardinality(), card), "cardinality")
		}
		if w.rule || !c.IsToken() {
			continue
		}
		vt.Assert(c.Token().HasSpecifiers() == (w.specs != nil), "has-specifiers")
		if w.specs == nil || !c.Token().HasSpecifiers() {
			continue
		}
		all := c.Token().Specifiers().All()
		vt.Assert(len(all) == len(w.specs), "number-of-specifiers")
		for k, s := range w.specs {
			if k >= len(all) {
				break
			}
			vt.Assert(all[k].Content().Name() == s.name && all[k].Content().IsRule() == s.rule && all[k].Content().IsToken() == !s.rule, "specifier-name")
			card, err := cardinality.NewSpecificAdapter().ToSpecific(s.text)
			vt.Assert(err == nil && sameCard(all[k].Cardinality(), card), "specifier-cardinality")
			_, err = c.Token().Specifiers().Find(s.name)
			vt.Assert(err == nil, "specifier-found-by-name")
		}
		vt.Reach("specifiers")
	}
}

func text(items []item) string {
	out := []string{}
	for _, i := range items {
		out = append(out, i.text)
	}
	return strings.Join(out, " ")
}

// HLine: a line is read as exactly the instructions it lists, in order.
func HLine() {
	max, nc, ns := 2, 4, 2
	if vt.Thorough() {
		max, nc, ns = 3, 4, 2
	}
	n := 1 + vt.Choose("instructions", max)
	items, ok := []item{}, true
	for i := 0; i < n; i++ {
		it, known := anyItem(nc, ns)
		items = append(items, it)
		ok = ok && known
	}
	toks, err := adapter().ToTokens("t: " + text(items) + ";")
	vt.Assert((err == nil) == ok, "read-iff-the-rules-exist")
	if err != nil || !ok {
		vt.Reach("unknown-rule")
		return
	}
	one, err := toks.Find("t")
	vt.Assert(err == nil && len(toks.All()) == 1, "found-by-name")
	vt.Assert(len(one.Block().Must().All()) == 1 && !one.Block().HasNot() && !one.HasTestSuite(), "one-line")
	compare(one.Block().Must().All()[0], items)
	vt.Reach("read")
}

// HElement: the same for one instruction with every cardinality and specifier.
func HElement() {
	it, ok := anyItem(len(cards), len(specifiers))
	toks, err := adapter().ToTokens("t:" + it.text + ";")
	vt.Assert((err == nil) == ok, "read-iff-the-rules-exist")
	if err != nil || !ok {
		return
	}
	compare(toks.All()[0].Block().Must().All()[0], []item{it})
	vt.Reach("read")
}

// HBlock: a block has the lines it lists before and after ---.
func HBlock() {
	m, k := 1+vt.Choose("must", 2), vt.Choose("not", 2+boolInt(vt.Thorough()))
	lines := func(n int) ([][]item, string) {
		out, texts := [][]item{}, []string{}
		for i := 0; i < n; i++ {
			it, ok := anyItem(2, 1)
			vt.Assume(ok)
			out = append(out, []item{it})
			texts = append(texts, it.text)
		}
		return out, strings.Join(texts, "\n|")
	}
	must, script := lines(m)
	not, notText := lines(k)
	if k > 0 {
		script += "\n---\n:" + notText
	}
	toks, err := adapter().ToTokens("t:" + script + ";")
	vt.Assert(err == nil, "read")
	if err != nil {
		return
	}
	b := toks.All()[0].Block()
	vt.Assert(len(b.Must().All()) == m, "number-of-lines")
	vt.Assert(b.HasNot() == (k > 0), "has-forbidden-lines")
	for i, l := range b.Must().All() {
		if i < m {
			compare(l, must[i])
		}
	}
	if k > 0 && b.HasNot() {
		vt.Assert(len(b.Not().All()) == k, "number-of-forbidden-lines")
		for i, l := range b.Not().All() {
			if i < k {
				compare(l, not[i])
			}
		}
		vt.Reach("forbidden")
	}
	vt.Reach("read")
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

// HSuite: a test suite has the texts between its delimiters, in order and unchanged.
func HSuite() {
	n := 1 + vt.Choose("texts", 3)
	texts := []string{}
	script := ""
	for i := 0; i < n; i++ {
		s := vt.StringOf("text", 1, 2, "a 1:+")
		vt.Assume(!strings.Contains(s, "++"))
		if i == 0 {
			vt.Assume(s[0] != ' ' && s[len(s)-1] != ' ')
		}
		texts = append(texts, s)
		if i > 0 {
			script += "###"
		}
		script += s
	}
	script += "###"
	vt.Assume(!strings.Contains(script, "+++"))
	toks, err := adapter().ToTokens("t: A +++ :" + script + ";")
	vt.Assert(err == nil, "read")
	if err != nil {
		return
	}
	t := toks.All()[0]
	vt.Assert(t.HasTestSuite(), "has-a-suite")
	compare(t.Block().Must().All()[0], []item{{rule: true, name: "A"}})
	if t.HasTestSuite() {
		l := t.TestSuite().Lines()
		vt.Assert(len(l) == n, "number-of-texts")
		for i := range texts {
			if i < len(l) {
				vt.Assert(l[i] == texts[i], "text")
			}
		}
	}
	vt.Reach("read")
}

// HSeveral: several tokens keep their order; a name declared twice is refused.
func HSeveral() {
	n := 2 + vt.Choose("tokens", 2)
	names, script, twice := []string{}, "", false
	for i := 0; i < n; i++ {
		s := vt.StringOf("name", 1, 2, "abZ")
		vt.Assume(s[0] != 'Z')
		for _, o := range names {
			twice = twice || o == s
		}
		names = append(names, s)
		script += s + []string{":", " :"}[vt.Choose("blank", 2)] + "A;\n"
	}
	toks, err := adapter().ToTokens(script)
	vt.Assert((err != nil) == twice, "refused-iff-declared-twice")
	if err != nil || twice {
		vt.Reach("twice")
		return
	}
	vt.Assert(len(toks.All()) == n, "number-of-tokens")
	for i, s := range names {
		if i < len(toks.All()) {
			vt.Assert(toks.All()[i].Name() == s, "in-order")
		}
		one, err := toks.Find(s)
		vt.Assert(err == nil && one.Name() == s, "found-by-name")
	}
	_, err = toks.Find("q")
	vt.Assert(err != nil, "absent-name-refused")
	vt.Reach("read")
}

// HIncomplete: tokens without instructions, and parts without their opening colon, are refused.
func HIncomplete() {
	body := []string{" ", "|A", "A|", "A||B", "A---B", "A---", "A---:", "A+++x", "A+++", "A+++:", "C", "x->A<-", "x->C{1}<-", "x{3,1}", "A{0}"}
	k := vt.Choose("body", len(body))
	_, err := adapter().ToTokens("t:" + body[k] + ";")
	vt.Assert(err != nil, "incomplete-refused")
	_, err = adapter().ToTokens("")
	vt.Assert(err != nil, "nothing-refused")
	_, err = tokens.NewAdapterBuilder().Create().Now()
	vt.Assert(err != nil, "rules-needed")
	vt.Reach("refused")
}

// HLong: many tokens with long names, many lines and many instructions.
func HLong() {
	n := []int{1, 5, 12}[vt.Choose("tokens", 3)]
	lines := []int{1, 5, 12}[vt.Choose("lines", 3)]
	long := strings.Repeat("Name", vt.Choose("long", 2)*10)
	it, ok := anyItem(3, 1)
	vt.Assume(ok)
	width := []int{2, 9}[vt.Choose("instructions", 2)]
	not := vt.Bool("not")
	script := ""
	want := [][]item{}
	texts := []string{}
	for i := 0; i < lines; i++ {
		items := []item{}
		for j := 0; j < width; j++ {
			if j == i%width {
				items = append(items, it)
			} else {
				items = append(items, item{text: "u" + long + "+", name: "u" + long, card: "+"})
			}
		}
		want = append(want, items)
		texts = append(texts, text(items))
	}
	body := strings.Join(texts, "\n| ")
	if not {
		body += "\n---\n: " + strings.Join(texts, "\n| ")
	}
	for i := 0; i < n; i++ {
		script += "t" + long + string(rune('A'+i)) + ": " + body + "\n;\n"
	}
	toks, err := adapter().ToTokens(script)
	vt.Assert(err == nil, "long-read")
	if err != nil {
		return
	}
	vt.Assert(len(toks.All()) == n, "number-of-tokens")
	for i, t := range toks.All() {
		name := "t" + long + string(rune('A'+i))
		vt.Assert(t.Name() == name, "in-order")
		one, err := toks.Find(name)
		vt.Assert(err == nil && one.Name() == name, "found-by-name")
		all := [][]tokens.Line{t.Block().Must().All()}
		vt.Assert(t.Block().HasNot() == not, "has-forbidden-lines")
		if not && t.Block().HasNot() {
			all = append(all, t.Block().Not().All())
		}
		for _, ls := range all {
			vt.Assert(len(ls) == lines, "number-of-lines")
			for j, l := range ls {
				if j < lines {
					compare(l, want[j])
				}
			}
		}
	}
	vt.Reach("read")
}

// HLongSuite: a test suite with many or long texts.
func HLongSuite() {
	n := []int{4, 9, 20}[vt.Choose("texts", 3)]
	c := vt.StringOf("character", 1, 1, "a 1:;|")
	vt.Assume(c != ";")
	script, texts := "", []string{}
	for i := 0; i < n; i++ {
		s := "a" + strings.Repeat("z", i*11) + c + "b"
		texts = append(texts, s)
		script += s + "###"
	}
	toks, err := adapter().ToTokens("t: A +++ :" + script + ";")
	vt.Assert(err == nil, "read")
	if err != nil {
		return
	}
	t := toks.All()[0]
	vt.Assert(t.HasTestSuite(), "has-a-suite")
	if t.HasTestSuite() {
		l := t.TestSuite().Lines()
		vt.Assert(len(l) == n, "number-of-texts")
		for i := range l {
			vt.Assert(i < n && l[i] == texts[i], "text")
		}
	}
	vt.Reach("read")
}

// Quick: the quick tier has the larger bounds too.
const Quick = 1
