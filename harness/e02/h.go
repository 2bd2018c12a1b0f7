// Package e02 checks how rules are read from their text and built.
package e02

import (
	"strings"

	"github.com/steve-care-software/steve/domain/languages/lexers/cardinality"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/patterns"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/rules"
	"github.com/steve-care-software/steve/zz_verif/vt"
)

func pattern(name string) patterns.Pattern {
	g, err := patterns.NewGroupBuilder().Create().WithName("$G").WithList([]string{"g"}).Now()
	vt.Assume(err == nil)
	s, err := patterns.NewSerieBuilder().Create().WithName("S").WithList([]patterns.Group{g}).Now()
	vt.Assume(err == nil)
	c, err := patterns.NewChoiceBuilder().Create().WithSerie(s).Now()
	vt.Assume(err == nil)
	p, err := patterns.NewPatternBuilder().Create().WithName(name).WithList([]patterns.Choice{c}).Now()
	vt.Assume(err == nil)
	return p
}

func known(names ...string) patterns.Patterns {
	list := []patterns.Pattern{}
	for _, n := range names {
		list = append(list, pattern(n))
	}
	p, err := patterns.NewBuilder().Create().WithList(list).Now()
	vt.Assume(err == nil)
	return p
}

// HConstant: a constant rule carries exactly its text, an escaped quotation mark standing for one.
func HConstant() {
	max := 3
	if vt.Thorough() {
		max = 5
	}
	if vt.Deep() {
		max = 6
	}
	name := vt.StringOf("name", 1, 2, "AB_")
	text := vt.StringOf("text", 1, max, "aA,[] :-#")
	want, body := text, text
	if vt.Bool("quote") {
		more := "\"" + vt.StringOf("more", 0, 2, "aA\"")
		want += more
		for i := 0; i < len(more); i++ {
			if more[i] == '"' {
				body += "\\"
			}
			body += more[i : i+1]
		}
	}
	script := name + ":" + []string{"", " ", "\n\t"}[vt.Choose("blank", 3)] + "\"" + body + "\";"
	r, err := spent().Rules(script, nil)
	vt.Assert(err == nil, "read")
	if err != nil {
		return
	}
	vt.Assert(len(r.All()) == 1, "one-rule")
	rule, err := r.Find(name)
	vt.Assert(err == nil, "found-by-name")
	if err != nil {
		return
	}
	vt.Assert(rule.Name() == name && r.All()[0].Name() == name, "name")
	c := rule.Element().Content()
	vt.Assert(c.IsConstant() && !c.IsPattern(), "is-a-constant")
	vt.Assert(c.Constant() == want, "text-of-the-constant")
	vt.Assert(rule.Code() == script, "code")
	vt.Reach("read")
}

var cards = []string{"+", "*", "?", "{2}", "{1,3}", "{0,}"}

// HPattern: a pattern rule carries its patterns in order and its cardinality.
func HPattern() {
	n := 1 + vt.Choose("patterns", 3)
	used := []string{}
	for i := 0; i < n; i++ {
		used = append(used, vt.StringOf("use", 1, 1, "pqr"))
	}
	card := cards[vt.Choose("cardinality", len(cards))]
	script := "R: [" + strings.Join(used, " ") + "]" + card + ";"
	r, err := spent().Rules(script, known("p", "q"))
	ok := true
	for _, u := range used {
		if u == "r" {
			ok = false
		}
	}
	vt.Assert((err == nil) == ok, "read-iff-the-patterns-exist")
	if err != nil || !ok {
		vt.Reach("unknown")
		return
	}
	rule, err := r.Find("R")
	vt.Assert(err == nil, "found-by-name")
	c := rule.Element().Content()
	vt.Assert(c.IsPattern() && !c.IsConstant(), "is-a-pattern")
	if !c.IsPattern() {
		return
	}
	l := c.Pattern().SubPatterns().All()
	vt.Assert(len(l) == n, "number-of-patterns")
	for i := range used {
		if i < len(l) {
			vt.Assert(l[i].Name() == used[i], "patterns-in-order")
		}
	}
	want, err := cardinality.NewAdapter().ToCardinality(card)
	vt.Assert(err == nil, "cardinality")
	a := vt.Uint("amount")
	vt.Assert(c.Pattern().Cardinality().IsValid(a) == want.IsValid(a), "cardinality-accepts-the-same-amounts")
	vt.Reach("read")
}

// HSeveral: several rules keep their order; a name declared twice is refused.
func HSeveral() {
	n := 2 + vt.Choose("rules", 2)
	names, texts, script := []string{}, []string{}, ""
	twice := false
	for i := 0; i < n; i++ {
		names = append(names, vt.StringOf("name", 1, 2, "AB"))
		texts = append(texts, vt.StringOf("text", 1, 1, "xA:"))
		for j := 0; j < i; j++ {
			twice = twice || names[j] == names[i]
		}
		script += names[i] + ": \"" + texts[i] + "\";\n"
	}
	r, err := spent().Rules(script, nil)
	vt.Assert((err != nil) == twice, "refused-iff-declared-twice")
	if err != nil || twice {
		vt.Reach("twice")
		return
	}
	l := r.All()
	vt.Assert(len(l) == n, "number-of-rules")
	for i := range names {
		if i < len(l) {
			vt.Assert(l[i].Name() == names[i], "in-order")
		}
		one, err := r.Find(names[i])
		vt.Assert(err == nil && one.Name() == names[i] && one.Element().Content().Constant() == texts[i], "found-by-name")
	}
	_, err = r.Find("C")
	vt.Assert(err != nil, "absent-name-refused")
	vt.Reach("read")
}

// HAnyBody: whatever stands after the colon, a rule that says nothing is refused and nothing panics.
func HAnyBody() {
	max := 5
	if vt.Thorough() {
		max = 6
	}
	if vt.Deep() {
		max = 7
	}
	body := vt.StringOf("body", 0, max, "p \"[]+\\")
	plain := strings.TrimSpace(strings.Replace(body, "\\\"", "e", -1))
	vt.Assume(plain != "") // bodies without a constant, and constants without a text or an end: HEmpty
	if plain[0] == '"' {
		vt.Assume(strings.IndexByte(plain[1:], '"') > 0)
	}
	r, err := spent().Rules("R:"+body+";", known("p"))
	if err != nil {
		vt.Reach("refused")
		return
	}
	vt.Assert(strings.ContainsAny(body, "\"]"), "says-something")
	vt.Assert(len(r.All()) == 1, "one-rule")
	c := r.All()[0].Element().Content()
	vt.Assert(c.IsConstant() != c.IsPattern(), "one-kind")
	if c.IsConstant() {
		vt.Assert(c.Constant() != "", "constant-not-empty")
		vt.Reach("constant")
	} else {
		vt.Assert(len(c.Pattern().SubPatterns().All()) > 0 && c.Pattern().Cardinality() != nil, "pattern-complete")
		vt.Reach("pattern")
	}
}

// HEmpty: a rule with no body, with nothing between its quotation marks or with only one of them is refused.
func HEmpty() {
	k := vt.Choose("body", 5)
	_, err := spent().Rules("R:"+[]string{"", " ", "\"\"", " \"\" ", "\"x"}[k]+";", known("p"))
	vt.Assert(err != nil, "empty-rule-refused")
	vt.Reach("empty")
}

// HBuilt: the builders refuse what is incomplete and forget when restarted.
func HBuilt() {
	name, code, text := vt.StringOf("name", 0, 2, "Nn"), vt.StringOf("code", 0, 2, "Cc"), vt.StringOf("text", 1, 2, "Tt")
	c, err := rules.NewContentBuilder().Create().WithConstant(text).Now()
	vt.Assert(err == nil, "content-with-constant")
	restarted, err := rules.NewContentBuilder().Create().WithConstant(text).Create().Now()
	vt.Assert(err != nil || restarted.Constant() == "", "restarted-content-builder")
	give := vt.Bool("content")
	eb := rules.NewElementBuilder().Create().WithCode(code)
	if give {
		eb = eb.WithContent(c)
	}
	e, err := eb.Now()
	vt.Assert((err == nil) == (give && code != ""), "element-iff-complete")
	if err != nil {
		return
	}
	_, err = eb.Create().WithCode(code).Now()
	vt.Assert(err != nil, "restarted-element-builder")
	give = vt.Bool("element")
	rb := rules.NewRuleBuilder().Create().WithName(name).WithCode(code)
	if give {
		rb = rb.WithElement(e)
	}
	r, err := rb.Now()
	vt.Assert((err == nil) == (give && name != "" && code != ""), "rule-iff-complete")
	if err != nil {
		return
	}
	vt.Assert(r.Name() == name && r.Code() == code && r.Element() == e && r.Element().Code() == code && r.Element().Content().Constant() == text, "keeps-what-was-given")
	_, err = rb.Create().WithName(name).WithCode(code).Now()
	vt.Assert(err != nil, "restarted-rule-builder")
	_, err = rules.NewBuilder().Create().WithRules([]rules.Rule{}).Now()
	vt.Assert(err != nil, "rules-not-empty")
	card, err := cardinality.NewBuilder().Create().IsOptional().Now()
	vt.Assume(err == nil)
	a, b := vt.Bool("patterns"), vt.Bool("cardinality")
	pb := rules.NewPatternBuilder().Create()
	if a {
		pb = pb.WithSubPatterns(known("p"))
	}
	if b {
		pb = pb.WithCardinality(card)
	}
	p, err := pb.Now()
	vt.Assert((err == nil) == (a && b), "pattern-iff-complete")
	if err == nil {
		vt.Assert(p.Cardinality() == card && len(p.SubPatterns().All()) == 1, "pattern-keeps")
		_, err = rules.NewContentBuilder().Create().WithPattern(p).Now()
		vt.Assert(err == nil, "content-with-pattern")
		vt.Reach("built")
	}
}

// HLong: many rules, long names, long constants and rules of many patterns.
func HLong() {
	n := []int{5, 9, 17}[vt.Choose("rules", 3)]
	long := strings.Repeat("NAME_", vt.Choose("long", 2)*8)
	x := vt.StringOf("letter", 1, 1, "XYZ_")
	c := vt.StringOf("character", 1, 1, "ab:[ 1")
	pats := []string{}
	for i := 0; i < n; i++ {
		pats = append(pats, "p"+string(rune('a'+i)))
	}
	script := ""
	for i := 0; i < n; i++ {
		script += long + string(rune('A'+i)) + x + ": \"" + strings.Repeat("q", i*9) + c + "\";\n"
	}
	script += "ZZ" + long + x + ": [" + strings.Join(pats, " ") + "]{10,200};\n"
	r, err := rules.NewAdapter().Rules(script, known(pats...))
	vt.Assert(err == nil, "long-read")
	if err != nil {
		return
	}
	vt.Assert(len(r.All()) == n+1, "all-rules")
	for i := 0; i < n && i < len(r.All()); i++ {
		name := long + string(rune('A'+i)) + x
		vt.Assert(r.All()[i].Name() == name, "in-order")
		one, err := r.Find(name)
		vt.Assert(err == nil && one.Name() == name && one.Element().Content().Constant() == strings.Repeat("q", i*9)+c, "found-by-name")
	}
	one, err := r.Find("ZZ" + long + x)
	vt.Assert(err == nil && one.Element().Content().IsPattern(), "is-a-pattern")
	if err != nil || !one.Element().Content().IsPattern() {
		return
	}
	p := one.Element().Content().Pattern()
	vt.Assert(len(p.SubPatterns().All()) == n, "number-of-patterns")
	for i, s := range p.SubPatterns().All() {
		vt.Assert(i < n && s.Name() == pats[i], "patterns-in-order")
	}
	a := vt.Uint("amount")
	vt.Assert(p.Cardinality().IsValid(a) == (a >= 10 && a <= 200), "cardinality-accepts-the-same-amounts")
	vt.Reach("read")
}

// Quick: the quick tier has the larger bounds too.
const Quick = 1

// spent is an adapter that read other texts before, which changes nothing.
func spent() rules.Adapter {
	ad := rules.NewAdapter()
	_, err := ad.Rules("R: \"x\"; SECOND: [p q]{2,}; T: \"\\\"\";", known("p", "q"))
	vt.Assert(err == nil, "text-before-accepted")
	_, err = ad.Rules("R: \"a\"; U: [r]+;", known("p"))
	vt.Assert(err != nil, "text-before-refused")
	return ad
}
