// Package e01 checks how groups and patterns are read and matched.
package e01

import (
	"strings"

	"github.com/steve-care-software/steve/domain/languages/lexers/containers/patterns"
	"github.com/steve-care-software/steve/zz_verif/vt"
)

// The builders are shared: what one object was given is not for the next one.
var (
	sharedPatterns        = patterns.NewBuilder()
	sharedPatternsChoice  = patterns.NewChoiceBuilder()
	sharedPatternsGroup   = patterns.NewGroupBuilder()
	sharedPatternsPattern = patterns.NewPatternBuilder()
	sharedPatternsSerie   = patterns.NewSerieBuilder()
)

// grp is the reference description of a group.
type grp struct {
	name    string
	options []string
}

func (g grp) longest(s string) int {
	out := 0
	for _, o := range g.options {
		if len(o) > out && strings.HasPrefix(s, o) {
			out = len(o)
		}
	}
	return out
}

func (g grp) build() patterns.Group {
	out, err := sharedPatternsGroup.Create().WithName(g.name).WithList(g.options).Now()
	vt.Assert(err == nil, "group-built")
	vt.Assume(err == nil)
	return out
}

// ser is the reference description of a choice.
type ser struct {
	name    string
	groups  []grp
	reverse bool
}

func (s ser) build() patterns.Choice {
	list := []patterns.Group{}
	for _, g := range s.groups {
		list = append(list, g.build())
	}
	serie, err := sharedPatternsSerie.Create().WithName(s.name).WithList(list).Now()
	vt.Assert(err == nil, "serie-built")
	vt.Assume(err == nil)
	b := sharedPatternsChoice.Create().WithSerie(serie).IsReverse().Create().WithSerie(serie)
	if s.reverse {
		b = b.IsReverse()
	}
	c, err := b.Now()
	vt.Assert(err == nil, "choice-built")
	vt.Assume(err == nil)
	return c
}

type pat struct {
	name    string
	choices []ser
}

func (p pat) build() patterns.Pattern {
	list := []patterns.Choice{}
	for _, c := range p.choices {
		list = append(list, c.build())
	}
	out, err := sharedPatternsPattern.Create().WithName(p.name).WithList(list).Now()
	vt.Assert(err == nil, "pattern-built")
	vt.Assume(err == nil)
	return out
}

// found is the reference result.
type found struct {
	start int
	texts []string
	names []string
	back  []bool
	next  string
}

func (p pat) find(content string) (found, bool) {
	for i := 0; i < len(content); i++ {
		f := p.at(content[i:])
		if len(f.texts) > 0 {
			f.start = i
			return f, true
		}
	}
	return found{}, false
}

func (p pat) at(rest string) found {
	out := found{}
	for _, c := range p.choices {
		if c.reverse {
			n := 0
			for n < len(rest) && c.groups[0].longest(rest[n:]) == 0 {
				n++
			}
			if n == 0 {
				continue
			}
			out.texts = append(out.texts, rest[:n])
			out.names = append(out.names, c.name)
			out.back = append(out.back, true)
			rest = rest[n:]
			continue
		}
		texts, names, back := []string{}, []string{}, []bool{}
		for _, g := range c.groups {
			n := g.longest(rest)
			if n == 0 {
				out.next = g.name
				return out
			}
			texts = append(texts, rest[:n])
			names = append(names, g.name)
			back = append(back, false)
			rest = rest[n:]
		}
		out.texts = append(out.texts, texts...)
		out.names = append(out.names, names...)
		out.back = append(out.back, back...)
	}
	return out
}

func check(r patterns.Result, f found, content string) {
	d := r.Discoveries()
	vt.Assert(d.Index() == uint(f.start), "starts-at-the-leftmost-match")
	all := d.All()
	vt.Assert(len(all) == len(f.texts), "number-of-discoveries")
	if len(all) != len(f.texts) {
		return
	}
	for i, one := range all {
		vt.Assert(one.Content() == f.texts[i], "discovered-text")
		vt.Assert(one.Container().Name() == f.names[i], "discovered-by")
		c := one.Container()
		vt.Assert(c.IsReverse() == f.back[i] && c.IsGroup() == !f.back[i], "discovered-by-a-group-or-a-reversed-series")
		vt.Assert(!c.IsReverse() || c.Reverse().Name() == f.names[i], "reversed-series")
		vt.Assert(!c.IsGroup() || c.Group().Name() == f.names[i], "group")
		last, err := d.Find(f.names[i])
		vt.Assert(err == nil && last.Container().Name() == f.names[i], "found-by-name")
	}
	whole := strings.Join(f.texts, "")
	vt.Assert(d.Content() == whole, "content")
	vt.Assert(d.Amount() == uint(len(whole)), "amount")
	if vt.Bool("counted") {
		n, min, max := uint(len(whole)), vt.Uint("min"), vt.Uint("max")
		vt.Assert(d.IsAmount(min) == (n == min), "is-amount")
		vt.Assert(d.IsAtLeast(min) == (n >= min), "is-at-least")
		vt.Assert(d.IsInRange(min, max) == (n >= min && n <= max), "is-in-range")
		return
	}
	vt.Assert(r.HasNext() == (f.next != ""), "names-the-next-group")
	if r.HasNext() && f.next != "" {
		vt.Assert(r.Next().Group().Name() == f.next && !r.Next().IsReverse(), "next-group")
		vt.Reach("incomplete")
		return
	}
	rest := content[f.start+len(whole):]
	vt.Assert(r.HasRemaining() == (rest != ""), "has-remaining")
	if rest != "" {
		vt.Assert(r.Remaining() == rest, "remaining")
	}
	vt.Reach("complete")
}

// HGroup: a group matches at the leftmost position, with its longest option there.
func HGroup() {
	n := 1 + vt.Choose("options", 3)
	max := 4
	if vt.Thorough() {
		max = 6
	}
	g := grp{name: "$G"}
	for i := 0; i < n; i++ {
		g.options = append(g.options, vt.StringOf("option", 1, 3, "ab"))
	}
	content := vt.StringOf("content", 0, max, "abx")
	r, err := spent().FromGroupToResult(g.build(), content)
	f, ok := pat{choices: []ser{{name: "S", groups: []grp{g}}}}.find(content)
	vt.Assert((err == nil) == ok, "found-iff-it-occurs")
	if err != nil || !ok {
		vt.Reach("absent")
		return
	}
	check(r, f, content)
}

var groups = []grp{{"$A", []string{"a", "ab"}}, {"$B", []string{"b"}}, {"$C", []string{"ba", "x"}}}

func anyPattern(name string, choices, length int) pat {
	p := pat{name: name}
	k := 1 + vt.Choose("choices", choices)
	for i := 0; i < k; i++ {
		s := ser{name: "S" + string(rune('A'+i)), reverse: vt.Bool("reverse")}
		l := 1 + vt.Choose("groups", length)
		for j := 0; j < l; j++ {
			s.groups = append(s.groups, groups[vt.Choose("group", len(groups))])
		}
		p.choices = append(p.choices, s)
	}
	return p
}

// HPattern: a pattern follows its choices from the leftmost match of the first one.
func HPattern() {
	max, choices := 4, 2
	if vt.Thorough() {
		max, choices = 5, 3
	}
	p := anyPattern("p", choices, 2)
	content := vt.StringOf("content", 0, max, "abx")
	r, err := spent().FromPatternToResult(p.build(), content)
	f, ok := p.find(content)
	vt.Assert((err == nil) == ok, "found-iff-it-occurs")
	if err != nil || !ok {
		vt.Reach("absent")
		return
	}
	check(r, f, content)
}

// HPatterns: the pattern that matches earliest wins, the first one among equals.
func HPatterns() {
	max := 4
	if vt.Thorough() {
		max = 6
	}
	list := []pat{anyPattern("p", 1, 2), anyPattern("q", 1, 1)}
	if vt.Thorough() {
		list = append(list, anyPattern("r", 1, 1))
	}
	content := vt.StringOf("content", 0, max, "abx")
	all := []patterns.Pattern{}
	best, ok := found{}, false
	for _, p := range list {
		all = append(all, p.build())
		f, hit := p.find(content)
		if hit && (!ok || f.start < best.start) {
			best, ok = f, true
		}
	}
	ps, err := sharedPatterns.Create().WithList(all).Now()
	vt.Assert(err == nil, "patterns-built")
	vt.Assert(len(ps.All()) == len(list) && ps.First() == all[0], "keeps-the-order")
	r, err := spent().FromPatternsToResult(ps, content)
	vt.Assert((err == nil) == ok, "found-iff-it-occurs")
	if err != nil || !ok {
		vt.Reach("absent")
		return
	}
	check(r, best, content)
}

func blank(name string) string { return []string{"", " ", "\n\t"}[vt.Choose(name, 3)] }

// HScript: a script gives the groups, series and patterns it says, or an error when a name does not exist.
func HScript() {
	nameA, nameB := "$"+vt.StringOf("group-a", 1, 2, "AB_"), "$"+vt.StringOf("group-b", 1, 1, "AB_")
	useA, useB := "$"+vt.StringOf("use-a", 1, 2, "AB_"), "$"+vt.StringOf("use-b", 1, 1, "AB_")
	vt.Assume(nameA != nameB)
	w := " "
	if vt.Thorough() {
		w = blank("blank")
	}
	script := "p: SE" + w + "@TA;\n" + "SE:" + w + useA + " " + useB + ";\nTA: " + useB + ";\n" + nameA + ":" + w + "\"x,yy\"" + w + ";\n" + nameB + ": \"z\";"
	ps, err := spent().ToPatterns(script)
	a, okA := find(useA, nameA, nameB)
	b, okB := find(useB, nameA, nameB)
	vt.Assert((err == nil) == (okA && okB), "read-iff-every-name-exists")
	if err != nil || !okA || !okB {
		vt.Reach("missing")
		return
	}
	vt.Assert(len(ps.All()) == 1, "one-pattern")
	p, err := ps.Find("p")
	vt.Assert(err == nil && p.Name() == "p", "found-by-name")
	_, err = ps.Find("q")
	vt.Assert(err != nil, "absent-name-refused")
	l := p.Content().List()
	vt.Assert(len(l) == 2 && p.Content().Length() == 2, "two-choices")
	if len(l) != 2 {
		return
	}
	vt.Assert(!l[0].IsReverse() && l[1].IsReverse(), "reversed-when-marked")
	vt.Assert(l[0].Serie().Name() == "SE" && l[1].Serie().Name() == "TA", "series-in-order")
	gs := l[0].Serie().Content().List()
	vt.Assert(len(gs) == 2 && l[0].Serie().Content().Length() == 2, "two-groups")
	if len(gs) == 2 {
		same(gs[0], useA, a)
		same(gs[1], useB, b)
	}
	gs = l[1].Serie().Content().List()
	vt.Assert(len(gs) == 1, "one-group")
	same(gs[0], useB, b)
	vt.Reach("read")
}

func find(name, a, b string) ([]string, bool) {
	if name == a {
		return []string{"x", "yy"}, true
	}
	if name == b {
		return []string{"z"}, true
	}
	return nil, false
}

func same(g patterns.Group, name string, options []string) {
	vt.Assert(g.Name() == name, "group-name")
	l := g.Content().List()
	vt.Assert(len(l) == len(options) && g.Content().Length() == uint(len(options)) && g.Content().First() == options[0], "number-of-options")
	for i := range options {
		if i < len(l) {
			vt.Assert(l[i] == options[i], "option")
		}
	}
}

// HOptions: the options of a group are what its text lists between commas, an escaped quotation mark being one.
func HOptions() {
	max := 4
	if vt.Thorough() {
		max = 6
	}
	text := vt.StringOf("options", 1, max, "ab,#. ")
	want := strings.Split(text, ",")
	for quotes := vt.Choose("quotes", 3); quotes > 0; quotes-- {
		want = append(want, "\"a\"")
		text += ",\\\"a\\\""
	}
	ps, err := spent().ToPatterns("p: S;\nS: $G;\n$G: \"" + text + "\";\n")
	vt.Assert(err == nil, "read")
	if err != nil {
		return
	}
	l := ps.First().Content().List()[0].Serie().Content().List()
	vt.Assert(len(l) == 1, "one-group")
	same(l[0], "$G", want)
	vt.Reach("read")
}

// HShipped: the quotation and comment patterns of the shipped language delimit what they should.
func HShipped() {
	script := "text: @QUOTATION;\nline: TWO_SLASHES @EOF EOF;\nblock: SLASH_STAR @STAR_SLASH STAR_SLASH;\n" +
		"QUOTATION: $QUOTATION;\nSLASH_STAR: $SLASH_STAR;\nSTAR_SLASH: $STAR_SLASH;\nTWO_SLASHES: $TWO_SLASHES;\nEOF: $EOF;\n" +
		"$SLASH_STAR: \"/*\";\n$STAR_SLASH: \"*/\";\n$QUOTATION: \"\\\"\";\n$TWO_SLASHES: \"//\";\n$EOF: \"\n\";\n"
	ps, err := spent().ToPatterns(script)
	vt.Assert(err == nil && len(ps.All()) == 3, "read")
	max := 6
	if vt.Thorough() {
		max = 8
	}
	content := vt.StringOf("content", 1, max, "/*\"\nz")
	name, open, end, drop := "block", "/*", "*/", false
	switch vt.Choose("pattern", 3) {
	case 1:
		name, open, end = "line", "//", "\n"
	case 2:
		name, open, end, drop = "text", "", "\"", true
	}
	p, err := ps.Find(name)
	vt.Assert(err == nil, "found-by-name")
	r, err := spent().FromPatternToResult(p, content)
	start := strings.Index(content, open)
	if drop {
		for start = 0; start < len(content) && content[start] == '"'; start++ {
		}
		if start == len(content) {
			start = -1
		}
	}
	vt.Assert((err == nil) == (start >= 0), "found-iff-it-opens")
	if err != nil || start < 0 {
		return
	}
	vt.Assert(r.Discoveries().Index() == uint(start), "starts-where-it-opens")
	body := content[start+len(open):]
	close := strings.Index(body, end)
	text := r.Discoveries().Content()
	if drop {
		if close < 0 {
			close = len(body)
		}
		vt.Assert(text == body[:close], "text-up-to-the-quotation-mark")
		vt.Reach("text")
		return
	}
	if close >= 0 {
		vt.Assert(text == content[start:start+len(open)+close+len(end)] && !r.HasNext(), "closed-at-the-first-end")
		vt.Reach("closed")
	}
	if close < 0 {
		vt.Assert(r.HasNext(), "names-the-missing-end")
		vt.Reach("open")
	}
}

// HLarge: groups, series and patterns with many members, long options and long contents.
func HLarge() {
	g := grp{name: "$G"}
	n := []int{5, 9, 17}[vt.Choose("options", 3)]
	for i := 0; i < n; i++ {
		g.options = append(g.options, strings.Repeat("a", i)+"b")
	}
	at := vt.Choose("at", 2) * (n - 1)
	g.options[at] = vt.StringOf("option", 1, 2, "ab")
	content := strings.Repeat("x", []int{0, 1, 40}[vt.Choose("before", 3)]) + strings.Repeat("a", vt.Choose("a", 3)*9) + vt.StringOf("content", 1, 2, "abx") + strings.Repeat("x", vt.Choose("after", 2)*40)
	r, err := patterns.NewAdapter().FromGroupToResult(g.build(), content)
	f, ok := pat{choices: []ser{{name: "S", groups: []grp{g}}}}.find(content)
	vt.Assert((err == nil) == ok, "found-iff-it-occurs")
	if err != nil || !ok {
		return
	}
	check(r, f, content)
}

// HLong: series of many groups and patterns of many choices.
func HLong() {
	p := pat{name: "p"}
	k := []int{1, 4, 7}[vt.Choose("choices", 3)]
	l := []int{1, 3, 6}[vt.Choose("groups", 3)]
	text := ""
	for i := 0; i < k; i++ {
		s := ser{name: "S" + string(rune('A'+i))}
		for j := 0; j < l; j++ {
			c := string(rune('a' + (i+j)%5))
			s.groups = append(s.groups, grp{"$" + strings.ToUpper(c), []string{c}})
			text += c
		}
		p.choices = append(p.choices, s)
	}
	cut := len(text)
	if vt.Bool("cut") {
		cut = len(text) - 1 - vt.Choose("missing", 2)*(len(text)/2)
	}
	content := vt.StringOf("before", 0, 2, "ax") + text[:cut] + vt.StringOf("after", 0, 2, "abx")
	r, err := patterns.NewAdapter().FromPatternToResult(p.build(), content)
	f, ok := p.find(content)
	vt.Assert((err == nil) == ok, "found-iff-it-occurs")
	if err != nil || !ok {
		return
	}
	check(r, f, content)
}

// HLongScript: a script with many groups, series and patterns and with long names and options is read as written.
func HLongScript() {
	n := []int{5, 12}[vt.Choose("size", 2)]
	long := strings.Repeat("LONG_", vt.Choose("long", 2)*8)
	x := vt.StringOf("letter", 1, 1, "XYZ_")
	o := vt.StringOf("option", 1, 1, "ab .")
	script, parts := "", ""
	for i := 0; i < n; i++ {
		c := string(rune('A' + i))
		script += strings.ToLower(c) + strings.ToLower(strings.Replace(long, "_", "x", -1)) + ": " + long + c + x + ";\n"
		parts += long + c + x + ": $" + c + long + x + " $" + c + long + x + ";\n"
		parts += "$" + c + long + x + ": \"" + c + "," + strings.Repeat(o, 1+i*3) + "\";\n"
	}
	ps, err := patterns.NewAdapter().ToPatterns(script + parts)
	vt.Assert(err == nil, "long-script-read")
	if err != nil {
		return
	}
	vt.Assert(len(ps.All()) == n, "all-patterns")
	for i, p := range ps.All() {
		c := string(rune('A' + i))
		l := p.Content().List()
		vt.Assert(p.Name() == strings.ToLower(c)+strings.ToLower(strings.Replace(long, "_", "x", -1)) && len(l) == 1, "pattern-as-written")
		one, err := ps.Find(p.Name())
		vt.Assert(err == nil && one.Name() == p.Name(), "pattern-found")
		if len(l) != 1 {
			continue
		}
		gs := l[0].Serie().Content().List()
		vt.Assert(l[0].Serie().Name() == long+c+x && len(gs) == 2, "series-as-written")
		for _, g := range gs {
			same(g, "$"+c+long+x, []string{c, strings.Repeat(o, 1+i*3)})
		}
	}
	vt.Reach("read")
}

// spent is an adapter that read other texts before, which changes nothing.
func spent() patterns.Adapter {
	ad := patterns.NewAdapter()
	ps, err := ad.ToPatterns("p: SE @TA | S;\nSE: $A $B;\nTA: $B;\nS: $G;\n$A: \"x,xb\";\n$B: \"ab\";\n$G: \"q\";")
	vt.Assert(err == nil, "text-before-accepted")
	vt.Assume(err == nil)
	for _, content := range []string{"xaab", "ba"} {
		ad.FromPatternsToResult(ps, content)
		g := grp{name: "$G", options: []string{"xa", "ba"}}
		ad.FromGroupToResult(g.build(), content)
	}
	ad.ToPatterns("q: TE;\nTE: $H $J;\n$H: \"x\"")
	return ad
}
