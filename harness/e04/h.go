// Package e04 checks how references between token files are read.
package e04

import (
	"strings"

	"github.com/steve-care-software/steve/domain/languages/lexers/paths"
	"github.com/steve-care-software/steve/domain/languages/lexers/references"
	"github.com/steve-care-software/steve/domain/languages/lexers/references/links"
	"github.com/steve-care-software/steve/zz_verif/vt"
)

type incl struct{ name, rules, tokens, channels string }

type lnk struct{ local, include, ref string }

func name(label string) string {
	if several {
		return short(label)
	}
	s := vt.StringOf(label, 1, 2, "aZ")
	vt.Assume(s[0] != 'Z')
	return s
}

func short(label string) string { return vt.StringOf(label, 1, 1, "ab") }

// several is set when more than one link is read: fewer layouts are tried then.
var several bool

var blanks = []string{" ", "\n\t"}

func find(all []incl, name string) *incl {
	for i := range all {
		if all[i].name == name {
			return &all[i]
		}
	}
	return nil
}

func sameInclude(got links.Include, want incl) bool {
	p := got.Paths()
	return got.Name() == want.name && p.Rules() == want.rules && p.Tokens() == want.tokens && p.HasChannels() == (want.channels != "") && p.Channels() == want.channels
}

func compare(got links.Links, want []lnk, includes []incl, what string) {
	all := got.All()
	vt.Assert(len(all) == len(want), what+"-count")
	for i, w := range want {
		if i >= len(all) {
			break
		}
		vt.Assert(all[i].LocalToken() == w.local && all[i].ReferenceToken() == w.ref, what+"-tokens")
		vt.Assert(sameInclude(all[i].Include(), *find(includes, w.include)), what+"-include")
		l, err := got.FetchByLocalToken(w.local)
		vt.Assert(err == nil && l.LocalToken() == w.local, what+"-found-by-local-token")
		l, err = got.FetchByReferenceToken(w.include, w.ref)
		vt.Assert(err == nil && l.ReferenceToken() == w.ref && l.Include().Name() == w.include, what+"-found-by-reference-token")
	}
	probe, inc := short("probe"), short("include-probe")
	byLocal, byRef := false, false
	for _, w := range want {
		byLocal = byLocal || w.local == probe
		byRef = byRef || w.include == inc && w.ref == probe
	}
	_, err := got.FetchByLocalToken(probe)
	vt.Assert((err == nil) == byLocal, what+"-unknown-local-token-refused")
	_, err = got.FetchByReferenceToken(inc, probe)
	vt.Assert((err == nil) == byRef, what+"-unknown-reference-token-refused")
}

func read(nInc, nRef, nRepl int) {
	includes, script := []incl{}, ""
	for i := 0; i < nInc; i++ {
		it := incl{name: short("include"), rules: vt.StringOf("path", 1, 1, "./ c"), tokens: "t"}
		p := it.rules + ";" + it.tokens
		if !several && vt.Bool("channels") {
			it.channels = "c.x"
			p += ";c.x"
		}
		vt.Assume(find(includes, it.name) == nil)
		includes = append(includes, it)
		script += "include " + it.name + blanks[1] + "\"" + p + "\"\n"
	}
	refs, repls, known := []lnk{}, []lnk{}, true
	for i := 0; i < nRef; i++ {
		l := lnk{name("local"), short("from"), name("referred")}
		known = known && find(includes, l.include) != nil
		refs = append(refs, l)
		script += "reference " + l.local + " " + l.include + "." + l.ref + "\n"
	}
	for i := 0; i < nRepl; i++ {
		l := lnk{name("local"), short("from"), name("replaced")}
		known = known && find(includes, l.include) != nil
		repls = append(repls, l)
		script += "replace " + l.include + "." + l.ref + blanks[boolInt(several)] + l.local + "\n"
	}
	script += "x: A | y*;\n"
	out, err := spent().ToReferences(script)
	vt.Assert((err == nil) == known, "read-iff-the-includes-are-declared")
	if err != nil || !known {
		vt.Reach("unknown-include")
		return
	}
	vt.Assert(out.HasReferences() == (nRef > 0), "has-references")
	vt.Assert(out.HasReplacements() == (nRepl > 0), "has-replacements")
	if nRef > 0 && out.HasReferences() {
		compare(out.References(), refs, includes, "references")
	}
	if nRepl > 0 && out.HasReplacements() {
		compare(out.Replacements(), repls, includes, "replacements")
	}
	vt.Reach("read")
}

// HReferences: references are read as written.
func HReferences() { several = false; read(vt.Choose("includes", 3), 1, 0) }

// HReplacements: replacements are read as written.
func HReplacements() { several = false; read(vt.Choose("includes", 3), 0, 1) }

// HBoth: both together, and several of a kind.
func HBoth() {
	several = true
	k := vt.Choose("shape", 3+boolInt(vt.Thorough()))
	switch k {
	case 0:
		read(1, 1, 1)
	case 1:
		read(1, 2, 0)
	case 2:
		read(1, 0, 2)
	case 3:
		read(2, 1, 1)
	}
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

// HNone: a text without references has none.
func HNone() {
	s := vt.StringOf("text", 0, 4, "ai.: \"")
	out, err := spent().ToReferences(s)
	vt.Assert(err == nil && !out.HasReferences() && !out.HasReplacements(), "none")
	vt.Reach("none")
}

// HPaths: an include has a rules path, a tokens path and possibly a channels path.
func HPaths() {
	max := 4
	if vt.Thorough() {
		max = 6
	}
	if vt.Deep() {
		max = 9
	}
	p := vt.StringOf("paths", 0, max, "a;")
	parts := strings.Split(p, ";")
	ok := (len(parts) == 2 || len(parts) == 3) && parts[0] != "" && parts[1] != ""
	out, err := spent().ToReferences("include i \"" + p + "\" reference l i.r")
	vt.Assert((err == nil) == ok, "read-iff-two-or-three-paths")
	if err != nil || !ok {
		vt.Reach("refused")
		return
	}
	want := incl{name: "i", rules: parts[0], tokens: parts[1]}
	if len(parts) == 3 {
		want.channels = parts[2]
	}
	vt.Assert(sameInclude(out.References().All()[0].Include(), want), "paths")
	vt.Reach("read")
}

// HBuilders: the builders need every mandatory part and keep what they are given.
func HBuilders() {
	r, t, c := vt.StringOf("rules", 0, 2, "ab"), vt.StringOf("tokens", 0, 2, "ab"), vt.StringOf("channels", 0, 2, "ab")
	pb := paths.NewBuilder().WithRules("old").WithTokens("old").WithChannels("old").Create().WithRules(r).WithTokens(t).WithChannels(c)
	p, err := pb.Now()
	vt.Assert((err == nil) == (r != "" && t != ""), "paths-need-rules-and-tokens")
	if err != nil {
		vt.Reach("refused")
		return
	}
	vt.Assert(p.Rules() == r && p.Tokens() == t && p.Channels() == c && p.HasChannels() == (c != ""), "paths-kept")
	n := vt.StringOf("name", 0, 1, "ab")
	ib := links.NewIncludeBuilder().WithName("old").WithPaths(p).Create().WithName(n)
	hasPaths := vt.Bool("has-paths")
	if hasPaths {
		ib.WithPaths(p)
	}
	inc, err := ib.Now()
	vt.Assert((err == nil) == (n != "" && hasPaths), "include-needs-a-name-and-paths")
	if err != nil {
		return
	}
	vt.Assert(inc.Name() == n && inc.Paths() == p, "include-kept")
	l, ref := vt.StringOf("local", 0, 1, "ab"), vt.StringOf("reference", 0, 1, "ab")
	lb := links.NewLinkBuilder().WithLocalToken("old").WithReferenceToken("old").WithInclude(inc).Create().WithLocalToken(l).WithReferenceToken(ref)
	hasInclude := vt.Bool("has-include")
	if hasInclude {
		lb.WithInclude(inc)
	}
	link, err := lb.Now()
	vt.Assert((err == nil) == (l != "" && ref != "" && hasInclude), "link-needs-all-its-parts")
	if err != nil {
		return
	}
	vt.Assert(link.LocalToken() == l && link.ReferenceToken() == ref && link.Include() == inc, "link-kept")
	_, err = links.NewBuilder().Create().WithLinks([]links.Link{}).Now()
	vt.Assert(err != nil, "no-links-refused")
	refs, err := references.NewBuilder().Create().Now()
	vt.Assert(err == nil && !refs.HasReferences() && !refs.HasReplacements(), "references-optional")
	vt.Reach("built")
}

// HLong: many includes and links, long names and long paths.
func HLong() {
	n := []int{4, 9, 14}[vt.Choose("size", 3)]
	long := strings.Repeat("Name", vt.Choose("long", 2)*10)
	dir := strings.Repeat("some/path/", vt.Choose("deep", 2)*9)
	x := vt.StringOf("letter", 1, 1, "abZ")
	c := vt.StringOf("character", 1, 1, "a. /")
	includes, script := []incl{}, ""
	refs, repls := []lnk{}, []lnk{}
	for i := 0; i < n; i++ {
		l := string(rune('a' + i))
		it := incl{name: l + long + x, rules: dir + c + l, tokens: dir + "t"}
		p := it.rules + ";" + it.tokens
		if i%2 == 1 {
			it.channels = dir + "c" + c
			p += ";" + it.channels
		}
		includes = append(includes, it)
		script += "include " + it.name + " \"" + p + "\"\n"
	}
	for i := 0; i < n; i++ {
		l := string(rune('a' + i))
		refs = append(refs, lnk{"l" + l + long, includes[i].name, "r" + l + x + long})
		repls = append(repls, lnk{"s" + l + x, includes[n-1-i].name, "q" + l + long})
		script += "reference " + refs[i].local + " " + refs[i].include + "." + refs[i].ref + "\n"
		script += "replace " + repls[i].include + "." + repls[i].ref + " " + repls[i].local + "\n"
	}
	out, err := references.NewAdapter().ToReferences(script)
	vt.Assert(err == nil && out.HasReferences() && out.HasReplacements(), "long-read")
	if err != nil || !out.HasReferences() || !out.HasReplacements() {
		return
	}
	compare(out.References(), refs, includes, "references")
	compare(out.Replacements(), repls, includes, "replacements")
	vt.Reach("read")
}

// Quick: the quick tier has the larger bounds too.
const Quick = 1

// spent is an adapter that read other texts before, which changes nothing.
func spent() references.Adapter {
	ad := references.NewAdapter()
	_, err := ad.ToReferences("include i \"a;b;c\" include j \"d;e\" reference l i.r reference m j.s replace j.t k")
	vt.Assert(err == nil, "text-before-accepted")
	_, err = ad.ToReferences("include i \"a;b\" reference l j.r")
	vt.Assert(err != nil, "text-before-refused")
	return ad
}
