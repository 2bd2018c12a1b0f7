package h03

import (
	"strconv"
	"strings"

	"github.com/steve-care-software/steve/domain/languages/lexers/containers/tokens"
	"github.com/steve-care-software/steve/zz_verif/hx/gm"
	"github.com/steve-care-software/steve/zz_verif/vt"
)

func amount(c interface{ Delimiter() (uint, *uint) }) string {
	min, max := c.Delimiter()
	out := strconv.Itoa(int(min)) + "-"
	if max != nil {
		out += strconv.Itoa(int(*max))
	}
	return out
}

func lines(list tokens.Lines) string {
	out := []string{}
	for _, l := range list.All() {
		line := []string{}
		for _, i := range l.Instructions() {
			if i.IsChannelSwitch() {
				line = append(line, "#")
				continue
			}
			e := i.Element()
			text := e.Content().Name()
			if e.HasCardinality() {
				text += amount(e.Cardinality())
			} else {
				text += amount(gm.One.Cardinality())
			}
			if c := e.Content(); c.IsToken() && c.Token().HasSpecifiers() {
				for _, s := range c.Token().Specifiers().All() {
					text += "." + s.Content().Name() + amount(s.Cardinality())
				}
			}
			line = append(line, text)
		}
		out = append(out, strings.Join(line, " "))
	}
	return strings.Join(out, "|")
}

func dump(all tokens.Tokens) string {
	out := []string{}
	for _, t := range all.All() {
		text := t.Name() + ":" + lines(t.Block().Must())
		if t.Block().HasNot() {
			text += "!" + lines(t.Block().Not())
		}
		out = append(out, text)
	}
	return strings.Join(out, ";")
}

// HTokens: the tokens of a grammar given as texts are the ones it declares.
func HTokens() {
	g := base()
	app := gm.Application()
	got, err := app.Tokens(g.Single("").Multiple().Container())
	vt.Assert(err == nil, "tokens-read")
	if err != nil {
		return
	}
	vt.Assert(dump(got) == dump(g.RealTokens(g.Toks)), "tokens-as-declared")
	vt.Reach("read")
}
