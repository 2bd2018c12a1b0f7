// Package d01 checks cardinalities: how they are read, written and applied.
package d01

import (
	"strings"

	"github.com/steve-care-software/steve/domain/languages/lexers/cardinality"
	"github.com/steve-care-software/steve/zz_verif/vt"
)

// The builders are shared: what one object was given is not for the next one.
var (
	sharedCardinality         = cardinality.NewBuilder()
	sharedCardinalityRange    = cardinality.NewRangeBuilder()
	sharedCardinalitySpecific = cardinality.NewSpecificBuilder()
)

// bounds are the amounts a cardinality accepts.
type bounds struct {
	min    uint
	max    uint
	hasMax bool
}

func (b bounds) has(n uint) bool { return n >= b.min && (!b.hasMax || n <= b.max) }

func number(s string) (uint, bool) {
	if s == "" {
		return 0, false
	}
	n := uint(0)
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		n = n*10 + uint(s[i]-'0')
	}
	return n, true
}

// read is the reference reading of a text that is already trimmed.
func read(s string) (bounds, bool) {
	switch s {
	case "?":
		return bounds{0, 1, true}, true
	case "+":
		return bounds{1, 0, false}, true
	case "*":
		return bounds{0, 0, false}, true
	}
	if len(s) < 2 || s[0] != '{' || s[len(s)-1] != '}' {
		return bounds{}, false
	}
	in := s[1 : len(s)-1]
	c := strings.IndexByte(in, ',')
	if c < 0 {
		n, ok := number(in)
		return bounds{n, n, true}, ok && n > 0
	}
	min, ok := number(in[:c])
	if !ok {
		return bounds{}, false
	}
	rest := strings.TrimSpace(in[c+1:])
	if rest == "" {
		return bounds{min, 0, false}, true
	}
	max, ok := number(rest)
	return bounds{min, max, true}, ok && min <= max
}

func check(c cardinality.Cardinality, b bounds) {
	n := vt.Uint("amount")
	vt.Assert(c.IsValid(n) == b.has(n), "accepts-its-amounts")
	min, max := c.Delimiter()
	vt.Assert(min == b.min, "minimum")
	vt.Assert((max != nil) == b.hasMax, "has-maximum")
	if max != nil && b.hasMax {
		vt.Assert(*max == b.max, "maximum")
	}
	if c.IsSpecific() {
		vt.Assert(c.Specific().IsValid(n) == b.has(n), "specific-accepts-its-amounts")
	}
}

// HText: a text is read as what it says, or refused.
func HText() {
	max := 5
	if vt.Thorough() {
		max = 7
	}
	s := vt.StringOf("text", 0, max, "{},+*? 0123456789-x")
	t := strings.TrimSpace(s)
	c, err := spent().ToCardinality(s)
	b, ok := read(t)
	braces := len(t) >= 2 && t[0] == '{' && t[len(t)-1] == '}'
	if ok {
		vt.Assert(err == nil, "valid-accepted")
		if err == nil {
			check(c, b)
			vt.Reach("accepted")
		}
		return
	}
	if braces || strings.ContainsAny(t, "-+*?x") {
		vt.Assert(err != nil, "malformed-refused")
		vt.Reach("refused")
	}
	if err == nil {
		// whatever a text without braces means, some amount must satisfy it
		min, max := c.Delimiter()
		vt.Assert(max == nil || min <= *max, "satisfiable")
	}
}

// HSpecificText: the adapter of specific cardinalities alone.
func HSpecificText() {
	max := 5
	if vt.Thorough() {
		max = 7
	}
	s := vt.StringOf("text", 0, max, "{},0123456789-x ")
	c, err := cardinality.NewSpecificAdapter().ToSpecific(s)
	b, ok := read(s)
	if ok {
		vt.Assert(err == nil, "valid-accepted")
		if err == nil {
			n := vt.Uint("amount")
			vt.Assert(c.IsValid(n) == b.has(n), "accepts-its-amounts")
			vt.Assert(c.IsAmount() != c.IsRange(), "one-kind")
			vt.Reach("accepted")
		}
		return
	}
	if len(s) > 1 && s[0] == '{' && s[len(s)-1] == '}' {
		vt.Assert(err != nil, "malformed-refused")
		vt.Reach("refused")
	}
}

func rng(min uint, hasMax bool, max uint) (cardinality.Specific, error) {
	b := sharedCardinalityRange.Create().WithMinimum(2).WithMaximum(3).Create().WithMinimum(min)
	if hasMax {
		b = b.WithMaximum(max)
	}
	r, err := b.Now()
	if err != nil {
		return nil, err
	}
	vt.Assert(r.Min() == min, "minimum-kept")
	vt.Assert(r.HasMax() == hasMax, "has-maximum-kept")
	if hasMax && r.HasMax() {
		vt.Assert(*r.Max() == max, "maximum-kept")
	}
	return sharedCardinalitySpecific.Create().WithRange(r).Now()
}

// HBuilt: every cardinality that can be built accepts exactly its amounts, and its text reads back as the same cardinality.
func HBuilt() {
	kind := vt.Choose("kind", 6)
	b := sharedCardinality.Create()
	want := bounds{}
	big := uint(1000)
	if vt.Thorough() {
		big = 1000000
	}
	switch kind {
	case 0:
		b, want = b.IsOptional(), bounds{0, 1, true}
	case 1:
		b, want = b.IsMandatory(), bounds{1, 1, true}
	case 2:
		b, want = b.IsNonZeroMultiple(), bounds{1, 0, false}
	case 3:
		b, want = b.IsZeroMultiple(), bounds{0, 0, false}
	case 4:
		n := vt.Uint("n")
		vt.Assume(n < big)
		s, err := sharedCardinalitySpecific.Create().WithAmount(n).Now()
		vt.Assert((err == nil) == (n > 0), "amount-refused-iff-zero")
		if err != nil {
			vt.Reach("zero")
			return
		}
		b, want = b.WithSpecific(s), bounds{n, n, true}
	case 5:
		min, max, hasMax := vt.Uint("min"), vt.Uint("max"), vt.Bool("has-max")
		vt.Assume(min < big && max < big)
		s, err := rng(min, hasMax, max)
		vt.Assert((err == nil) == (!hasMax || min <= max), "range-refused-iff-empty")
		if err != nil {
			vt.Reach("empty-range")
			return
		}
		b, want = b.WithSpecific(s), bounds{min, max, hasMax}
	}
	c, err := b.Now()
	vt.Assert(err == nil, "built")
	if err != nil {
		return
	}
	check(c, want)
	s, err := spent().ToPatternString(c)
	vt.Assert(err == nil, "written")
	if err != nil {
		return
	}
	d, err := spent().ToCardinality(s)
	vt.Assert(err == nil, "read-back")
	if err != nil {
		return
	}
	check(d, want)
	vt.Reach("round-trip")
}

// HAnyNumbers: the same without a text, for numbers of every size.
func HAnyNumbers() {
	min, max, hasMax := vt.Uint("min"), vt.Uint("max"), vt.Bool("has-max")
	s, err := rng(min, hasMax, max)
	vt.Assert((err == nil) == (!hasMax || min <= max), "range-refused-iff-empty")
	if err != nil {
		return
	}
	c, err := sharedCardinality.Create().WithSpecific(s).Now()
	vt.Assert(err == nil, "built")
	check(c, bounds{min, max, hasMax})
	n := vt.Uint("n")
	vt.Assume(n > 0)
	a, err := sharedCardinalitySpecific.Create().WithAmount(n).Now()
	vt.Assert(err == nil, "amount-built")
	c, err = sharedCardinality.Create().WithSpecific(a).Now()
	vt.Assert(err == nil, "built")
	check(c, bounds{n, n, true})
	_, err = sharedCardinality.Create().WithSpecific(a).Create().Now()
	vt.Assert(err != nil, "restarted-builder-is-empty")
	vt.Reach("built")
}

// HLongNumbers: numbers of up to 18 digits are read exactly; what is too large for a number is refused.
func HLongNumbers() {
	digits := []int{8, 9, 10, 12, 16, 18}[vt.Choose("digits", 6)]
	text := "123456789012345678"[:digits]
	if vt.Bool("zeros") {
		text = "000000000000000000"[:digits-1] + "7"
	}
	at := []int{0, digits / 2, digits - 1}[vt.Choose("at", 3)]
	text = text[:at] + vt.StringOf("digit", 1, 1, "0123456789") + text[at+1:]
	n, _ := number(text)
	vt.Assume(n > 0)
	ad := cardinality.NewAdapter()
	switch vt.Choose("form", 4) {
	case 0:
		c, err := ad.ToCardinality("{" + text + "}")
		vt.Assert(err == nil, "valid-accepted")
		if err == nil {
			check(c, bounds{n, n, true})
		}
	case 1:
		c, err := ad.ToCardinality("{" + text + ",}")
		vt.Assert(err == nil, "valid-accepted")
		if err == nil {
			check(c, bounds{n, 0, false})
		}
	case 2:
		c, err := ad.ToCardinality("{0," + text + "}")
		vt.Assert(err == nil, "valid-accepted")
		if err == nil {
			check(c, bounds{0, n, true})
		}
	default:
		_, err := ad.ToCardinality("{1234" + text + "5678901234567890}")
		vt.Assert(err != nil, "too-large-refused")
	}
	vt.Reach("read")
}

// spent is an adapter that read other texts before, which changes nothing.
func spent() cardinality.Adapter {
	ad := cardinality.NewAdapter()
	_, err := ad.ToCardinality("{2,17}")
	vt.Assert(err == nil, "text-before-accepted")
	_, err = ad.ToCardinality("{3,x}")
	vt.Assert(err != nil, "text-before-refused")
	return ad
}
