package i03

import (
	"strings"

	application "github.com/steve-care-software/steve/applications/languages/parsers"
	"github.com/steve-care-software/steve/domain/languages/lexers/asts"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/patterns"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/rules"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/tokens"
	"github.com/steve-care-software/steve/domain/languages/lexers/roots"
	"github.com/steve-care-software/steve/domain/languages/scripts/base/parsers"
	"github.com/steve-care-software/steve/zz_verif/i02"
	"github.com/steve-care-software/steve/zz_verif/vt"
)

const dir = "domain/languages/scripts/resources/base/"

// language is the readers of the shipped language, by the token they read.
var language = load("program", "instruction", "assignable")

func load(names ...string) map[string]asts.Adapter {
	ps, err := patterns.NewAdapter().ToPatterns(vt.RepoFile(dir + "patterns.alex"))
	done(err)
	rs, err := rules.NewAdapter().Rules(vt.RepoFile(dir+"rules.alex"), ps)
	done(err)
	ad, err := tokens.NewAdapterBuilder().Create().WithRules(rs).Now()
	done(err)
	ts, err := ad.ToTokens(vt.RepoFile(dir + "tokens.alex"))
	done(err)
	cs, err := ad.ToTokens(vt.RepoFile(dir + "channels.alex"))
	done(err)
	out := map[string]asts.Adapter{}
	for _, n := range names {
		t, err := ts.Find(n)
		done(err)
		out[n], err = asts.NewAdapterBuilder().Create().WithRoot(t).WithTokens(ts).WithChannels(cs).Now()
		done(err)
	}
	return out
}

func done(err error) {
	if err != nil {
		panic(err)
	}
}

func must(err error, what string) {
	vt.Assert(err == nil, what)
	vt.Assume(err == nil)
}

// within is where an element is written, and how it is found in what is made of the text.
type within struct {
	root, before, after string
	get                 func(v interface{}) interface{}
}

func single(v interface{}) parsers.SingleAssignable {
	return v.(parsers.Assignable).List().Append().Assignable()
}

func condition(v interface{}) parsers.Operation {
	return v.(parsers.Instruction).IfDeclaration().Condition()
}

var (
	value  = within{"assignable", "", "", func(v interface{}) interface{} { return v.(parsers.Assignable).Single().DeclarableValue() }}
	places = map[string]within{
		"intValue":        value,
		"floatValue":      value,
		"boolValue":       value,
		"stringValue":     value,
		"computableValue": value,
		"declarableValue": value,
		"assignable":      {"assignable", "", "", func(v interface{}) interface{} { return v }},
		"totalListAssignable": {"assignable", "", "", func(v interface{}) interface{} {
			return v.(parsers.Assignable).List()
		}},
		"singleAssignable": {"assignable", "append zz, ", "", func(v interface{}) interface{} { return single(v) }},
		"indexValue": {"assignable", "zz[", "]", func(v interface{}) interface{} {
			return v.(parsers.Assignable).Single().ListFetchElement().Index()
		}},
		"sliceDelimiter": {"assignable", "zz[", "]", func(v interface{}) interface{} {
			return v.(parsers.Assignable).List().Slice().Delimiter()
		}},
		"operation":       {"assignable", "append zz, ", "", func(v interface{}) interface{} { return single(v).Operation() }},
		"operationSuffix": {"assignable", "append zz, yy ", "", func(v interface{}) interface{} { return single(v).Operation().Suffix() }},
		"operator": {"assignable", "append zz, yy ", " xx", func(v interface{}) interface{} {
			return single(v).Operation().Suffix().Operator()
		}},
		"variableDeclaration": {"instruction", "", "", func(v interface{}) interface{} { return v.(parsers.Instruction).VariableDeclaration() }},
		"assignment":          {"instruction", "", "", func(v interface{}) interface{} { return v.(parsers.Instruction).Assignment() }},
		"instruction":         {"instruction", "", "", func(v interface{}) interface{} { return v }},
		"program":             {"program", "", "", func(v interface{}) interface{} { return v }},
	}
)

// script reads the text, and makes of it what the language says.
func script(bits uint, root, text string, bad bool, is func(v interface{}) bool) {
	vt.Steps(200)
	p := places[root]
	ast, err := language[p.root].ToAST(p.before + text + p.after)
	must(err, "tried")
	vt.Assert(!ast.IsMistake(), "read")
	vt.Assume(!ast.IsMistake())
	r, err := roots.NewAdapter().ToRoot(ast.Success())
	must(err, "tree-made")
	v, err := application.NewApplication().Execute(r, parsers.NewEvents(bits))
	if bad {
		vt.Assert(err != nil, "number-that-does-not-fit-refused")
		return
	}
	must(err, "accepted")
	vt.Assert(is(p.get(v)), "what-was-written")
}

func shape(m i02.ScriptMode) {
	m.Space, m.Run = " ", script
	i02.Script = &m
}

// HValue: see i02.HValue.
func HValue() {
	shape(i02.ScriptMode{})
	i02.HValue()
}

// HDeclaration: see i02.HDeclaration.
func HDeclaration() {
	shape(i02.ScriptMode{Types: true})
	i02.HDeclaration()
}

// HOperator: see i02.HOperator.
func HOperator() {
	shape(i02.ScriptMode{})
	i02.HOperator()
}

// HOperation: see i02.HOperation.
func HOperation() {
	shape(i02.ScriptMode{Depth: 1})
	i02.HOperation()
}

// HSuffix: see i02.HSuffix.
func HSuffix() {
	shape(i02.ScriptMode{})
	i02.HSuffix()
}

// HIndex: see i02.HIndex.
func HIndex() {
	shape(i02.ScriptMode{})
	i02.HIndex()
}

// HDelimiter: see i02.HDelimiter.
func HDelimiter() {
	shape(i02.ScriptMode{})
	i02.HDelimiter()
}

// HList: see i02.HList.
func HList() {
	shape(i02.ScriptMode{})
	i02.HList()
}

// HSingle: see i02.HSingle.
func HSingle() {
	shape(i02.ScriptMode{})
	i02.HSingle()
}

// HAssignment: see i02.HAssignment.
func HAssignment() {
	shape(i02.ScriptMode{})
	i02.HAssignment()
}

// HFor: see i02.HFor.
func HFor() {
	shape(i02.ScriptMode{})
	i02.HFor()
}

// HInstruction: see i02.HInstruction.
func HInstruction() {
	shape(i02.ScriptMode{})
	i02.HInstruction()
}

// HProgram: see i02.HProgram.
func HProgram() {
	shape(i02.ScriptMode{})
	i02.HProgram()
}

// HHeaders: see i02.HHeaders.
func HHeaders() {
	shape(i02.ScriptMode{})
	i02.HHeaders()
}

// HLong: see i02.HLong.
func HLong() {
	shape(i02.ScriptMode{})
	i02.HLong()
}

func read(root, text string) interface{} {
	var out interface{}
	script(64, root, text, false, func(v interface{}) bool { out = v; return true })
	return out
}

const lower = "abcdefghijklmnopqrstuvwxyz"

var words = strings.Split("break continue append for list bool int uint float string true false if isNull log", " ")

// name is a name with any first letter, any other letter, or that starts with a word of the language.
func name(what string, kind int) string {
	switch kind {
	case 0:
		return vt.StringOf(what+"-first", 1, 1, lower) + vt.StringOf(what+"-rest", 1, 2, "bY")
	case 1:
		return "b" + vt.StringOf(what+"-rest", 1, 1, lower+strings.ToUpper(lower))
	}
	return words[vt.Choose(what+"-word", len(words))] + "s"
}

func isVariable(o parsers.Operation, n string) bool {
	return !o.HasSuffix() && o.Element().IsVariableName() && *o.Element().VariableName() == n
}

// HNames: any name.
func HNames() {
	kind, place := vt.Choose("kind", 3), 0
	if vt.Thorough() || kind == 2 {
		place = vt.Choose("place", 7)
	}
	n := name("name", kind)
	switch place {
	case 0:
		x := read("instruction", n+"++").(parsers.Instruction)
		vt.Assert(x.IsIntIncrement() && x.IntIncrement().VariableName() == n, "name")
	case 1:
		x := read("instruction", "uint "+n).(parsers.Instruction)
		vt.Assert(x.IsVariableDeclaration() && x.VariableDeclaration().Name() == n, "name-declared")
	case 2:
		x := read("instruction", "if "+n+" { break }").(parsers.Instruction)
		vt.Assert(x.IsIfDeclaration() && isVariable(x.IfDeclaration().Condition(), n), "name-of-condition")
	case 3:
		vt.Assert(isVariable(read("operation", n).(parsers.Operation), n), "name-of-value")
	case 4:
		x := read("operationSuffix", "&& "+n).(parsers.OperationSuffix)
		vt.Assert(x.Element().IsVariableName() && *x.Element().VariableName() == n, "name-of-operand")
	case 5:
		x := read("totalListAssignable", "append "+n+", yy").(parsers.TotalListAssignable)
		vt.Assert(x.IsAppend() && x.Append().List().IsVariableName() && x.Append().List().VariableName() == n, "name-of-list")
	default:
		x := read("indexValue", n).(parsers.IndexValue)
		vt.Assert(x.IsVariableName() && x.VariableName() == n, "name-of-index")
	}
	vt.Reach("named")
}

// HNumbers: any number.
func HNumbers() {
	digits := vt.StringOf("digits", 1, 2, "0123456789")
	v := read("declarableValue", digits).(parsers.Value)
	n := uint(0)
	for i := 0; i < len(digits); i++ {
		n = 10*n + uint(digits[i]-'0')
	}
	vt.Assert(v.Type().Flag() == parsers.TypeIntegerFlag|parsers.TypeUnsignedFlag && v.Element() == n, "number")
	vt.Reach("number")
}

// HTexts: a text is what is between its quotes, blanks and comments too.
func HTexts() {
	s := vt.String("first", 1, 1) + vt.StringOf("second", 0, 1, "*/ \na")
	for i := 0; i < len(s); i++ {
		vt.Assume(s[i] != '"' && s[i] < 128)
	}
	v := read("declarableValue", "\""+s+"\"").(parsers.Value)
	vt.Assert(v.Type().Flag() == parsers.TypeStringFlag && v.Element() == s, "text")
	vt.Reach("text")
}

func isIncrements(v interface{}, names ...string) bool {
	x, ok := v.(parsers.Program)
	if !ok || x.HasVariables() || len(x.Instructions().All()) != len(names) {
		return false
	}
	for i, n := range names {
		o := x.Instructions().All()[i]
		if !o.IsIntIncrement() || o.IntIncrement().VariableName() != n || o.IntIncrement().Increment().Element() != 1 {
			return false
		}
	}
	return true
}

// HBlanks: any blanks between the elements.
func HBlanks() {
	a, b, c := vt.StringOf("a", 0, 1, " \t\n"), vt.StringOf("b", 0, 1, " \t\n"), vt.StringOf("c", 0, 2, " \t\n")
	v := read("program", "ab"+a+"+"+b+"+"+c+"cd++")
	vt.Assert(isIncrements(v, "ab", "cd"), "blanks-skipped")
	vt.Reach("blanks")
}

// HComments: any comment between the instructions.
func HComments() {
	s := vt.String("first", 0, 1) + vt.StringOf("second", 0, 1, "*/ a")
	open, end := "//", "\n"
	if vt.Bool("multi") {
		open, end = "/*", "*/"
	}
	for i := 0; i < len(s); i++ {
		vt.Assume(s[i] < 128)
	}
	vt.Assume(strings.Index(s+end, end) == len(s))
	v := read("program", "ab++ "+open+s+end+" cd++")
	vt.Assert(isIncrements(v, "ab", "cd"), "comment-skipped")
	vt.Reach("comment")
}

// HLongTexts: long names, numbers, texts, comments and blanks.
func HLongTexts() {
	n := []int{9, 40, 120}[vt.Choose("length", 3)]
	switch vt.Choose("what", 5) {
	case 0:
		s := "a" + strings.Repeat("bC", n/2) + vt.StringOf("last", 0, 1, "yZ")
		x := read("instruction", s+"++").(parsers.Instruction)
		vt.Assert(x.IsIntIncrement() && x.IntIncrement().VariableName() == s, "long-name")
	case 1:
		k := []int{9, 12, 17}[vt.Choose("digits", 3)]
		digits := strings.Repeat("9", k) + vt.StringOf("last", 1, 1, "0123456789")
		v := read("declarableValue", digits).(parsers.Value)
		worth := uint(0)
		for i := 0; i < len(digits); i++ {
			worth = 10*worth + uint(digits[i]-'0')
		}
		vt.Assert(v.Element() == worth, "long-number")
	case 2:
		s := strings.Repeat("x ", n/2) + vt.String("middle", 0, 1) + strings.Repeat("/y", n/2)
		for i := 0; i < len(s); i++ {
			vt.Assume(s[i] != '"' && s[i] < 128)
		}
		v := read("declarableValue", "\""+s+"\"").(parsers.Value)
		vt.Assert(v.Element() == s, "long-text")
	case 3:
		open, end := "//", "\n"
		if vt.Bool("multi") {
			open, end = "/*", "*/"
		}
		s := strings.Repeat("x ", n/2) + vt.StringOf("middle", 0, 2, "*/ \n") + strings.Repeat("x ", n/2)
		vt.Assume(strings.Index(s+end, end) == len(s))
		vt.Assert(isIncrements(read("program", "ab++ "+open+s+end+" cd++"), "ab", "cd"), "long-comment")
	default:
		b := strings.Repeat("\n\t  ", n/4) + vt.StringOf("blank", 0, 1, " \t\n")
		vt.Assert(isIncrements(read("program", "ab++"+b+"cd"+b+"++"+b+"ef++"), "ab", "cd", "ef"), "long-blanks")
	}
	vt.Reach("read")
}
