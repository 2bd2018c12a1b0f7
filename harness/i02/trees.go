// Package i02 checks what the events of the base language make of the trees of its grammar.
package i02

import (
	"strconv"
	"strings"

	application "github.com/steve-care-software/steve/applications/languages/parsers"
	"github.com/steve-care-software/steve/domain/languages/lexers/roots"
	"github.com/steve-care-software/steve/domain/languages/scripts/base/parsers"
	"github.com/steve-care-software/steve/zz_verif/vt"
)

// tree is an element of the language: its tree, and what must be made of it.
type tree struct {
	root roots.Root
	bad  bool // a number in it does not fit: it must be refused
	is   func(v interface{}) bool
}

func must(err error, what string) {
	vt.Assert(err == nil, what)
	vt.Assume(err == nil)
}

// kid is an element of a token: a rule, or a token with its tree.
type kid struct {
	name    string
	content string
	root    roots.Root
}

func rule(name, content string) kid { return kid{name, content, nil} }

func tok(t tree) kid { return kid{t.root.Name(), t.root.Content(), t.root} }

// el is the tree of a token: elements of the same name are together, in their order.
func el(name string, kids ...kid) roots.Root {
	space := ""
	if Script != nil && name != "variableName" && name != "stringValue" {
		space = Script.Space
	}
	names := []string{}
	lists := map[string][]roots.Container{}
	content := ""
	for i, k := range kids {
		if i > 0 {
			content += space
		}
		b := roots.NewContainerBuilder().Create().WithName(k.name).WithContent(k.content)
		if k.root != nil {
			b.WithRoot(k.root)
		}
		c, err := b.Now()
		must(err, "container-built")
		if len(lists[k.name]) == 0 {
			names = append(names, k.name)
		}
		lists[k.name] = append(lists[k.name], c)
		content += k.content
	}
	mp := map[string]roots.Node{}
	for _, n := range names {
		cs, err := roots.NewContainersBuilder().Create().WithList(lists[n]).Now()
		must(err, "containers-built")
		nd, err := roots.NewNodeBuilder().Create().WithName(n).WithContainers(cs).Now()
		must(err, "node-built")
		mp[n] = nd
	}
	nodes, err := roots.NewNodesBuilder().Create().WithNodes(mp).Now()
	must(err, "nodes-built")
	r, err := roots.NewBuilder().Create().WithName(name).WithContent(content).WithNodes(nodes).Now()
	must(err, "root-built")
	return r
}

// wrap is a token made of one element, of which the value is the same.
func wrap(name string, t tree, around ...kid) tree {
	kids := append([]kid{tok(t)}, around...)
	return tree{el(name, kids...), t.bad, t.is}
}

// run makes the element of the tree, and checks it.
func run(bits uint, t tree) {
	if Script != nil {
		Script.Run(bits, t.root.Name(), t.root.Content(), t.bad, t.is)
		vt.Reach("made")
		return
	}
	// what was made before changes nothing
	app, evs := application.NewApplication(), parsers.NewEvents(bits)
	l := &language{bits: bits, digits: 1, quiet: true}
	before := l.programOf([]tree{l.instruction(assignments), l.instruction(declarations)}, []tree{l.header()})
	w, err := app.Execute(before.root, evs)
	vt.Assert(err == nil && before.is(w), "program-before-accepted")
	v, err := app.Execute(t.root, evs)
	if t.bad {
		vt.Assert(err != nil, "number-that-does-not-fit-refused")
		return
	}
	vt.Assert(err == nil, "accepted")
	vt.Assume(err == nil)
	vt.Assert(t.is(v), "what-was-written")
	vt.Reach("made")
}

// Script is set to have what is generated given as a text; the names and numbers in it are then fixed.
var Script *ScriptMode

// ScriptMode is what to do with the texts.
type ScriptMode struct {
	Space string // between the elements
	Depth int    // of operations
	Types bool   // types are arbitrary
	Run   func(bits uint, root, script string, bad bool, is func(v interface{}) bool)
}

var words = []string{"ab", "cD", "efG", "hi", "jK", "lm"}

func (l *language) word() string {
	l.words++
	w := words[(l.words-1)%len(words)]
	if l.quiet {
		w += string(rune('a'+l.words/len(words)%26)) + strings.Repeat("long", l.words%4*4)
	}
	return w
}

// language is a language with integers of this many bits.
type language struct {
	bits   uint
	digits int // the digits of the numbers
	n      int
	words  int

	plainElements bool // the elements of the operations are variables

	quiet bool // what follows is one thing after the other, and not arbitrary
	turn  int
}

func (l *language) bool(name string) bool { return l.choose(name, 2) == 1 }

func (l *language) choose(name string, n int) int {
	if l.quiet {
		l.turn++
		return l.turn % n
	}
	if n == 2 {
		if vt.Bool(l.id(name)) {
			return 1
		}
		return 0
	}
	return vt.Choose(l.id(name), n)
}

func (l *language) id(s string) string {
	l.n++
	return s + string(rune('a'+l.n%26)) + string(rune('a'+l.n/26))
}

func (l *language) name() (tree, string) {
	if Script != nil || l.quiet {
		w := l.word()
		r := el("variableName", rule("FIRST_LETTER", w[:1]), rule("MIN_MAJ_LETTERS", w[1:]))
		return tree{r, false, func(v interface{}) bool { s, ok := v.(string); return ok && s == w }}, w
	}
	first := vt.StringOf(l.id("first"), 1, 1, "az")
	rest := vt.StringOf(l.id("rest"), 1, 1, "bYz")
	r := el("variableName", rule("FIRST_LETTER", first), rule("MIN_MAJ_LETTERS", rest))
	return tree{r, false, func(v interface{}) bool { s, ok := v.(string); return ok && s == first+rest }}, first + rest
}

// number gives digits and what they are worth.
func (l *language) number() (string, uint64) {
	s := "12"
	if l.quiet {
		s = strconv.Itoa(l.turn * l.turn)
	} else if Script == nil {
		s = vt.StringOf(l.id("digits"), 1, l.digits, "0123456789")
	}
	n := uint64(0)
	for i := 0; i < len(s); i++ {
		n = n*10 + uint64(s[i]-'0')
	}
	return s, n
}

func isValue(v interface{}, flag uint8) (interface{}, bool) {
	val, ok := v.(parsers.Value)
	if !ok || val.Type().Flag() != flag || val.Type().Dept() != 0 {
		return nil, false
	}
	return val.Element(), true
}

func (l *language) integer() tree {
	s, n := l.number()
	if l.bool("negative") {
		limit := uint64(1) << (l.bits - 1)
		return tree{el("intValue", rule("MINUS", "-"), rule("INT_PATTERN", s)), n > limit, func(v interface{}) bool {
			e, ok := isValue(v, parsers.TypeIntegerFlag)
			i, isInt := e.(int)
			return ok && isInt && i == -int(n)
		}}
	}
	bad := l.bits < 64 && n >= uint64(1)<<l.bits
	return tree{el("intValue", rule("INT_PATTERN", s)), bad, func(v interface{}) bool {
		e, ok := isValue(v, parsers.TypeIntegerFlag|parsers.TypeUnsignedFlag)
		i, isUint := e.(uint)
		return ok && isUint && uint64(i) == n
	}}
}

var floats = []struct {
	whole, part string
	value       float64
}{{"0", "0", 0}, {"1", "5", 1.5}, {"12", "25", 12.25}, {"3", "05", 3.05}, {"10", "50", 10.5}}

func (l *language) float() tree {
	f := floats[l.choose("float", len(floats))]
	kids := []kid{rule("INT_PATTERN", f.whole), rule("DOT", "."), rule("INT_PATTERN", f.part)}
	value := f.value
	if l.bool("negative") {
		kids = append([]kid{rule("MINUS", "-")}, kids...)
		value = -value
	}
	return tree{el("floatValue", kids...), false, func(v interface{}) bool {
		e, ok := isValue(v, parsers.TypeFloatFlag)
		x, isFloat := e.(float64)
		return ok && isFloat && x == value
	}}
}

func (l *language) boolean() (tree, bool) {
	b := l.bool("bool")
	k := rule("FALSE", "false")
	if b {
		k = rule("TRUE", "true")
	}
	return tree{el("boolValue", k), false, func(v interface{}) bool {
		e, ok := isValue(v, parsers.TypeBoolFlag)
		x, isBool := e.(bool)
		return ok && isBool && x == b
	}}, b
}

func (l *language) text() tree {
	s := "a text"
	if l.quiet {
		s = strings.Repeat(s, l.turn)
	} else if Script == nil {
		s = vt.String(l.id("text"), 1, 2)
	}
	return tree{el("stringValue", rule("QUOTATION", "\""), rule("EVERYTHING_EXCEPT_QUOTATION", s), rule("QUOTATION", "\"")), false, func(v interface{}) bool {
		e, ok := isValue(v, parsers.TypeStringFlag)
		x, isString := e.(string)
		return ok && isString && x == s
	}}
}

func (l *language) computable() tree {
	if l.bool("is-float") {
		return wrap("computableValue", l.float())
	}
	return wrap("computableValue", l.integer())
}

func (l *language) declarable() tree {
	switch l.choose("value", 3) {
	case 0:
		return wrap("declarableValue", l.computable())
	case 1:
		b, _ := l.boolean()
		return wrap("declarableValue", wrap("primitiveValue", b))
	}
	return wrap("declarableValue", wrap("primitiveValue", l.text()))
}

// simple is a value that always fits.
func (l *language) simple() tree { return wrap("declarableValue", wrap("primitiveValue", l.text())) }

var typeRules = []struct {
	token, rule, content string
	flag                 uint8
}{
	{"primitiveType", "BOOL", "bool", parsers.TypeBoolFlag},
	{"primitiveType", "STRING", "string", parsers.TypeStringFlag},
	{"computableType", "FLOAT", "float", parsers.TypeFloatFlag},
	{"computableType", "UINT", "uint", parsers.TypeIntegerFlag | parsers.TypeUnsignedFlag},
	{"computableType", "INT", "int", parsers.TypeIntegerFlag},
}

func (l *language) typ(depth int) tree {
	if depth > 0 && l.bool("list") {
		inner := l.typ(depth - 1)
		list := el("listType", rule("LIST", "list"), rule("LESS", "<"), tok(inner), rule("MORE", ">"))
		return tree{el("declarativeType", kid{"listType", list.Content(), list}), false, func(v interface{}) bool {
			t, ok := v.(parsers.Type)
			return ok && t.Dept() > 0 && inner.is(unlisted{t})
		}}
	}
	k := l.words % len(typeRules)
	if Script == nil || Script.Types || l.quiet {
		k = l.choose("type", len(typeRules))
	}
	r := typeRules[k]
	t := el(r.token, rule(r.rule, r.content))
	return tree{el("declarativeType", kid{r.token, r.content, t}), false, func(v interface{}) bool {
		t, ok := v.(parsers.Type)
		return ok && t.Dept() == 0 && t.Flag() == r.flag
	}}
}

// unlisted is the type of the elements of a list.
type unlisted struct{ parsers.Type }

func (t unlisted) Dept() uint { return t.Type.Dept() - 1 }

func (l *language) declaration(depth int) tree {
	t := l.typ(depth)
	n, _ := l.name()
	return tree{el("variableDeclaration", tok(t), tok(n)), false, func(v interface{}) bool {
		d, ok := v.(parsers.VariableDeclaration)
		return ok && t.is(d.Type()) && n.is(d.Name())
	}}
}

func (l *language) index() tree {
	if l.bool("named") {
		n, s := l.name()
		return tree{el("indexValue", tok(n)), false, func(v interface{}) bool {
			i, ok := v.(parsers.IndexValue)
			return ok && !i.IsValue() && i.IsVariableName() && i.VariableName() == s
		}}
	}
	s, n := l.number()
	return tree{el("indexValue", rule("INT_PATTERN", s)), l.bits < 64 && n >= uint64(1)<<l.bits, func(v interface{}) bool {
		i, ok := v.(parsers.IndexValue)
		if !ok || i.IsVariableName() || !i.IsValue() {
			return false
		}
		e, ok := isValue(i.Value(), parsers.TypeIntegerFlag|parsers.TypeUnsignedFlag)
		u, isUint := e.(uint)
		return ok && isUint && uint64(u) == n
	}}
}

func (l *language) delimiter() tree {
	a := l.index()
	if !l.bool("two") {
		return tree{el("sliceDelimiter", tok(a), rule("COLON", ":")), a.bad, func(v interface{}) bool {
			d, ok := v.(parsers.SliceDelimiter)
			return ok && a.is(d.Index()) && !d.HasAmount()
		}}
	}
	b := l.index()
	return tree{el("sliceDelimiter", tok(a), rule("COLON", ":"), tok(b)), a.bad || b.bad, func(v interface{}) bool {
		d, ok := v.(parsers.SliceDelimiter)
		return ok && a.is(d.Index()) && d.HasAmount() && b.is(d.Amount())
	}}
}

// operators of the language.
var operators = []struct {
	token string
	rules []string
	flag  uint16
}{
	{"operatorArithmetic", []string{"PLUS"}, parsers.OpArithmetic | parsers.OpAriPlus},
	{"operatorArithmetic", []string{"MINUS"}, parsers.OpArithmetic | parsers.OpAriMinus},
	{"operatorArithmetic", []string{"STAR"}, parsers.OpArithmetic | parsers.OpAriMultiply},
	{"operatorArithmetic", []string{"DIV"}, parsers.OpArithmetic | parsers.OpAriDivide},
	{"operatorRelational", []string{"LESS"}, parsers.OpRelational | parsers.OpRelLessThan},
	{"operatorRelational", []string{"LESS", "EQUAL"}, parsers.OpRelational | parsers.OpRelLessThan | parsers.OpRelEqual},
	{"operatorRelational", []string{"MORE"}, parsers.OpRelational | parsers.OpRelGreaterThan},
	{"operatorRelational", []string{"MORE", "EQUAL"}, parsers.OpRelational | parsers.OpRelGreaterThan | parsers.OpRelEqual},
	{"operatorRelational", []string{"EXCLAMATION", "EQUAL"}, parsers.OpRelational | parsers.OpRelNot | parsers.OpRelEqual},
	{"operatorRelational", []string{"EQUALS"}, parsers.OpRelational | parsers.OpRelEqual},
	{"operatorLogical", []string{"AND"}, parsers.OpLogical | parsers.OpLogAnd},
	{"operatorLogical", []string{"PIPE"}, parsers.OpLogical | parsers.OpLogOr},
}

var signs = map[string]string{
	"operatorArithmeticPLUS": "+", "operatorArithmeticMINUS": "-", "operatorArithmeticSTAR": "*", "operatorArithmeticDIV": "/",
	"operatorRelationalLESS": "<", "operatorRelationalMORE": ">", "operatorRelationalEXCLAMATION": "!", "operatorRelationalEQUAL": "=", "operatorRelationalEQUALS": "==",
	"operatorLogicalAND": "&&", "operatorLogicalPIPE": "||",
}

func (l *language) operator() (tree, uint16) {
	o := operators[l.choose("operator", len(operators))]
	kids := []kid{}
	for _, r := range o.rules {
		name := r
		if r == "EQUALS" {
			name = "EQUAL"
		}
		kids = append(kids, rule(name, signs[o.token+r]))
	}
	t := el(o.token, kids...)
	flag := o.flag
	return tree{el("operator", kid{o.token, t.Content(), t}), false, func(v interface{}) bool { f, ok := v.(uint16); return ok && f == flag }}, flag
}

// element is an element of an operation; deeper ones hold operations.
func (l *language) element(depth int) tree {
	n := 3
	if depth > 0 {
		n = 4
	}
	k := 1
	if !l.plainElements {
		k = l.choose("element", n)
	} else if depth > 0 && l.bool("nested") {
		k = 3
	}
	switch k {
	case 0:
		t, b := l.boolean()
		return tree{el("operationElement", tok(t)), false, func(v interface{}) bool {
			e, ok := v.(parsers.OperationElement)
			return ok && e.IsBoolValue() && !e.IsVariableName() && !e.IsComputableValue() && !e.IsOperation() && !e.IsFuncCall() && *e.BoolValue() == b
		}}
	case 1:
		t, s := l.name()
		return tree{el("operationElement", tok(t)), false, func(v interface{}) bool {
			e, ok := v.(parsers.OperationElement)
			return ok && !e.IsBoolValue() && e.IsVariableName() && !e.IsComputableValue() && !e.IsOperation() && !e.IsFuncCall() && *e.VariableName() == s
		}}
	case 2:
		t := l.computable()
		return tree{el("operationElement", tok(t)), t.bad, func(v interface{}) bool {
			e, ok := v.(parsers.OperationElement)
			return ok && !e.IsBoolValue() && !e.IsVariableName() && e.IsComputableValue() && !e.IsOperation() && !e.IsFuncCall() && t.is(e.ComputableValue())
		}}
	}
	t := l.inner(depth - 1)
	return tree{el("operationElement", tok(t)), t.bad, func(v interface{}) bool {
		e, ok := v.(parsers.OperationElement)
		return ok && !e.IsBoolValue() && !e.IsVariableName() && !e.IsComputableValue() && e.IsOperation() && !e.IsFuncCall() && t.is(e.Operation())
	}}
}

// variable is the simplest element.
func (l *language) variable() tree {
	t, s := l.name()
	return tree{el("operationElement", tok(t)), false, func(v interface{}) bool {
		e, ok := v.(parsers.OperationElement)
		return ok && !e.IsBoolValue() && e.IsVariableName() && !e.IsComputableValue() && !e.IsOperation() && !e.IsFuncCall() && *e.VariableName() == s
	}}
}

// plain is the simplest operation.
func (l *language) plain() tree {
	e := l.variable()
	w := el("operationWithSuffix", tok(e))
	return tree{el("operation", kid{"operationWithSuffix", w.Content(), w}), false, func(v interface{}) bool {
		o, ok := v.(parsers.Operation)
		return ok && !o.HasSuffix() && e.is(o.Element())
	}}
}

func (l *language) suffix(e tree) tree {
	o, flag := l.operator()
	return tree{el("operationSuffix", tok(o), tok(e)), e.bad, func(v interface{}) bool {
		s, ok := v.(parsers.OperationSuffix)
		return ok && s.Operator() == flag && e.is(s.Element())
	}}
}

// inner is an operation inside another: of a text, it is one only in parentheses or a call.
func (l *language) inner(depth int) tree {
	if Script == nil {
		return l.operation(depth)
	}
	if depth == 0 {
		return l.grouped(l.plain())
	}
	return l.operationOf(1+l.choose("inner", 2), depth)
}

func (l *language) operation(depth int) tree {
	n := 1
	if depth > 0 {
		n = 4
	}
	t := l.operationOf(l.choose("operation", n), depth)
	if Script == nil {
		return t
	}
	return tree{t.root, t.bad, func(v interface{}) bool { return t.is(alone(v)) }}
}

// alone is the operation that is all there is to an operation.
func alone(v interface{}) interface{} {
	for {
		o, ok := v.(parsers.Operation)
		if !ok || o.HasSuffix() || !o.Element().IsOperation() {
			return v
		}
		v = o.Element().Operation()
	}
}

func (l *language) grouped(t tree) tree {
	is := t.is
	if Script != nil {
		is = func(v interface{}) bool { return t.is(alone(v)) }
	}
	return tree{el("operation", rule("OPEN_PARENTHESIS", "("), tok(t), rule("CLOSE_PARENTHESIS", ")")), t.bad, is}
}

func (l *language) operationOf(kind, depth int) tree {
	switch kind {
	case 1: // in parentheses
		return l.grouped(l.operation(depth - 1))
	case 2: // isNull
		t := l.operation(depth - 1)
		null := el("isNullFuncCall", rule("IS_NULL_FUNC", "isNull"), rule("OPEN_PARENTHESIS", "("), tok(t), rule("CLOSE_PARENTHESIS", ")"))
		calls := el("operationFuncCalls", kid{"isNullFuncCall", null.Content(), null})
		return tree{el("operation", kid{"operationFuncCalls", calls.Content(), calls}), t.bad, func(v interface{}) bool {
			o, ok := v.(parsers.Operation)
			if !ok || o.HasSuffix() || !o.Element().IsFuncCall() || !o.Element().FuncCall().IsNull() {
				return false
			}
			return t.is(o.Element().FuncCall().Null())
		}}
	case 3: // with a suffix
		e := l.element(depth - 1)
		s := l.suffix(l.element(depth - 1))
		w := el("operationWithSuffix", tok(e), tok(s))
		return tree{el("operation", kid{"operationWithSuffix", w.Content(), w}), e.bad || s.bad, func(v interface{}) bool {
			o, ok := v.(parsers.Operation)
			return ok && o.HasSuffix() && e.is(o.Element()) && s.is(o.Suffix())
		}}
	}
	if Script != nil {
		depth = 0 // an operation alone is in parentheses
	}
	e := l.element(depth)
	w := el("operationWithSuffix", tok(e))
	return tree{el("operation", kid{"operationWithSuffix", w.Content(), w}), e.bad, func(v interface{}) bool {
		o, ok := v.(parsers.Operation)
		if ok && !o.HasSuffix() && e.is(o.Element()) {
			return true
		}
		// a lone operation inside is that operation
		return ok && e.is(onlyOperation{o})
	}}
}

// onlyOperation is an element that is an operation.
type onlyOperation struct{ op parsers.Operation }

func (e onlyOperation) IsBoolValue() bool              { return false }
func (e onlyOperation) BoolValue() *bool               { return nil }
func (e onlyOperation) IsVariableName() bool           { return false }
func (e onlyOperation) VariableName() *string          { return nil }
func (e onlyOperation) IsComputableValue() bool        { return false }
func (e onlyOperation) ComputableValue() parsers.Value { return nil }
func (e onlyOperation) IsOperation() bool              { return true }
func (e onlyOperation) Operation() parsers.Operation   { return e.op }
func (e onlyOperation) IsFuncCall() bool               { return false }
func (e onlyOperation) FuncCall() parsers.OperationFuncCall {
	return nil
}
