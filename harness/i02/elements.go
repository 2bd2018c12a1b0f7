package i02

import (
	"github.com/steve-care-software/steve/domain/languages/scripts/base/parsers"
	"github.com/steve-care-software/steve/zz_verif/vt"
)

func (l *language) listValue() tree {
	if l.bool("named") {
		n, s := l.name()
		return tree{el("listValue", tok(n)), false, func(v interface{}) bool {
			x, ok := v.(parsers.ListValue)
			return ok && !x.IsAssignables() && x.IsVariableName() && x.VariableName() == s
		}}
	}
	open, end := rule("OPEN_SQUARE_BRACKET", "["), rule("CLOSE_SQUARE_BRACKET", "]")
	n := l.choose("amount", 3)
	if n == 0 {
		a := el("listAssignable", open, end)
		return tree{el("listValue", kid{"listAssignable", "[]", a}), false, func(v interface{}) bool {
			x, ok := v.(parsers.ListValue)
			return ok && x.IsAssignables() && !x.IsVariableName() && x.Assignables().IsEmpty() && len(x.Assignables().All()) == 0
		}}
	}
	list := []tree{}
	for i := 0; i < n; i++ {
		list = append(list, l.valueAssignable())
	}
	as := l.assignables(list)
	a := el("listAssignable", open, tok(as), end)
	return tree{el("listValue", kid{"listAssignable", a.Content(), a}), as.bad, func(v interface{}) bool {
		x, ok := v.(parsers.ListValue)
		return ok && x.IsAssignables() && !x.IsVariableName() && as.is(x.Assignables())
	}}
}

// several is a token made of a first element and others after commas.
func several(name, comma string, list []tree, rest ...kid) ([]kid, bool) {
	kids := []kid{tok(list[0])}
	bad := list[0].bad
	for _, t := range list[1:] {
		c := el(comma, rule("COMMA", ","), tok(t))
		kids = append(kids, kid{comma, c.Content(), c})
		bad = bad || t.bad
	}
	return append(kids, rest...), bad
}

func (l *language) assignables(list []tree) tree {
	kids, bad := several("assignables", "commaAssignable", list)
	return tree{el("assignables", kids...), bad, func(v interface{}) bool {
		x, ok := v.(parsers.Assignables)
		if !ok || x.IsEmpty() || len(x.All()) != len(list) {
			return false
		}
		for i, t := range list {
			if !t.is(x.All()[i]) {
				return false
			}
		}
		return true
	}}
}

// valueAssignable is an assignable that is a text.
func (l *language) valueAssignable() tree { return l.singleAssignable(l.valueSingle()) }

func (l *language) singleAssignable(s tree) tree {
	return tree{el("assignable", tok(s)), s.bad, func(v interface{}) bool {
		x, ok := v.(parsers.Assignable)
		return ok && x.IsSingle() && !x.IsList() && s.is(x.Single())
	}}
}

func isSingle(v interface{}, kind int) (parsers.SingleAssignable, bool) {
	x, ok := v.(parsers.SingleAssignable)
	if !ok || x.IsDeclarableValue() != (kind == 0) || x.IsOperation() != (kind == 1) || x.IsExtract() != (kind == 2) || x.IsListFetchElement() != (kind == 3) {
		return nil, false
	}
	return x, true
}

func (l *language) valueSingle() tree {
	t := l.simple()
	return tree{el("singleAssignable", tok(t)), t.bad, func(v interface{}) bool {
		x, ok := isSingle(v, 0)
		return ok && t.is(x.DeclarableValue())
	}}
}

func (l *language) single() tree {
	switch l.choose("single", 4) {
	case 0:
		t := l.declarable()
		return tree{el("singleAssignable", tok(t)), t.bad, func(v interface{}) bool {
			x, ok := isSingle(v, 0)
			return ok && t.is(x.DeclarableValue())
		}}
	case 1:
		t := l.plain()
		return tree{el("singleAssignable", tok(t)), t.bad, func(v interface{}) bool {
			x, ok := isSingle(v, 1)
			return ok && t.is(x.Operation())
		}}
	case 2:
		t := l.namedTotal()
		dots := rule("DOT", "...")
		kids := []kid{tok(t), dots}
		if l.bool("parentheses") {
			kids = []kid{rule("OPEN_PARENTHESIS", "("), tok(t), rule("CLOSE_PARENTHESIS", ")"), dots}
		}
		e := el("listAssignableToAssignables", kids...)
		return tree{el("singleAssignable", kid{"listAssignableToAssignables", e.Content(), e}), t.bad, func(v interface{}) bool {
			x, ok := isSingle(v, 2)
			return ok && t.is(x.Extract())
		}}
	}
	list := l.totalValue()
	i := l.index()
	fetcher := el("listElementFetcher", rule("OPEN_SQUARE_BRACKET", "["), tok(i), rule("CLOSE_SQUARE_BRACKET", "]"))
	f := el("listFetchElement", tok(list), kid{"listElementFetcher", fetcher.Content(), fetcher})
	return tree{el("singleAssignable", kid{"listFetchElement", f.Content(), f}), list.bad || i.bad, func(v interface{}) bool {
		x, ok := isSingle(v, 3)
		return ok && list.is(x.ListFetchElement().List()) && i.is(x.ListFetchElement().Index())
	}}
}

func isTotal(v interface{}, kind int) (parsers.TotalListAssignable, bool) {
	x, ok := v.(parsers.TotalListAssignable)
	if !ok || x.IsListValue() != (kind == 0) || x.IsSlice() != (kind == 1) || x.IsAppend() != (kind == 2) {
		return nil, false
	}
	return x, true
}

// namedList is the list of a variable.
func (l *language) namedList() tree {
	n, s := l.name()
	return tree{el("listValue", tok(n)), false, func(v interface{}) bool {
		x, ok := v.(parsers.ListValue)
		return ok && !x.IsAssignables() && x.IsVariableName() && x.VariableName() == s
	}}
}

func (l *language) namedTotal() tree {
	t := l.namedList()
	return tree{el("totalListAssignable", tok(t)), false, func(v interface{}) bool {
		x, ok := isTotal(v, 0)
		return ok && t.is(x.ListValue())
	}}
}

func (l *language) total(deep bool) tree {
	switch l.choose("total", 3) {
	case 0:
		t := l.listValue()
		vt.Assume(Script == nil || t.root.Content()[0] == '[') // a name alone is an operation
		return tree{el("totalListAssignable", tok(t)), t.bad, func(v interface{}) bool {
			x, ok := isTotal(v, 0)
			return ok && t.is(x.ListValue())
		}}
	case 1:
		t := l.namedList()
		if deep {
			t = l.listValue()
		}
		d := l.delimiter()
		s := el("slice", tok(t), rule("OPEN_SQUARE_BRACKET", "["), tok(d), rule("CLOSE_SQUARE_BRACKET", "]"))
		return tree{el("totalListAssignable", kid{"slice", s.Content(), s}), t.bad || d.bad, func(v interface{}) bool {
			x, ok := isTotal(v, 1)
			return ok && t.is(x.Slice().List()) && d.is(x.Slice().Delimiter())
		}}
	}
	t := l.namedList()
	if deep {
		t = l.listValue()
	}
	s := l.valueSingle()
	if deep {
		s = l.single()
	}
	a := el("listAppend", rule("APPEND", "append"), tok(t), rule("COMMA", ","), tok(s))
	return tree{el("totalListAssignable", kid{"listAppend", a.Content(), a}), t.bad || s.bad, func(v interface{}) bool {
		x, ok := isTotal(v, 2)
		return ok && t.is(x.Append().List()) && s.is(x.Append().Assignable())
	}}
}

func (l *language) totalValue() tree {
	if Script != nil || l.bool("variable") {
		n, s := l.name()
		return tree{el("totalListValue", tok(n)), false, func(v interface{}) bool {
			x, ok := v.(parsers.TotalListValue)
			return ok && !x.IsAssignable() && x.IsVariableName() && x.VariableName() == s
		}}
	}
	t := l.namedTotal()
	return tree{el("totalListValue", tok(t)), t.bad, func(v interface{}) bool {
		x, ok := v.(parsers.TotalListValue)
		return ok && x.IsAssignable() && !x.IsVariableName() && t.is(x.Assignable())
	}}
}

func (l *language) assigneeName() tree {
	if l.bool("skip") {
		return tree{el("assigneeName", rule("UNDERSCORE", "_")), false, func(v interface{}) bool {
			x, ok := v.(parsers.AssigneeName)
			return ok && x.IsSkip() && !x.IsVariable()
		}}
	}
	n, s := l.name()
	return tree{el("assigneeName", tok(n)), false, func(v interface{}) bool {
		x, ok := v.(parsers.AssigneeName)
		return ok && !x.IsSkip() && x.IsVariable() && x.Variable() == s
	}}
}

func (l *language) assigneeNames(n int) (tree, []tree) {
	list := []tree{}
	for i := 0; i < n; i++ {
		list = append(list, l.assigneeName())
	}
	kids, _ := several("assigneeNames", "commaAssigneeName", list)
	return tree{el("assigneeNames", kids...), false, func(v interface{}) bool {
		x, ok := v.(parsers.AssigneeNames)
		if !ok || len(x.All()) != len(list) {
			return false
		}
		for i, t := range list {
			if !t.is(x.All()[i]) {
				return false
			}
		}
		return true
	}}, list
}

func (l *language) assigneeFirst() tree {
	if l.bool("declared") {
		d := l.declaration(0)
		return tree{el("assigneeNameFirst", tok(d)), false, func(v interface{}) bool {
			x, ok := v.(parsers.AssigneeNameFirst)
			return ok && x.IsDeclaration() && !x.IsAssigneeName() && d.is(x.Declaration())
		}}
	}
	n := l.assigneeName()
	return tree{el("assigneeNameFirst", tok(n)), false, func(v interface{}) bool {
		x, ok := v.(parsers.AssigneeNameFirst)
		return ok && !x.IsDeclaration() && x.IsAssigneeName() && n.is(x.AssigneeName())
	}}
}

func (l *language) assignee(n int) tree {
	if l.bool("existing") {
		names, _ := l.assigneeNames(n)
		return tree{el("assignee", tok(names), rule("EQUAL", "=")), false, func(v interface{}) bool {
			x, ok := v.(parsers.Assignee)
			return ok && !x.IsFirst() && x.IsName() && names.is(x.Name())
		}}
	}
	list := []tree{}
	for i := 0; i < n; i++ {
		list = append(list, l.assigneeFirst())
	}
	kids, _ := several("assigneeNameFirsts", "commaAssigneeFirst", list)
	firsts := el("assigneeNameFirsts", kids...)
	return tree{el("assignee", kid{"assigneeNameFirsts", firsts.Content(), firsts}, rule("COLON", ":"), rule("EQUAL", "=")), false, func(v interface{}) bool {
		x, ok := v.(parsers.Assignee)
		if !ok || !x.IsFirst() || x.IsName() || len(x.First().All()) != len(list) {
			return false
		}
		for i, t := range list {
			if !t.is(x.First().All()[i]) {
				return false
			}
		}
		return true
	}}
}

func (l *language) assignment(n, m int) tree {
	a := l.assignee(n)
	list := []tree{}
	for i := 0; i < m; i++ {
		list = append(list, l.valueAssignable())
	}
	as := l.assignables(list)
	return tree{el("assignment", tok(a), tok(as)), as.bad, func(v interface{}) bool {
		x, ok := v.(parsers.Assignment)
		return ok && a.is(x.Assignee()) && as.is(x.Assignables())
	}}
}

// instruction kinds.
const (
	assignments = iota
	declarations
	ifs
	fors
	calls
	directions
	increments
	instructionKinds
)

func isInstruction(v interface{}, kind int) (parsers.Instruction, bool) {
	x, ok := v.(parsers.Instruction)
	if !ok || x.IsAssignment() != (kind == assignments) || x.IsVariableDeclaration() != (kind == declarations) || x.IsIfDeclaration() != (kind == ifs) || x.IsForDeclaration() != (kind == fors) || x.IsFuncCall() != (kind == calls) || x.IsDirection() != (kind == directions) || x.IsIntIncrement() != (kind == increments) {
		return nil, false
	}
	return x, true
}

func (l *language) direction() tree {
	b := l.bool("break")
	r := rule("CONTINUE", "continue")
	if b {
		r = rule("BREAK", "break")
	}
	d := el("direction", r)
	return tree{el("instruction", kid{"direction", d.Content(), d}), false, func(v interface{}) bool {
		x, ok := isInstruction(v, directions)
		return ok && x.Direction().IsBreak() == b && x.Direction().IsContinue() == !b
	}}
}

// body is the instructions between brackets, if any.
func (l *language) body() ([]kid, func(has bool, ins parsers.Instructions) bool) {
	open, end := rule("OPEN_BRACKET", "{"), rule("CLOSE_BRACKET", "}")
	n := l.choose("body", 3)
	if n == 0 {
		return []kid{open, end}, func(has bool, ins parsers.Instructions) bool { return !has }
	}
	t := l.instructions(n)
	return []kid{open, tok(t), end}, func(has bool, ins parsers.Instructions) bool { return has && t.is(ins) }
}

func (l *language) instructions(n int) tree {
	list := []tree{}
	for i := 0; i < n; i++ {
		list = append(list, l.direction())
	}
	return together(list)
}

func together(list []tree) tree {
	kids, bad := []kid{}, false
	for _, t := range list {
		kids = append(kids, tok(t))
		bad = bad || t.bad
	}
	return tree{el("instructions", kids...), bad, func(v interface{}) bool {
		x, ok := v.(parsers.Instructions)
		if !ok || len(x.All()) != len(list) {
			return false
		}
		for i, t := range list {
			if !t.is(x.All()[i]) {
				return false
			}
		}
		return true
	}}
}

func (l *language) forStatement(depth int) tree {
	if depth > 0 && l.bool("parentheses") {
		t := l.forStatement(depth - 1)
		return tree{el("forStatement", rule("OPEN_PARENTHESIS", "("), tok(t), rule("CLOSE_PARENTHESIS", ")")), t.bad, t.is}
	}
	names, list := l.assigneeNames(2)
	over := l.totalValue()
	return tree{el("forStatement", tok(names), rule("COLON", ":"), rule("EQUAL", "="), tok(over)), over.bad, func(v interface{}) bool {
		x, ok := v.(parsers.ForStatement)
		return ok && list[0].is(x.Index()) && list[1].is(x.Value()) && over.is(x.Iterable())
	}}
}

func (l *language) instruction(kind int) tree {
	switch kind {
	case assignments:
		t := l.assignment(1, 1)
		return tree{el("instruction", tok(t)), t.bad, func(v interface{}) bool {
			x, ok := isInstruction(v, assignments)
			return ok && t.is(x.Assignment())
		}}
	case declarations:
		t := l.declaration(0)
		return tree{el("instruction", tok(t)), t.bad, func(v interface{}) bool {
			x, ok := isInstruction(v, declarations)
			return ok && t.is(x.VariableDeclaration())
		}}
	case ifs:
		c := l.plain()
		op := el("ifOperation", rule("IF", "if"), tok(c))
		kids, body := l.body()
		d := el("ifDeclaration", append([]kid{{"ifOperation", op.Content(), op}}, kids...)...)
		return tree{el("instruction", kid{"ifDeclaration", d.Content(), d}), c.bad, func(v interface{}) bool {
			x, ok := isInstruction(v, ifs)
			return ok && c.is(x.IfDeclaration().Condition()) && body(x.IfDeclaration().HasInstructions(), x.IfDeclaration().Instructions())
		}}
	case fors:
		s := l.forStatement(1)
		kids, body := l.body()
		d := el("forDeclaration", append([]kid{rule("FOR", "for"), tok(s)}, kids...)...)
		return tree{el("instruction", kid{"forDeclaration", d.Content(), d}), s.bad, func(v interface{}) bool {
			x, ok := isInstruction(v, fors)
			return ok && s.is(x.ForDeclaration().Statement()) && body(x.ForDeclaration().HasInstructions(), x.ForDeclaration().Instructions())
		}}
	case calls:
		a := l.valueAssignable()
		log := el("logFuncCall", rule("LOG_FUNC", "log"), rule("OPEN_PARENTHESIS", "("), tok(a), rule("CLOSE_PARENTHESIS", ")"))
		c := el("voidFuncCalls", kid{"logFuncCall", log.Content(), log})
		return tree{el("instruction", kid{"voidFuncCalls", c.Content(), c}), a.bad, func(v interface{}) bool {
			x, ok := isInstruction(v, calls)
			return ok && x.FuncCall().IsLog() && a.is(x.FuncCall().Log())
		}}
	case directions:
		return l.direction()
	}
	n, s := l.name()
	plus := l.bool("plus")
	sign, step := rule("MINUS", "-"), -1
	if plus {
		sign, step = rule("PLUS", "+"), 1
	}
	value := el("intIncrementValue", sign, sign)
	i := el("intIncrement", tok(n), kid{"intIncrementValue", value.Content(), value})
	return tree{el("instruction", kid{"intIncrement", i.Content(), i}), false, func(v interface{}) bool {
		x, ok := isInstruction(v, increments)
		if !ok || x.IntIncrement().VariableName() != s {
			return false
		}
		e, ok := isValue(x.IntIncrement().Increment(), parsers.TypeIntegerFlag)
		d, isInt := e.(int)
		return ok && isInt && d == step
	}}
}

func (l *language) header() tree {
	d := l.declaration(0)
	key := "some_key"
	if Script == nil && !l.quiet {
		key = vt.StringOf(l.id("key"), 1, 2, "k_")
	}
	input, optional := l.bool("input"), l.bool("optional")
	arrow := el("inputOutput", rule("LEFT_ARROW", "<-"))
	if input {
		arrow = el("inputOutput", rule("RIGHT_ARROW", "->"))
	}
	kids := []kid{{"inputOutput", arrow.Content(), arrow}, tok(d), rule("COLON", ":"), rule("KEYNAME_PATTERN", key)}
	if optional {
		kids = append(kids, rule("QUESTION_MARK", "?"))
	}
	return tree{el("headerVariable", kids...), d.bad, func(v interface{}) bool {
		x, ok := v.(parsers.HeaderVariable)
		return ok && x.IsInput() == input && x.IsMandatory() == !optional && x.Keyname() == key && d.is(x.Declaration())
	}}
}

func (l *language) program(kinds []int, headers int) tree {
	list := []tree{}
	for _, k := range kinds {
		list = append(list, l.instruction(k))
	}
	vars := []tree{}
	for i := 0; i < headers; i++ {
		vars = append(vars, l.header())
	}
	return l.programOf(list, vars)
}

// programOf is the program of these instructions and variables.
func (l *language) programOf(list, vars []tree) tree {
	ins := together(list)
	if len(vars) == 0 {
		return tree{el("program", tok(ins)), ins.bad, func(v interface{}) bool {
			x, ok := v.(parsers.Program)
			return ok && !x.HasVariables() && ins.is(x.Instructions())
		}}
	}
	kids := []kid{}
	for i := range vars {
		kids = append(kids, tok(vars[i]))
	}
	h := el("headerVariables", kids...)
	return tree{el("program", kid{"headerVariables", h.Content(), h}, tok(ins)), ins.bad, func(v interface{}) bool {
		x, ok := v.(parsers.Program)
		if !ok || !x.HasVariables() || !ins.is(x.Instructions()) || len(x.Variables().All()) != len(vars) {
			return false
		}
		for i, t := range vars {
			if !t.is(x.Variables().All()[i]) {
				return false
			}
		}
		return true
	}}
}

// Quick: the quick tier has the larger bounds too.
const Quick = 1
