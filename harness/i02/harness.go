package i02

import (
	"github.com/steve-care-software/steve/domain/languages/scripts/base/parsers"
	"github.com/steve-care-software/steve/zz_verif/vt"
)

func newLanguage(digits int) *language {
	if Script == nil {
		vt.MapOrder(vt.Choose("order", 2))
	}
	return &language{bits: 64, digits: digits}
}

// HInteger: integers are worth what is written, and refused when they do not fit the bits of the language.
func HInteger() {
	l := newLanguage(4)
	l.bits = []uint{8, 16, 32, 64}[vt.Choose("bits", 4)]
	t := l.integer()
	switch vt.Choose("within", 3) {
	case 1:
		t = wrap("computableValue", t)
	case 2:
		t = wrap("declarableValue", wrap("computableValue", t))
	}
	run(l.bits, t)
}

// HLargest: the largest numbers of each number of bits.
func HLargest() {
	l := newLanguage(1)
	limits := []struct {
		bits uint
		max  string // the largest, but for its last digit
		last byte
		neg  byte // the last digit of the lowest
	}{{16, "6553", '5', 0}, {16, "3276", 0, '8'}, {32, "429496729", '5', 0}, {32, "214748364", 0, '8'}, {64, "1844674407370955161", '5', 0}, {64, "922337203685477580", 0, '8'}}
	m := limits[vt.Choose("limit", len(limits))]
	l.bits = m.bits
	last := vt.StringOf("last", 1, 1, "0123456789")
	if m.neg != 0 {
		t := tree{el("intValue", rule("MINUS", "-"), rule("INT_PATTERN", m.max+last)), last[0] > m.neg, func(v interface{}) bool {
			e, ok := isValue(v, parsers.TypeIntegerFlag)
			i, isInt := e.(int)
			return ok && isInt && i == -int(worth(m.max+last))
		}}
		run(l.bits, t)
		return
	}
	t := tree{el("intValue", rule("INT_PATTERN", m.max+last)), last[0] > m.last, func(v interface{}) bool {
		e, ok := isValue(v, parsers.TypeIntegerFlag|parsers.TypeUnsignedFlag)
		i, isUint := e.(uint)
		return ok && isUint && uint64(i) == worth(m.max+last)
	}}
	run(l.bits, t)
}

func worth(s string) uint64 {
	n := uint64(0)
	for i := 0; i < len(s); i++ {
		n = n*10 + uint64(s[i]-'0')
	}
	return n
}

// HValue: values are of the type written.
func HValue() {
	l := newLanguage(2)
	switch vt.Choose("value", 4) {
	case 0:
		run(64, l.float())
	case 1:
		run(64, l.declarable())
	case 2:
		b, _ := l.boolean()
		run(64, b)
	case 3:
		run(64, l.text())
	}
}

// HDeclaration: declarations name their variable and its type, lists to any depth.
func HDeclaration() {
	l := newLanguage(1)
	depth := 2
	if vt.Thorough() {
		depth = 4
	}
	run(64, l.declaration(depth))
}

// HDeclarations: several declarations, in their order.
func HDeclarations() {
	l := newLanguage(1)
	list := []tree{}
	n := 1 + vt.Choose("amount", 2)
	for i := 0; i < n; i++ {
		list = append(list, l.declaration(0))
	}
	kids, _ := several("variableDeclarations", "commaVariableDeclaration", list)
	run(64, tree{el("variableDeclarations", kids...), false, func(v interface{}) bool {
		x, ok := v.(parsers.VariableDeclarations)
		if !ok || len(x.All()) != len(list) {
			return false
		}
		for i, t := range list {
			if !t.is(x.All()[i]) {
				return false
			}
		}
		return true
	}})
}

// HOperator: each operator has its flags.
func HOperator() {
	l := newLanguage(1)
	o, _ := l.operator()
	run(64, o)
}

// HElement: the elements of operations.
func HElement() {
	l := newLanguage(1)
	run(64, l.element(1))
}

// HOperation: operations, in parentheses, of calls, with suffixes.
func HOperation() {
	l := newLanguage(1)
	l.plainElements = true
	depth := 2
	if Script != nil {
		depth = Script.Depth
	}
	run(64, l.operation(depth))
}

// HSuffix: what follows the operator belongs to the suffix.
func HSuffix() {
	l := newLanguage(1)
	e := l.element
	if Script != nil {
		e = func(int) tree { return l.variable() }
	}
	run(64, l.suffix(e(0)))
}

// HIndex: indexes are numbers or variables.
func HIndex() {
	l := newLanguage(3)
	if vt.Bool("small") {
		l.bits = 8
	}
	run(l.bits, l.index())
}

// HDelimiter: a slice starts at its first index, and has an amount when there are two.
func HDelimiter() {
	l := newLanguage(1)
	run(64, l.delimiter())
}

// HList: lists, slices and appends.
func HList() {
	l := newLanguage(1)
	run(64, l.total(vt.Thorough()))
}

// HTotalValue: lists of variables or of values.
func HTotalValue() {
	l := newLanguage(1)
	run(64, l.totalValue())
}

// HSingle: single assignables.
func HSingle() {
	l := newLanguage(1)
	run(64, l.single())
}

// HAssignable: an assignable is a list or not.
func HAssignable() {
	l := newLanguage(1)
	if vt.Bool("single") {
		run(64, l.singleAssignable(l.single()))
		return
	}
	t := l.total(false)
	run(64, tree{el("assignable", tok(t)), t.bad, func(v interface{}) bool {
		x, ok := v.(parsers.Assignable)
		return ok && x.IsList() && !x.IsSingle() && t.is(x.List())
	}})
}

// HAssignment: assignees and assignables, in their order.
func HAssignment() {
	l := newLanguage(1)
	run(64, l.assignment(1+vt.Choose("assignees", 2), 1+vt.Choose("assignables", 2)))
}

// HFor: loops.
func HFor() {
	l := newLanguage(1)
	run(64, l.instruction(fors))
}

// HInstruction: each kind of instruction.
func HInstruction() {
	l := newLanguage(1)
	k := vt.Choose("kind", instructionKinds)
	vt.Assume(k != fors) // HFor
	run(64, l.instruction(k))
}

// HProgram: the instructions in their order, and the variables of the header.
func HProgram() {
	l := newLanguage(1)
	kinds := []int{}
	simple := []int{directions, increments, declarations}
	n := 1 + vt.Choose("instructions", 2)
	for i := 0; i < n; i++ {
		kinds = append(kinds, simple[vt.Choose(l.id("kind"), 3)])
	}
	headers := 0
	if Script == nil {
		headers = vt.Choose("headers", 2)
	}
	run(64, l.program(kinds, headers))
}

// HHeaders: the variables of the header.
func HHeaders() {
	l := newLanguage(1)
	run(64, l.program([]int{directions}, 1+vt.Choose("headers", 2)))
}

// HLong: long lists, long names, deep nesting and programs of many instructions.
func HLong() {
	l := newLanguage(1)
	sizes := []int{5, 12}
	if Script != nil {
		sizes = []int{5, 8}
	}
	n := sizes[vt.Choose("size", 2)]
	at := vt.Choose("at", 2) * (n - 1)
	list := func(make func() tree) []tree {
		out := []tree{}
		for i := 0; i < n; i++ {
			l.quiet = i != at
			out = append(out, make())
		}
		return out
	}
	switch vt.Choose("what", 5) {
	case 0:
		ds := list(func() tree { return l.declaration(0) })
		kids, bad := several("variableDeclarations", "commaVariableDeclaration", ds)
		if Script == nil {
			run(64, tree{el("variableDeclarations", kids...), bad, func(v interface{}) bool {
				x, ok := v.(parsers.VariableDeclarations)
				if !ok || len(x.All()) != n {
					return false
				}
				for i, d := range ds {
					if !d.is(x.All()[i]) {
						return false
					}
				}
				return true
			}})
		}
	case 1:
		l.quiet = true
		a := l.assignee(n)
		as := l.assignables(list(l.valueAssignable))
		run(64, tree{el("assignment", tok(a), tok(as)), as.bad, func(v interface{}) bool {
			x, ok := v.(parsers.Assignment)
			return ok && a.is(x.Assignee()) && as.is(x.Assignables())
		}})
	case 2:
		k := 0
		run(64, l.programOf(list(func() tree { k++; return l.instruction([]int{directions, increments, declarations}[k%3]) }), nil))
	case 3:
		vars := list(l.header)
		l.quiet = true
		run(64, l.programOf([]tree{l.instruction(directions)}, vars))
	default:
		l.quiet = true
		run(64, l.declaration(n))
	}
}
