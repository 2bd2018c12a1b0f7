// Package i01 checks the builders of the elements of the base language.
package i01

import (
	"github.com/steve-care-software/steve/domain/languages/scripts/base/parsers"
	"github.com/steve-care-software/steve/zz_verif/vt"
)

// stand-ins of the elements: only their identity matters to the builders.
type (
	fInstructions struct{ parsers.Instructions }
	fVariables    struct{ parsers.HeaderVariables }
	fVariable     struct{ parsers.HeaderVariable }
	fInstruction  struct{ parsers.Instruction }
	fDeclaration  struct{ parsers.VariableDeclaration }
	fAssignment   struct{ parsers.Assignment }
	fIf           struct{ parsers.IfDeclaration }
	fFor          struct{ parsers.ForDeclaration }
	fVoidCall     struct{ parsers.VoidFuncCall }
	fDirection    struct{ parsers.Direction }
	fIncrement    struct{ parsers.IntIncrement }
	fAssignable   struct{ parsers.Assignable }
	fStatement    struct{ parsers.ForStatement }
	fName         struct{ parsers.AssigneeName }
	fNames        struct{ parsers.AssigneeNames }
	fNameFirst    struct{ parsers.AssigneeNameFirst }
	fNameFirsts   struct{ parsers.AssigneeNameFirsts }
	fTotalList    struct{ parsers.TotalListValue }
	fTotalAssign  struct{ parsers.TotalListAssignable }
	fOperation    struct{ parsers.Operation }
	fElement      struct{ parsers.OperationElement }
	fSuffix       struct{ parsers.OperationSuffix }
	fCall         struct{ parsers.OperationFuncCall }
	fAssignee     struct{ parsers.Assignee }
	fAssignables  struct{ parsers.Assignables }
	fSingle       struct{ parsers.SingleAssignable }
	fValue        struct{ parsers.Value }
	fFetch        struct{ parsers.ListFetchElement }
	fIndex        struct{ parsers.IndexValue }
	fListValue    struct{ parsers.ListValue }
	fSlice        struct{ parsers.Slice }
	fDelimiter    struct{ parsers.SliceDelimiter }
	fAppend       struct{ parsers.Append }
	fType         struct{ parsers.Type }
)

// kind is one of the things an element can be.
type kind struct {
	set  func()
	is   func() bool
	same func() bool
}

// union checks an element that is exactly one of the kinds: after an earlier use of the builder and Create, or without.
func union(kinds []kind, create func(), now func() error) {
	if vt.Bool("used-before") {
		if i := vt.Choose("before", len(kinds)+1); i < len(kinds) {
			kinds[i].set()
		}
		if vt.Bool("built-before") {
			now()
		}
		create()
	}
	i := vt.Choose("kind", len(kinds)+1)
	if i == len(kinds) {
		vt.Assert(now() != nil, "nothing-refused")
		return
	}
	kinds[i].set()
	also := vt.Choose("also", len(kinds)) // another kind, or the same one again
	if also != i {
		kinds[also].set()
	}
	err := now()
	vt.Assert(err == nil, "built")
	vt.Assume(err == nil)
	found := -1
	for j, k := range kinds {
		if k.is() {
			vt.Assert(found < 0 && (j == i || j == also), "exactly-one-kind-given")
			found = j
		}
	}
	vt.Assert(found >= 0, "a-kind-given")
	vt.Assume(found >= 0)
	vt.Assert(kinds[found].same(), "the-element-given")
	vt.Reach("kind")
}

// part is a part of an element; has is nil when the part is mandatory.
type part struct {
	set  func()
	same func() bool
	has  func() bool
}

// parts checks an element made of parts.
func parts(list []part, create func(), now func() error) {
	if vt.Bool("used-before") {
		for _, p := range list {
			if vt.Bool("before") {
				p.set()
			}
		}
		if vt.Bool("built-before") {
			now()
		}
		create()
	}
	given := make([]bool, len(list))
	complete := true
	for i, p := range list {
		given[i] = vt.Bool("given")
		if given[i] {
			p.set()
		} else if p.has == nil {
			complete = false
		}
	}
	err := now()
	vt.Assert((err == nil) == complete, "mandatory-parts")
	if err != nil {
		return
	}
	for i, p := range list {
		if p.has != nil {
			vt.Assert(p.has() == given[i], "optional-part")
		}
		if given[i] {
			vt.Assert(p.same(), "the-part-given")
		}
	}
	vt.Reach("complete")
}

// picks are the elements of a list, some of them the same: up to 3, or many of which one is arbitrary.
func picks() []int {
	n := vt.Choose("elements", 7)
	list := []int{}
	if n > 3 {
		n = []int{5, 11, 33}[n-4]
		for i := 0; i < n; i++ {
			list = append(list, i/2%2)
		}
		list[[]int{0, n / 2, n - 1}[vt.Choose("at", 3)]] = vt.Choose("element", 2)
		return list
	}
	for i := 0; i < n; i++ {
		list = append(list, vt.Choose("element", 2))
	}
	return list
}

// list checks a list: its elements in their order, refused when empty unless allowed.
func list(empty bool, give func(list []int), create func(), now func() error, size func() int, is func(i int, e int) bool) {
	if vt.Bool("used-before") {
		give([]int{1, 0})
		if vt.Bool("built-before") {
			now()
		}
		create()
	}
	l := picks()
	given := len(l) > 0 || vt.Bool("empty-list-given")
	if given {
		give(l)
	}
	err := now()
	vt.Assert((err == nil) == (empty || len(l) > 0), "empty-refused")
	if err != nil {
		return
	}
	vt.Assert(size() == len(l), "every-element")
	for i, e := range l {
		if i < size() {
			vt.Assert(is(i, e), "in-order")
		}
	}
	vt.Reach("listed")
}
