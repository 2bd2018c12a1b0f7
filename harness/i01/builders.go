package i01

import (
	"github.com/steve-care-software/steve/domain/languages/scripts/base/parsers"
	"github.com/steve-care-software/steve/zz_verif/vt"
)

// HInstruction: exactly one kind.
func HInstruction() {
	b := parsers.NewInstructionBuilder()
	var ins parsers.Instruction
	v0 := fAssignment{}
	v1 := fDeclaration{}
	v2 := fIf{}
	v3 := fFor{}
	v4 := fVoidCall{}
	v5 := fDirection{}
	v6 := fIncrement{}
	union([]kind{
		{func() { b.WithAssignment(&v0) }, func() bool { return ins.IsAssignment() }, func() bool { return ins.Assignment() == parsers.Assignment(&v0) }},
		{func() { b.WithVariableDeclaration(&v1) }, func() bool { return ins.IsVariableDeclaration() }, func() bool { return ins.VariableDeclaration() == parsers.VariableDeclaration(&v1) }},
		{func() { b.WithIfDeclaration(&v2) }, func() bool { return ins.IsIfDeclaration() }, func() bool { return ins.IfDeclaration() == parsers.IfDeclaration(&v2) }},
		{func() { b.WithForDeclaration(&v3) }, func() bool { return ins.IsForDeclaration() }, func() bool { return ins.ForDeclaration() == parsers.ForDeclaration(&v3) }},
		{func() { b.WithFuncCall(&v4) }, func() bool { return ins.IsFuncCall() }, func() bool { return ins.FuncCall() == parsers.VoidFuncCall(&v4) }},
		{func() { b.WithDirection(&v5) }, func() bool { return ins.IsDirection() }, func() bool { return ins.Direction() == parsers.Direction(&v5) }},
		{func() { b.WithIntIncrement(&v6) }, func() bool { return ins.IsIntIncrement() }, func() bool { return ins.IntIncrement() == parsers.IntIncrement(&v6) }},
	}, func() { b = b.Create() }, func() (err error) { ins, err = b.Now(); return })
}

// HDirection: exactly one kind.
func HDirection() {
	b := parsers.NewDirectionBuilder()
	var ins parsers.Direction
	union([]kind{
		{func() { b.IsBreak() }, func() bool { return ins.IsBreak() }, func() bool { return true }},
		{func() { b.IsContinue() }, func() bool { return ins.IsContinue() }, func() bool { return true }},
	}, func() { b = b.Create() }, func() (err error) { ins, err = b.Now(); return })
}

// HVoidFuncCall: exactly one kind.
func HVoidFuncCall() {
	b := parsers.NewVoidFuncCallBuilder()
	var ins parsers.VoidFuncCall
	v0 := fAssignable{}
	union([]kind{
		{func() { b.WithLog(&v0) }, func() bool { return ins.IsLog() }, func() bool { return ins.Log() == parsers.Assignable(&v0) }},
	}, func() { b = b.Create() }, func() (err error) { ins, err = b.Now(); return })
}

// HAssignee: exactly one kind.
func HAssignee() {
	b := parsers.NewAssigneeBuilder()
	var ins parsers.Assignee
	v0 := fNameFirsts{}
	v1 := fNames{}
	union([]kind{
		{func() { b.WithFirst(&v0) }, func() bool { return ins.IsFirst() }, func() bool { return ins.First() == parsers.AssigneeNameFirsts(&v0) }},
		{func() { b.WithName(&v1) }, func() bool { return ins.IsName() }, func() bool { return ins.Name() == parsers.AssigneeNames(&v1) }},
	}, func() { b = b.Create() }, func() (err error) { ins, err = b.Now(); return })
}

// HAssigneeNameFirst: exactly one kind.
func HAssigneeNameFirst() {
	b := parsers.NewAssigneeNameFirstBuilder()
	var ins parsers.AssigneeNameFirst
	v0 := fDeclaration{}
	v1 := fName{}
	union([]kind{
		{func() { b.WithDeclaration(&v0) }, func() bool { return ins.IsDeclaration() }, func() bool { return ins.Declaration() == parsers.VariableDeclaration(&v0) }},
		{func() { b.WithAssigneeName(&v1) }, func() bool { return ins.IsAssigneeName() }, func() bool { return ins.AssigneeName() == parsers.AssigneeName(&v1) }},
	}, func() { b = b.Create() }, func() (err error) { ins, err = b.Now(); return })
}

// HAssigneeName: exactly one kind.
func HAssigneeName() {
	b := parsers.NewAssigneeNameBuilder()
	var ins parsers.AssigneeName
	name := vt.String("name", 1, 3)
	union([]kind{
		{func() { b.WithVariable(name) }, func() bool { return ins.IsVariable() }, func() bool { return ins.Variable() == name }},
		{func() { b.IsSkip() }, func() bool { return ins.IsSkip() }, func() bool { return true }},
	}, func() { b = b.Create() }, func() (err error) { ins, err = b.Now(); return })
}

// HAssignable: exactly one kind.
func HAssignable() {
	b := parsers.NewAssignableBuilder()
	var ins parsers.Assignable
	v0 := fTotalAssign{}
	v1 := fSingle{}
	union([]kind{
		{func() { b.WithList(&v0) }, func() bool { return ins.IsList() }, func() bool { return ins.List() == parsers.TotalListAssignable(&v0) }},
		{func() { b.WithSingle(&v1) }, func() bool { return ins.IsSingle() }, func() bool { return ins.Single() == parsers.SingleAssignable(&v1) }},
	}, func() { b = b.Create() }, func() (err error) { ins, err = b.Now(); return })
}

// HSingleAssignable: exactly one kind.
func HSingleAssignable() {
	b := parsers.NewSingleAssignableBuilder()
	var ins parsers.SingleAssignable
	v0 := fValue{}
	v1 := fOperation{}
	v2 := fTotalAssign{}
	v3 := fFetch{}
	union([]kind{
		{func() { b.WithDeclarableValue(&v0) }, func() bool { return ins.IsDeclarableValue() }, func() bool { return ins.DeclarableValue() == parsers.Value(&v0) }},
		{func() { b.WithOperation(&v1) }, func() bool { return ins.IsOperation() }, func() bool { return ins.Operation() == parsers.Operation(&v1) }},
		{func() { b.WithExtract(&v2) }, func() bool { return ins.IsExtract() }, func() bool { return ins.Extract() == parsers.TotalListAssignable(&v2) }},
		{func() { b.WithListFetchElement(&v3) }, func() bool { return ins.IsListFetchElement() }, func() bool { return ins.ListFetchElement() == parsers.ListFetchElement(&v3) }},
	}, func() { b = b.Create() }, func() (err error) { ins, err = b.Now(); return })
}

// HTotalListValue: exactly one kind.
func HTotalListValue() {
	b := parsers.NewTotalListValueBuilder()
	var ins parsers.TotalListValue
	name := vt.String("name", 1, 3)
	v0 := fTotalAssign{}
	union([]kind{
		{func() { b.WithAssignable(&v0) }, func() bool { return ins.IsAssignable() }, func() bool { return ins.Assignable() == parsers.TotalListAssignable(&v0) }},
		{func() { b.WithVariableName(name) }, func() bool { return ins.IsVariableName() }, func() bool { return ins.VariableName() == name }},
	}, func() { b = b.Create() }, func() (err error) { ins, err = b.Now(); return })
}

// HTotalListAssignable: exactly one kind.
func HTotalListAssignable() {
	b := parsers.NewTotalListAssignableBuilder()
	var ins parsers.TotalListAssignable
	v0 := fListValue{}
	v1 := fSlice{}
	v2 := fAppend{}
	union([]kind{
		{func() { b.WithListValue(&v0) }, func() bool { return ins.IsListValue() }, func() bool { return ins.ListValue() == parsers.ListValue(&v0) }},
		{func() { b.WithSlice(&v1) }, func() bool { return ins.IsSlice() }, func() bool { return ins.Slice() == parsers.Slice(&v1) }},
		{func() { b.WithAppend(&v2) }, func() bool { return ins.IsAppend() }, func() bool { return ins.Append() == parsers.Append(&v2) }},
	}, func() { b = b.Create() }, func() (err error) { ins, err = b.Now(); return })
}

// HListValue: exactly one kind.
func HListValue() {
	b := parsers.NewListValueBuilder()
	var ins parsers.ListValue
	name := vt.String("name", 1, 3)
	v0 := fAssignables{}
	union([]kind{
		{func() { b.WithAssignables(&v0) }, func() bool { return ins.IsAssignables() }, func() bool { return ins.Assignables() == parsers.Assignables(&v0) }},
		{func() { b.WithVariableName(name) }, func() bool { return ins.IsVariableName() }, func() bool { return ins.VariableName() == name }},
	}, func() { b = b.Create() }, func() (err error) { ins, err = b.Now(); return })
}

// HIndexValue: exactly one kind.
func HIndexValue() {
	b := parsers.NewIndexValueBuilder()
	var ins parsers.IndexValue
	name := vt.String("name", 1, 3)
	v0 := fValue{}
	union([]kind{
		{func() { b.WithValue(&v0) }, func() bool { return ins.IsValue() }, func() bool { return ins.Value() == parsers.Value(&v0) }},
		{func() { b.WithVariableName(name) }, func() bool { return ins.IsVariableName() }, func() bool { return ins.VariableName() == name }},
	}, func() { b = b.Create() }, func() (err error) { ins, err = b.Now(); return })
}

// HOperationElement: exactly one kind.
func HOperationElement() {
	b := parsers.NewOperatonElementBuilder()
	var ins parsers.OperationElement
	name := vt.String("name", 1, 3)
	flag := vt.Bool("flag")
	v2 := fValue{}
	v3 := fOperation{}
	v4 := fCall{}
	union([]kind{
		{func() { b.WithBoolValue(flag) }, func() bool { return ins.IsBoolValue() }, func() bool { return *ins.BoolValue() == flag }},
		{func() { b.WithVariableName(name) }, func() bool { return ins.IsVariableName() }, func() bool { return *ins.VariableName() == name }},
		{func() { b.WithComputableValue(&v2) }, func() bool { return ins.IsComputableValue() }, func() bool { return ins.ComputableValue() == parsers.Value(&v2) }},
		{func() { b.WithOperation(&v3) }, func() bool { return ins.IsOperation() }, func() bool { return ins.Operation() == parsers.Operation(&v3) }},
		{func() { b.WithFuncCall(&v4) }, func() bool { return ins.IsFuncCall() }, func() bool { return ins.FuncCall() == parsers.OperationFuncCall(&v4) }},
	}, func() { b = b.Create() }, func() (err error) { ins, err = b.Now(); return })
}

// HOperationFuncCall: exactly one kind.
func HOperationFuncCall() {
	b := parsers.NewOperationFuncCallBuilder()
	var ins parsers.OperationFuncCall
	v0 := fOperation{}
	union([]kind{
		{func() { b.WithNull(&v0) }, func() bool { return ins.IsNull() }, func() bool { return ins.Null() == parsers.Operation(&v0) }},
	}, func() { b = b.Create() }, func() (err error) { ins, err = b.Now(); return })
}

// HProgram: made of its parts.
func HProgram() {
	b := parsers.NewProgramBuilder()
	var ins parsers.Program
	v0 := fInstructions{}
	v1 := fVariables{}
	parts([]part{
		{func() { b.WithInstructions(&v0) }, func() bool { return interface{}(ins.Instructions()) == interface{}(&v0) }, nil},
		{func() { b.WithVariables(&v1) }, func() bool { return interface{}(ins.Variables()) == interface{}(&v1) }, func() bool { return ins.HasVariables() }},
	}, func() { b = b.Create() }, func() (err error) { ins, err = b.Now(); return })
}

// HHeaderVariable: made of its parts.
func HHeaderVariable() {
	b := parsers.NewHeaderVariableBuilder()
	var ins parsers.HeaderVariable
	name := vt.String("name", 1, 3)
	v0 := fDeclaration{}
	parts([]part{
		{func() { b.WithDeclaration(&v0) }, func() bool { return interface{}(ins.Declaration()) == interface{}(&v0) }, nil},
		{func() { b.WithKeyname(name) }, func() bool { return ins.Keyname() == name }, nil},
		{func() { b.IsMandatory() }, func() bool { return true }, func() bool { return ins.IsMandatory() }},
		{func() { b.IsInput() }, func() bool { return true }, func() bool { return ins.IsInput() }},
	}, func() { b = b.Create() }, func() (err error) { ins, err = b.Now(); return })
}

// HForDeclaration: made of its parts.
func HForDeclaration() {
	b := parsers.NewForDeclarationBuilder()
	var ins parsers.ForDeclaration
	v0 := fStatement{}
	v1 := fInstructions{}
	parts([]part{
		{func() { b.WithStatement(&v0) }, func() bool { return interface{}(ins.Statement()) == interface{}(&v0) }, nil},
		{func() { b.WithInstructions(&v1) }, func() bool { return interface{}(ins.Instructions()) == interface{}(&v1) }, func() bool { return ins.HasInstructions() }},
	}, func() { b = b.Create() }, func() (err error) { ins, err = b.Now(); return })
}

// HForStatement: made of its parts.
func HForStatement() {
	b := parsers.NewForStatementBuilder()
	var ins parsers.ForStatement
	v0 := fName{}
	v1 := fName{}
	v2 := fTotalList{}
	parts([]part{
		{func() { b.WithIndex(&v0) }, func() bool { return interface{}(ins.Index()) == interface{}(&v0) }, nil},
		{func() { b.WithValue(&v1) }, func() bool { return interface{}(ins.Value()) == interface{}(&v1) }, nil},
		{func() { b.WithIterable(&v2) }, func() bool { return interface{}(ins.Iterable()) == interface{}(&v2) }, nil},
	}, func() { b = b.Create() }, func() (err error) { ins, err = b.Now(); return })
}

// HIfDeclaration: made of its parts.
func HIfDeclaration() {
	b := parsers.NewIfDeclarationBuilder()
	var ins parsers.IfDeclaration
	v0 := fOperation{}
	v1 := fInstructions{}
	parts([]part{
		{func() { b.WithCondition(&v0) }, func() bool { return interface{}(ins.Condition()) == interface{}(&v0) }, nil},
		{func() { b.WithInstructions(&v1) }, func() bool { return interface{}(ins.Instructions()) == interface{}(&v1) }, func() bool { return ins.HasInstructions() }},
	}, func() { b = b.Create() }, func() (err error) { ins, err = b.Now(); return })
}

// HAssignment: made of its parts.
func HAssignment() {
	b := parsers.NewAssignmentBuilder()
	var ins parsers.Assignment
	v0 := fAssignee{}
	v1 := fAssignables{}
	parts([]part{
		{func() { b.WithAssignee(&v0) }, func() bool { return interface{}(ins.Assignee()) == interface{}(&v0) }, nil},
		{func() { b.WithAssignables(&v1) }, func() bool { return interface{}(ins.Assignables()) == interface{}(&v1) }, nil},
	}, func() { b = b.Create() }, func() (err error) { ins, err = b.Now(); return })
}

// HIntIncrement: made of its parts.
func HIntIncrement() {
	b := parsers.NewIntIncrementBuilder()
	var ins parsers.IntIncrement
	name := vt.String("name", 1, 3)
	v1 := fValue{}
	parts([]part{
		{func() { b.WithVariableName(name) }, func() bool { return ins.VariableName() == name }, nil},
		{func() { b.WithIncrement(&v1) }, func() bool { return interface{}(ins.Increment()) == interface{}(&v1) }, nil},
	}, func() { b = b.Create() }, func() (err error) { ins, err = b.Now(); return })
}

// HListFetchElement: made of its parts.
func HListFetchElement() {
	b := parsers.NewListFetchElementBuilder()
	var ins parsers.ListFetchElement
	v0 := fTotalList{}
	v1 := fIndex{}
	parts([]part{
		{func() { b.WithList(&v0) }, func() bool { return interface{}(ins.List()) == interface{}(&v0) }, nil},
		{func() { b.WithIndex(&v1) }, func() bool { return interface{}(ins.Index()) == interface{}(&v1) }, nil},
	}, func() { b = b.Create() }, func() (err error) { ins, err = b.Now(); return })
}

// HAppend: made of its parts.
func HAppend() {
	b := parsers.NewAppendBuilder()
	var ins parsers.Append
	v0 := fListValue{}
	v1 := fSingle{}
	parts([]part{
		{func() { b.WithList(&v0) }, func() bool { return interface{}(ins.List()) == interface{}(&v0) }, nil},
		{func() { b.WithAssignable(&v1) }, func() bool { return interface{}(ins.Assignable()) == interface{}(&v1) }, nil},
	}, func() { b = b.Create() }, func() (err error) { ins, err = b.Now(); return })
}

// HSlice: made of its parts.
func HSlice() {
	b := parsers.NewSliceBuilder()
	var ins parsers.Slice
	v0 := fListValue{}
	v1 := fDelimiter{}
	parts([]part{
		{func() { b.WithList(&v0) }, func() bool { return interface{}(ins.List()) == interface{}(&v0) }, nil},
		{func() { b.WithDelimiter(&v1) }, func() bool { return interface{}(ins.Delimiter()) == interface{}(&v1) }, nil},
	}, func() { b = b.Create() }, func() (err error) { ins, err = b.Now(); return })
}

// HSliceDelimiter: made of its parts.
func HSliceDelimiter() {
	b := parsers.NewSliceDelimiterBuilder()
	var ins parsers.SliceDelimiter
	v0 := fIndex{}
	v1 := fIndex{}
	parts([]part{
		{func() { b.WithIndex(&v0) }, func() bool { return interface{}(ins.Index()) == interface{}(&v0) }, nil},
		{func() { b.WithAmount(&v1) }, func() bool { return interface{}(ins.Amount()) == interface{}(&v1) }, func() bool { return ins.HasAmount() }},
	}, func() { b = b.Create() }, func() (err error) { ins, err = b.Now(); return })
}

// HOperationSuffix: made of its parts.
func HOperationSuffix() {
	b := parsers.NewOperationSuffixBuilder()
	var ins parsers.OperationSuffix
	op := uint16(vt.Uint32("op"))
	v1 := fElement{}
	parts([]part{
		{func() { b.WithOperator(op) }, func() bool { return ins.Operator() == op }, nil},
		{func() { b.WithElement(&v1) }, func() bool { return interface{}(ins.Element()) == interface{}(&v1) }, nil},
	}, func() { b = b.Create() }, func() (err error) { ins, err = b.Now(); return })
}

// HVariableDeclaration: made of its parts.
func HVariableDeclaration() {
	b := parsers.NewVariableDeclarationBuilder()
	var ins parsers.VariableDeclaration
	name := vt.String("name", 1, 3)
	v0 := fType{}
	parts([]part{
		{func() { b.WithType(&v0) }, func() bool { return interface{}(ins.Type()) == interface{}(&v0) }, nil},
		{func() { b.WithName(name) }, func() bool { return ins.Name() == name }, nil},
	}, func() { b = b.Create() }, func() (err error) { ins, err = b.Now(); return })
}

// HHeaderVariables: the elements in their order.
func HHeaderVariables() {
	b := parsers.NewHeaderVariablesBuilder()
	var ins parsers.HeaderVariables
	es := []parsers.HeaderVariable{&fVariable{}, &fVariable{}}
	list(false, func(l []int) {
		given := []parsers.HeaderVariable{}
		for _, i := range l {
			given = append(given, es[i])
		}
		b.WithVariables(given)
	}, func() { b = b.Create() }, func() (err error) { ins, err = b.Now(); return }, func() int { return len(ins.All()) }, func(i int, e int) bool { return ins.All()[i] == es[e] })
}

// HInstructions: the elements in their order.
func HInstructions() {
	b := parsers.NewInstructionsBuilder()
	var ins parsers.Instructions
	es := []parsers.Instruction{&fInstruction{}, &fInstruction{}}
	list(false, func(l []int) {
		given := []parsers.Instruction{}
		for _, i := range l {
			given = append(given, es[i])
		}
		b.WithInstructions(given)
	}, func() { b = b.Create() }, func() (err error) { ins, err = b.Now(); return }, func() int { return len(ins.All()) }, func(i int, e int) bool { return ins.All()[i] == es[e] })
}

// HAssigneeNameFirsts: the elements in their order.
func HAssigneeNameFirsts() {
	b := parsers.NewAssigneeNameFirstsBuilder()
	var ins parsers.AssigneeNameFirsts
	es := []parsers.AssigneeNameFirst{&fNameFirst{}, &fNameFirst{}}
	list(false, func(l []int) {
		given := []parsers.AssigneeNameFirst{}
		for _, i := range l {
			given = append(given, es[i])
		}
		b.WithNames(given)
	}, func() { b = b.Create() }, func() (err error) { ins, err = b.Now(); return }, func() int { return len(ins.All()) }, func(i int, e int) bool { return ins.All()[i] == es[e] })
}

// HAssigneeNames: the elements in their order.
func HAssigneeNames() {
	b := parsers.NewAssigneeNamesBuilder()
	var ins parsers.AssigneeNames
	es := []parsers.AssigneeName{&fName{}, &fName{}}
	list(false, func(l []int) {
		given := []parsers.AssigneeName{}
		for _, i := range l {
			given = append(given, es[i])
		}
		b.WithNames(given)
	}, func() { b = b.Create() }, func() (err error) { ins, err = b.Now(); return }, func() int { return len(ins.All()) }, func(i int, e int) bool { return ins.All()[i] == es[e] })
}

// HAssignables: the elements in their order.
func HAssignables() {
	b := parsers.NewAssignablesBuilder()
	var ins parsers.Assignables
	es := []parsers.Assignable{&fAssignable{}, &fAssignable{}}
	list(true, func(l []int) {
		given := []parsers.Assignable{}
		for _, i := range l {
			given = append(given, es[i])
		}
		b.WithAssignables(given)
	}, func() { b = b.Create() }, func() (err error) { ins, err = b.Now(); return }, func() int { return len(ins.All()) }, func(i int, e int) bool { return ins.All()[i] == es[e] })
}

// HVariableDeclarations: the elements in their order.
func HVariableDeclarations() {
	b := parsers.NewVariableDeclarationsBuilder()
	var ins parsers.VariableDeclarations
	es := []parsers.VariableDeclaration{&fDeclaration{}, &fDeclaration{}}
	list(false, func(l []int) {
		given := []parsers.VariableDeclaration{}
		for _, i := range l {
			given = append(given, es[i])
		}
		b.WithDeclarations(given)
	}, func() { b = b.Create() }, func() (err error) { ins, err = b.Now(); return }, func() int { return len(ins.All()) }, func(i int, e int) bool { return ins.All()[i] == es[e] })
}
