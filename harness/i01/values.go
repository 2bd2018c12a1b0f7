package i01

import (
	"github.com/steve-care-software/steve/domain/languages/scripts/base/parsers"
	"github.com/steve-care-software/steve/zz_verif/vt"
)

// give gives a value of the kind to the builder, and returns the flag and the element expected.
func give(b parsers.ValueBuilder, kind int) (uint8, interface{}) {
	switch kind {
	case 0:
		v := uint(vt.Uint("uint"))
		b.WithUint(v)
		return parsers.TypeIntegerFlag | parsers.TypeUnsignedFlag, v
	case 1:
		v := vt.Int("int")
		b.WithInt(v)
		return parsers.TypeIntegerFlag, v
	case 2:
		v := []float64{0, -1.5, 3.25}[vt.Choose("float", 3)]
		b.WithFloat(v)
		return parsers.TypeFloatFlag, v
	case 3:
		v := vt.Bool("bool")
		b.WithBool(v)
		return parsers.TypeBoolFlag, v
	}
	v := vt.String("string", 0, 3)
	b.WithString(v)
	return parsers.TypeStringFlag, v
}

// HValue: the type says what the value is, and the value is the one given.
func HValue() {
	b := parsers.NewValueBuilder()
	if vt.Bool("used-before") {
		give(b, vt.Choose("before", 5))
		if vt.Bool("built-before") {
			b.Now()
		}
		b = b.Create()
	}
	k := vt.Choose("kind", 6)
	if k == 5 {
		_, err := b.Now()
		vt.Assert(err != nil, "nothing-refused")
		return
	}
	flag, expected := give(b, k)
	v, err := b.Now()
	vt.Assert(err == nil, "built")
	vt.Assume(err == nil)
	vt.Assert(v.Type().Flag() == flag, "flag")
	vt.Assert(v.Type().Dept() == 0, "no-depth")
	vt.Assert(v.Element() == expected, "the-value-given")
	vt.Reach("value")
}

// HTyped: a value given with its type keeps both, and needs both.
func HTyped() {
	dept, flag := uint(vt.Uint("dept")), vt.Byte("flag")
	typ, err := parsers.NewTypeBuilder().Create().WithDept(dept).WithFlag(flag).Now()
	vt.Assert(err == nil, "type-built")
	vt.Assume(err == nil)
	b := parsers.NewValueBuilder().Create().WithType(typ)
	if vt.Bool("without") {
		_, err := b.Now()
		vt.Assert(err != nil, "element-mandatory")
		return
	}
	e := vt.Int("element")
	v, err := b.WithElement(e).Now()
	vt.Assert(err == nil, "built")
	vt.Assume(err == nil)
	vt.Assert(v.Type() == typ, "the-type-given")
	vt.Assert(v.Element() == interface{}(e), "the-element-given")
}

// HType: a type keeps its depth and its flag; two types compare when both are the same.
func HType() {
	build := func(n string) (parsers.Type, uint, uint8) {
		b := parsers.NewTypeBuilder()
		if vt.Bool("used-before") {
			b = b.WithDept(uint(vt.Uint("old"))).WithFlag(vt.Byte("old")).Create()
		}
		d, f := uint(0), vt.Byte("flag"+n)
		if vt.Bool("deep") {
			d = uint(vt.Uint("dept" + n))
			b.WithDept(d)
		}
		t, err := b.WithFlag(f).Now()
		vt.Assert(err == nil, "built")
		vt.Assume(err == nil)
		vt.Assert(t.Dept() == d && t.Flag() == f, "kept")
		return t, d, f
	}
	a, d1, f1 := build("a")
	b, d2, f2 := build("b")
	vt.Assert((a.Compare(b) == nil) == (d1 == d2 && f1 == f2), "compare")
	vt.Assert((a.Compare(b) == nil) == (b.Compare(a) == nil), "compare-symmetric")
	tb := parsers.NewTypeBuilder()
	if vt.Bool("with-dept") {
		tb.WithDept(1)
	}
	if vt.Bool("old-flag") {
		tb = tb.WithFlag(3).Create()
	}
	_, err := tb.Now()
	vt.Assert(err != nil, "flag-mandatory")
	vt.Reach("compared")
}

// HFlags: the flags of the types, and of the operators, are all different.
func HFlags() {
	t := []uint8{parsers.TypeUnsignedFlag, parsers.TypeIntegerFlag, parsers.TypeFloatFlag, parsers.TypeStringFlag, parsers.TypeBoolFlag}
	o := []uint16{parsers.OpArithmetic, parsers.OpAriPlus, parsers.OpAriMinus, parsers.OpAriMultiply, parsers.OpAriDivide, parsers.OpLogical, parsers.OpLogAnd, parsers.OpLogOr, parsers.OpRelational, parsers.OpRelNot, parsers.OpRelEqual, parsers.OpRelLessThan, parsers.OpRelGreaterThan}
	i, j := vt.Choose("one", len(t)), vt.Choose("other", len(t))
	vt.Assert(t[i] != 0 && (i == j || t[i]&t[j] == 0), "types-apart")
	k, l := vt.Choose("operator", len(o)), vt.Choose("other-operator", len(o))
	vt.Assert(o[k] != 0 && (k == l || o[k]&o[l] == 0), "operators-apart")
}

// HOperation: an operation keeps its element and its suffix; a lone operation in parentheses is that operation.
func HOperation() {
	b := parsers.NewOperationBuilder()
	inner := &fOperation{}
	element := func() parsers.OperationElement {
		eb := parsers.NewOperatonElementBuilder().Create()
		if vt.Bool("nested") {
			eb.WithOperation(inner)
		} else {
			eb.WithVariableName(vt.String("name", 0, 2))
		}
		e, err := eb.Now()
		vt.Assert(err == nil, "element-built")
		vt.Assume(err == nil)
		return e
	}
	if vt.Bool("used-before") {
		b.WithElement(element())
		if vt.Bool("suffixed-before") {
			b.WithSuffix(&fSuffix{})
		}
		b = b.Create()
	}
	suffix := &fSuffix{}
	has := vt.Bool("suffix")
	if has {
		b.WithSuffix(suffix)
	}
	if vt.Bool("without") {
		_, err := b.Now()
		vt.Assert(err != nil, "element-mandatory")
		return
	}
	e := element()
	op, err := b.WithElement(e).Now()
	vt.Assert(err == nil, "built")
	vt.Assume(err == nil)
	if !has && e.IsOperation() {
		vt.Assert(op == parsers.Operation(inner), "the-operation-inside")
		return
	}
	vt.Assert(op.Element() == e, "the-element-given")
	vt.Assert(op.HasSuffix() == has, "suffix-said")
	if has {
		vt.Assert(op.Suffix() == parsers.OperationSuffix(suffix), "the-suffix-given")
	}
	vt.Reach("operation")
}
