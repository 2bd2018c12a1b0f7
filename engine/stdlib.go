package main

import (
	"go/types"
	"regexp"

	"golang.org/x/tools/go/ssa"
)

// The parts of the standard library that reach into the run time (reflection, native
// objects) and so have no body the engine can execute.

// errTree calls f on err and all it wraps, depth first, until f says it is done.
func (in *Interp) errTree(err Value, f func(e Iface) bool) bool {
	for {
		e, ok := err.(Iface)
		if !ok || e.T == nil {
			return false
		}
		if f(e) {
			return true
		}
		m := in.findMethod(e.T, "Unwrap")
		if m == nil || m.Signature.Params().Len() != 0 || m.Signature.Results().Len() != 1 {
			return false
		}
		r := in.call(m, []Value{copyVal(e.V)}, nil)
		if l, ok := r.(Slice); ok {
			for _, x := range l {
				if in.errTree(x, f) {
					return true
				}
			}
			return false
		}
		err = r
	}
}

// insertionSort orders a slice of n elements, as sort.Slice does below 13 elements.
func (in *Interp) insertionSort(l Slice, less Value) {
	for i := 1; i < len(l); i++ {
		for j := i; j > 0; j-- {
			c := in.callValue(less, []Value{mkInt(int64(j)), mkInt(int64(j - 1))}).(*Term)
			if !in.branch(c) {
				break
			}
			a, b := copyVal(l[j]), copyVal(l[j-1])
			in.store(&l[j], b)
			in.store(&l[j-1], a)
		}
	}
}

func sliceOf(in *Interp, v Value) Slice {
	i, ok := v.(Iface)
	if ok && i.T != nil {
		if l, ok := i.V.(Slice); ok {
			return l
		}
	}
	in.unsupported("sort of %T", v)
	return nil
}

func stdlibIntrinsics() {
	I := intrinsics
	I["errors.Is"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		e, ok1 := a[0].(Iface)
		t, ok2 := a[1].(Iface)
		if !ok1 || !ok2 {
			return nil, false
		}
		if e.T == nil || t.T == nil {
			return mkBool(e.T == nil && t.T == nil), true
		}
		comparable := types.Comparable(t.T)
		return mkBool(in.errTree(e, func(x Iface) bool {
			if comparable && in.branch(in.eq(nil, x, t)) {
				return true
			}
			m := in.findMethod(x.T, "Is")
			if m == nil || m.Signature.Params().Len() != 1 || m.Signature.Results().Len() != 1 {
				return false
			}
			c, ok := in.call(m, []Value{copyVal(x.V), t}, nil).(*Term)
			return ok && in.branch(c)
		})), true
	}
	I["errors.As"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		t, ok := a[1].(Iface)
		if !ok {
			return nil, false
		}
		if e, ok := a[0].(Iface); ok && e.T == nil {
			return termFalse, true
		}
		if t.T == nil {
			in.tpanic("errors: target cannot be nil")
		}
		pt, ok := under(t.T).(*types.Pointer)
		dst, ok2 := t.V.(Ptr)
		if !ok || !ok2 || dst == nil {
			in.tpanic("errors: target must be a non-nil pointer")
		}
		elem := pt.Elem()
		it, isI := under(elem).(*types.Interface)
		return mkBool(in.errTree(a[0], func(x Iface) bool {
			if isI && in.implements(x.T, it) {
				in.store(dst, x)
				return true
			}
			if !isI && types.Identical(x.T, elem) {
				in.store(dst, copyVal(x.V))
				return true
			}
			if m := in.findMethod(x.T, "As"); m != nil {
				in.unsupported("errors.As with a method As")
			}
			return false
		})), true
	}
	sorted := func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		in.insertionSort(sliceOf(in, a[0]), a[1])
		return nil, true
	}
	I["sort.Slice"] = sorted
	I["sort.SliceStable"] = sorted
	I["sort.SliceIsSorted"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		l := sliceOf(in, a[0])
		for i := len(l) - 1; i > 0; i-- {
			if in.branch(in.callValue(a[1], []Value{mkInt(int64(i)), mkInt(int64(i - 1))}).(*Term)) {
				return termFalse, true
			}
		}
		return termTrue, true
	}
}

// moreRegexIntrinsics are the methods of a pattern that regex.go leaves out: the ones on bytes
// and the rarer forms of find, replace and split.
func moreRegexIntrinsics() {
	I := intrinsics
	def := func(name string, f func(in *Interp, re *regexp.Regexp, s Str, a []Value) Value) {
		I["(*regexp.Regexp)."+name] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
			re := regexOf(in, a[0])
			switch x := a[1].(type) {
			case Str:
				return f(in, re, x, a), true
			case Slice:
				return f(in, re, mkStr(valsToTerms(x)), a), true
			}
			in.unsupported("regexp on %T", a[1])
			return nil, true
		}
	}
	ni := func(in *Interp, v Value) int { return int(in.concInt(v.(*Term), "regexp n")) }
	bytesOf := func(s Str) Value { return Slice(termsToVals(append([]*Term{}, s.Bytes()...))) }
	all := func(idx bool) func(in *Interp, re *regexp.Regexp, s Str, a []Value) Value {
		return func(in *Interp, re *regexp.Regexp, s Str, a []Value) Value {
			l := in.reAll(re, s, ni(in, a[2]))
			if l == nil {
				return Slice(nil)
			}
			out := make(Slice, len(l))
			for i, c := range l {
				if idx {
					c = c[:2]
				}
				out[i] = intsToSlice(c)
			}
			return out
		}
	}
	def("FindAllStringSubmatchIndex", all(false))
	def("FindAllSubmatchIndex", all(false))
	def("FindAllIndex", all(true))
	def("FindAll", func(in *Interp, re *regexp.Regexp, s Str, a []Value) Value {
		l := in.reAll(re, s, ni(in, a[2]))
		if l == nil {
			return Slice(nil)
		}
		out := make(Slice, len(l))
		for i, c := range l {
			out[i] = bytesOf(s.Slice(c[0], c[1]))
		}
		return out
	})
	def("FindSubmatchIndex", func(in *Interp, re *regexp.Regexp, s Str, a []Value) Value {
		return intsToSlice(in.reOne(re, s))
	})
	def("FindIndex", func(in *Interp, re *regexp.Regexp, s Str, a []Value) Value {
		c := in.reOne(re, s)
		if c == nil {
			return Slice(nil)
		}
		return intsToSlice(c[:2])
	})
	def("Find", func(in *Interp, re *regexp.Regexp, s Str, a []Value) Value {
		c := in.reOne(re, s)
		if c == nil {
			return Slice(nil)
		}
		return bytesOf(s.Slice(c[0], c[1]))
	})
	def("FindSubmatch", func(in *Interp, re *regexp.Regexp, s Str, a []Value) Value {
		c := in.reOne(re, s)
		if c == nil {
			return Slice(nil)
		}
		out := make(Slice, len(c)/2)
		for i := range out {
			out[i] = Slice(nil)
			if c[2*i] >= 0 {
				out[i] = bytesOf(s.Slice(c[2*i], c[2*i+1]))
			}
		}
		return out
	})
	def("Match", func(in *Interp, re *regexp.Regexp, s Str, a []Value) Value {
		return mkBool(in.reOne(re, s) != nil)
	})
	replace := func(in *Interp, re *regexp.Regexp, s Str, with func(Str) Str) Str {
		out := Str{}
		p := 0
		for _, c := range in.reAll(re, s, -1) {
			out = out.Concat(s.Slice(p, c[0])).Concat(with(s.Slice(c[0], c[1])))
			p = c[1]
		}
		return out.Concat(s.Slice(p, s.Len()))
	}
	def("ReplaceAllLiteralString", func(in *Interp, re *regexp.Regexp, s Str, a []Value) Value {
		return replace(in, re, s, func(Str) Str { return a[2].(Str) })
	})
	def("ReplaceAllStringFunc", func(in *Interp, re *regexp.Regexp, s Str, a []Value) Value {
		return replace(in, re, s, func(m Str) Str { return in.callValue(a[2], []Value{m}).(Str) })
	})
	def("Split", func(in *Interp, re *regexp.Regexp, s Str, a []Value) Value {
		n := ni(in, a[2])
		if n == 0 {
			return Slice(nil)
		}
		if len(re.String()) > 0 && s.Len() == 0 {
			return Slice{Str{}}
		}
		out := Slice{}
		beg, end := 0, 0
		for _, m := range in.reAll(re, s, n) {
			if n > 0 && len(out) == n-1 {
				break
			}
			end = m[0]
			if m[1] != 0 {
				out = append(out, s.Slice(beg, end))
			}
			beg = m[1]
		}
		if end != s.Len() {
			out = append(out, s.Slice(beg, s.Len()))
		}
		return out
	})
	I["(*regexp.Regexp).NumSubexp"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		return mkInt(int64(regexOf(in, a[0]).NumSubexp())), true
	}
	I["(*regexp.Regexp).SubexpIndex"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		return mkInt(int64(regexOf(in, a[0]).SubexpIndex(mustStr(in, a[1])))), true
	}
	I["(*regexp.Regexp).SubexpNames"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		return strSlice(regexOf(in, a[0]).SubexpNames()), true
	}
	I["(*regexp.Regexp).Longest"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		in.unsupported("leftmost-longest patterns")
		return nil, true
	}
}

// wrapErr gives what fmt.Errorf makes: an error that wraps the operands of its %w verbs.
func (in *Interp) wrapErr(format string, msg Str, args []Value) Value {
	var ws []Value
	n := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		for i++; i < len(format) && (format[i] == '#' || format[i] == '+' || format[i] == '-' || format[i] == ' ' || format[i] == '.' || format[i] >= '0' && format[i] <= '9'); i++ {
		}
		if i >= len(format) || format[i] == '%' {
			continue
		}
		if format[i] == 'w' && n < len(args) {
			ws = append(ws, args[n])
		}
		n++
	}
	if len(ws) == 0 {
		return in.newErr(msg)
	}
	if len(ws) > 1 {
		t := in.eng.namedPtr("fmt", "wrapErrors")
		var v Value = Struct{msg, Slice(ws)}
		return Iface{T: t, V: Ptr(&v)}
	}
	t := in.eng.namedPtr("fmt", "wrapError")
	var v Value = Struct{msg, ws[0]}
	return Iface{T: t, V: Ptr(&v)}
}

// syncMap is the content of the sync.Map behind a pointer.
func (in *Interp) syncMap(v Value) *Map {
	p, ok := v.(Ptr)
	if !ok || p == nil {
		in.tpanic("runtime error: invalid memory address or nil pointer dereference")
	}
	g := in.natStGlobal()
	all, ok := g["syncmap"].(map[Ptr]*Map)
	if !ok {
		all = map[Ptr]*Map{}
		g["syncmap"] = all
	}
	m, ok := all[p]
	if !ok {
		m = newMap(nil)
		all[p] = m
		in.onUndo(func() { delete(all, p) })
	}
	return m
}

func syncIntrinsics() {
	I := intrinsics
	def := func(name string, f func(in *Interp, m *Map, a []Value) Value) {
		I["(*sync.Map)."+name] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
			return f(in, in.syncMap(a[0]), a), true
		}
	}
	def("Store", func(in *Interp, m *Map, a []Value) Value { in.mapSet(m, a[1], a[2]); return nil })
	load := func(in *Interp, m *Map, a []Value) Value {
		if e := in.mapFind(m, a[1]); e != nil {
			return Tuple{copyVal(e.v), termTrue}
		}
		return Tuple{Iface{}, termFalse}
	}
	def("Load", load)
	def("LoadOrStore", func(in *Interp, m *Map, a []Value) Value {
		if e := in.mapFind(m, a[1]); e != nil {
			return Tuple{copyVal(e.v), termTrue}
		}
		in.mapSet(m, a[1], a[2])
		return Tuple{a[2], termFalse}
	})
	def("LoadAndDelete", func(in *Interp, m *Map, a []Value) Value {
		r := load(in, m, a)
		in.mapDelete(m, a[1])
		return r
	})
	def("Delete", func(in *Interp, m *Map, a []Value) Value { in.mapDelete(m, a[1]); return nil })
	def("Range", func(in *Interp, m *Map, a []Value) Value {
		for _, e := range append([]*mapEntry{}, m.entries...) {
			if e.dead {
				continue
			}
			if !in.branch(in.callValue(a[1], []Value{copyVal(e.k), copyVal(e.v)}).(*Term)) {
				break
			}
		}
		return nil
	})
	// what a pool was given comes back, the last first
	pool := func(in *Interp, v Value) (map[Ptr][]Value, Ptr) {
		p, ok := v.(Ptr)
		if !ok || p == nil {
			in.tpanic("runtime error: invalid memory address or nil pointer dereference")
		}
		g := in.natStGlobal()
		all, ok := g["syncpool"].(map[Ptr][]Value)
		if !ok {
			all = map[Ptr][]Value{}
			g["syncpool"] = all
		}
		old := all[p]
		in.onUndo(func() { all[p] = old })
		return all, p
	}
	I["(*sync.Pool).Get"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		all, p := pool(in, a[0])
		if l := all[p]; len(l) > 0 {
			all[p] = append([]Value{}, l[:len(l)-1]...)
			return l[len(l)-1], true
		}
		st, ok := (*p).(Struct)
		if !ok {
			in.unsupported("sync.Pool")
		}
		if c, ok := st[len(st)-1].(*Closure); ok && c != nil {
			return in.callValue(c, nil), true
		}
		return Iface{}, true
	}
	I["(*sync.Pool).Put"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		if x, ok := a[1].(Iface); ok && x.T == nil {
			return nil, true
		}
		all, p := pool(in, a[0])
		all[p] = append(append([]Value{}, all[p]...), a[1])
		return nil, true
	}
	// one thread at a time: an atomic access is an access
	for _, k := range []struct {
		n string
		w int
	}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}} {
		I["sync/atomic.Load"+k.n] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
			return in.load(a[0]), true
		}
		I["sync/atomic.Store"+k.n] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
			in.store(a[0].(Ptr), a[1])
			return nil, true
		}
		I["sync/atomic.Add"+k.n] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
			s := in.pool.Bin(OAdd, in.load(a[0]).(*Term), a[1].(*Term))
			in.store(a[0].(Ptr), s)
			return s, true
		}
		I["sync/atomic.Swap"+k.n] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
			old := in.load(a[0])
			in.store(a[0].(Ptr), a[1])
			return old, true
		}
		I["sync/atomic.CompareAndSwap"+k.n] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
			if !in.branch(in.pool.Eq(in.load(a[0]).(*Term), a[1].(*Term))) {
				return termFalse, true
			}
			in.store(a[0].(Ptr), a[2])
			return termTrue, true
		}
	}
}

// deepEqual is reflect.DeepEqual for two values of one type.
func (in *Interp) deepEqual(t types.Type, a, b Value, depth int) bool {
	if depth > 200 {
		in.unsupported("reflect.DeepEqual of a deep value")
	}
	switch u := under(t).(type) {
	case *types.Interface:
		x, y := a.(Iface), b.(Iface)
		if x.T == nil || y.T == nil {
			return x.T == nil && y.T == nil
		}
		return types.Identical(x.T, y.T) && in.deepEqual(x.T, x.V, y.V, depth+1)
	case *types.Pointer:
		x, ok1 := a.(Ptr)
		y, ok2 := b.(Ptr)
		if !ok1 || !ok2 {
			in.unsupported("reflect.DeepEqual of %T", a)
		}
		if x == nil || y == nil || x == y {
			return x == y
		}
		return in.deepEqual(u.Elem(), *x, *y, depth+1)
	case *types.Slice:
		x, y := a.(Slice), b.(Slice)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !in.deepEqual(u.Elem(), x[i], y[i], depth+1) {
				return false
			}
		}
		return true
	case *types.Array:
		x, y := a.(Array), b.(Array)
		for i := range x {
			if !in.deepEqual(u.Elem(), x[i], y[i], depth+1) {
				return false
			}
		}
		return true
	case *types.Struct:
		x, ok1 := a.(Struct)
		y, ok2 := b.(Struct)
		if !ok1 || !ok2 || len(x) != len(y) || len(x) != u.NumFields() {
			in.unsupported("reflect.DeepEqual of %T", a)
		}
		for i := range x {
			if !in.deepEqual(u.Field(i).Type(), x[i], y[i], depth+1) {
				return false
			}
		}
		return true
	case *types.Map:
		x, ok1 := a.(*Map)
		y, ok2 := b.(*Map)
		if !ok1 || !ok2 {
			in.unsupported("reflect.DeepEqual of %T", a)
		}
		if x == nil || y == nil {
			return x == nil && y == nil
		}
		if x.n != y.n {
			return false
		}
		for _, e := range x.entries {
			if e.dead {
				continue
			}
			f := in.mapFind(y, e.k)
			if f == nil || !in.deepEqual(u.Elem(), e.v, f.v, depth+1) {
				return false
			}
		}
		return true
	case *types.Signature:
		x, _ := a.(*Closure)
		y, _ := b.(*Closure)
		return x == nil && y == nil
	}
	return in.branch(in.eq(t, a, b))
}

func reflectIntrinsics() {
	intrinsics["reflect.DeepEqual"] = func(in *Interp, fn *ssa.Function, a []Value) (Value, bool) {
		x, ok1 := a[0].(Iface)
		y, ok2 := a[1].(Iface)
		if !ok1 || !ok2 {
			return nil, false
		}
		if x.T == nil || y.T == nil {
			return mkBool(x.T == nil && y.T == nil), true
		}
		return mkBool(types.Identical(x.T, y.T) && in.deepEqual(x.T, x.V, y.V, 0)), true
	}
}
