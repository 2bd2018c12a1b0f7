package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// ---- compiled functions ----

type opnd struct {
	slot int32 // >=0: register; -1: constant; -2: global
	agg  bool
	val  Value
	glob int32
}

type pinstr struct {
	i   ssa.Instruction
	dst int32
	ops []opnd
}

type fnInfo struct {
	fn        *ssa.Function
	name      string
	nregs     int
	blocks    [][]pinstr
	hasDefer  bool
	intrinsic intrinsicFn
	skipInit  bool
	repo      bool
	ninstr    int
	once      sync.Once
	touched   atomic.Pointer[harnessRun] // the last run that executed it
}

// Engine is shared by all workers.
type Engine struct {
	prog       *ssa.Program
	fns        sync.Map // *ssa.Function -> *fnInfo
	globMu     sync.Mutex
	globIdx    map[*ssa.Global]int32
	globals    []*ssa.Global
	initPkgs   map[string]bool
	sizes      types.Sizes
	repoPrefix string
	repo       string
	vtPath     string
	solverBin  string
	maxSteps   int64
	seed       int64
	level      int // of the bounds: 0, 1 or 2
	regexMu    sync.Mutex
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (e *Engine) globalIndex(g *ssa.Global) int32 {
	e.globMu.Lock()
	defer e.globMu.Unlock()
	if i, ok := e.globIdx[g]; ok {
		return i
	}
	i := int32(len(e.globals))
	e.globIdx[g] = i
	e.globals = append(e.globals, g)
	return i
}

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	v, ok := e.fns.Load(fn)
	if !ok {
		v, _ = e.fns.LoadOrStore(fn, &fnInfo{fn: fn})
	}
	fi := v.(*fnInfo)
	fi.once.Do(func() { e.compile(fi) })
	return fi
}

func (e *Engine) compile(fi *fnInfo) {
	fn := fi.fn
	fi.name = fn.String()
	if o := fn.Origin(); o != nil && o != fn {
		fi.name = o.String()
	}
	fi.intrinsic = lookupIntrinsic(e, fi.name, fn)
	if fn.Pkg != nil {
		p := fn.Pkg.Pkg.Path()
		fi.repo = len(p) >= len(e.repoPrefix) && p[:len(e.repoPrefix)] == e.repoPrefix
		if fn.Name() == "init" && fn.Synthetic == "package initializer" && !e.shouldInit(p) {
			fi.skipInit = true
		}
	}
	if fi.skipInit || fn.Blocks == nil {
		return
	}
	slots := map[ssa.Value]int32{}
	n := int32(0)
	for _, p := range fn.Params {
		slots[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		slots[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				slots[v] = n
				n++
			}
			if _, ok := i.(*ssa.Defer); ok {
				fi.hasDefer = true
			}
		}
	}
	fi.nregs = int(n)
	mk := func(v ssa.Value) opnd {
		switch c := v.(type) {
		case nil:
			return opnd{slot: -1}
		case *ssa.Const:
			cv := e.constVal(c)
			_, s := cv.(Struct)
			_, a := cv.(Array)
			return opnd{slot: -1, val: cv, agg: s || a}
		case *ssa.Global:
			return opnd{slot: -2, glob: e.globalIndex(c)}
		case *ssa.Function:
			return opnd{slot: -1, val: &Closure{fn: c}}
		case *ssa.Builtin:
			return opnd{slot: -1, val: &Closure{bi: c}}
		}
		s, ok := slots[v]
		if !ok {
			panic(fmt.Sprintf("no slot for %s in %s", v.Name(), fn))
		}
		return opnd{slot: s}
	}
	fi.blocks = make([][]pinstr, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		ps := make([]pinstr, 0, len(b.Instrs))
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.DebugRef); ok {
				continue
			}
			p := pinstr{i: i, dst: -1}
			if v, ok := i.(ssa.Value); ok {
				p.dst = slots[v]
			}
			switch x := i.(type) {
			case *ssa.MakeClosure:
				p.ops = append(p.ops, mk(x.Fn))
				for _, bnd := range x.Bindings {
					p.ops = append(p.ops, mk(bnd))
				}
			case ssa.CallInstruction:
				c := x.Common()
				p.ops = append(p.ops, mk(c.Value))
				for _, a := range c.Args {
					p.ops = append(p.ops, mk(a))
				}
			case *ssa.Slice:
				p.ops = append(p.ops, mk(x.X), mk(x.Low), mk(x.High), mk(x.Max))
			case *ssa.Phi:
				for _, ed := range x.Edges {
					p.ops = append(p.ops, mk(ed))
				}
			case *ssa.Return:
				for _, r := range x.Results {
					p.ops = append(p.ops, mk(r))
				}
			default:
				for _, o := range i.Operands(nil) {
					if o == nil || *o == nil {
						p.ops = append(p.ops, opnd{slot: -1})
						continue
					}
					p.ops = append(p.ops, mk(*o))
				}
			}
			ps = append(ps, p)
			fi.ninstr++
		}
		fi.blocks[bi] = ps
	}
}

func (e *Engine) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		if _, ok := t.(*types.TypeParam); ok {
			return nil
		}
		return zero(t)
	}
	if w := intWidth(t); w >= 0 {
		if w == 0 {
			return mkBool(constant.BoolVal(c.Value))
		}
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return mkConst(w, uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return mkConst(w, u)
	}
	if isString(t) {
		if c.Value.Kind() == constant.String {
			return Str{s: constant.StringVal(c.Value)}
		}
		i, _ := constant.Int64Val(c.Value)
		return Str{s: string(rune(i))}
	}
	if isFloat(t) {
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if b, ok := under(t).(*types.Basic); ok && b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	}
	if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsComplex != 0 {
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return complex(re, im)
	}
	panic(fmt.Sprintf("const %s of %s", c, t))
}

// ---- path control ----

// Decision is one recorded choice of a path.
type Decision struct {
	kind    uint8 // 0 branch, 1 choose, 2 concretise, 3 assertion
	v       uint64
	eq      bool
	implied bool
	step    int64
}

type pathEnd struct {
	kind string // "infeasible", "unsupported", "limit", "stop"
	msg  string
}

type targetPanic struct {
	v   Value
	msg string
}

type trailEnt struct {
	p   Ptr
	old Value
}

type nondetRec struct {
	Name string
	Kind string
	v    Value // Term / Str / Slice
}

type candidate struct {
	Label  string
	Detail string
	Inputs []inputVal
	hang   bool
	real   bool
}

type inputVal struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	U    uint64 `json:"u,omitempty"`
	S    []int  `json:"s,omitempty"`
}

// Interp is one worker's interpreter.
type Interp struct {
	eng     *Engine
	globals []Ptr
	pool    *Pool
	solver  *Solver

	inPath   bool
	trail    []trailEnt
	trailFns []func()

	prefix    []Decision
	pos       int
	log       []Decision
	model     *Model
	pcSet     map[*Term]bool
	steps     int64
	stepLimit int64
	depth     int
	frames    []*frame
	free      [pooledRegs][]*frame
	fnCache   map[*ssa.Function]*fnInfo
	methCache map[methKey]*ssa.Function
	implCache map[[2]types.Type]bool
	nvar      int
	nondets   []nondetRec
	hashes    []hashApp
	files     map[string]Str
	nAxioms   int
	inAxioms  bool
	mapMode   int
	natSt     map[string]interface{}
	natGlob   map[string]interface{}

	run *harnessRun
	obs []obsRec
}

type obsRec struct {
	label string
	v     Value
}

type frame struct {
	fi        *fnInfo
	regs      []Value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	defers    []deferred
	panicking *targetPanic
	recovered bool
	result    Value
}

type deferred struct {
	fn   Value
	args []Value
}

func (in *Interp) unsupported(format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	for i := len(in.frames) - 1; i >= 0 && i >= len(in.frames)-4; i-- {
		msg += " < " + in.frames[i].fi.name
	}
	panic(pathEnd{"unsupported", msg})
}

func (in *Interp) tpanic(msg string) {
	panic(&targetPanic{v: Iface{T: types.Typ[types.String], V: Str{s: msg}}, msg: msg})
}

func (in *Interp) globalPtr(i int32) Ptr {
	for int(i) >= len(in.globals) {
		in.globals = append(in.globals, nil)
	}
	if in.globals[i] == nil {
		in.eng.globMu.Lock()
		g := in.eng.globals[i]
		in.eng.globMu.Unlock()
		v := zero(g.Type().(*types.Pointer).Elem())
		in.globals[i] = &v
		if g.Pkg != nil && !in.eng.shouldInit(g.Pkg.Pkg.Path()) && !knownGlobal(g.String()) {
			in.unsupported("global %s of a package that is not initialised", g)
		}
		initKnownGlobal(in, g, in.globals[i])
	}
	return in.globals[i]
}

func (in *Interp) get(fr *frame, o *opnd) Value {
	switch {
	case o.slot >= 0:
		return fr.regs[o.slot]
	case o.slot == -2:
		return in.globalPtr(o.glob)
	}
	if o.agg {
		return copyVal(o.val)
	}
	return o.val
}

// store writes a slot (aggregates element-wise so that interior pointers stay valid).
func (in *Interp) store(p Ptr, v Value) {
	if p == nil {
		in.tpanic("runtime error: invalid memory address or nil pointer dereference")
	}
	switch x := v.(type) {
	case Struct:
		if old, ok := (*p).(Struct); ok && len(old) == len(x) {
			for i := range x {
				in.store(&old[i], x[i])
			}
			return
		}
		v = copyVal(x)
	case Array:
		if old, ok := (*p).(Array); ok && len(old) == len(x) {
			for i := range x {
				in.store(&old[i], x[i])
			}
			return
		}
		v = copyVal(x)
	}
	if in.inPath {
		in.trail = append(in.trail, trailEnt{p, *p})
	}
	*p = v
}

func (in *Interp) undo() {
	for i := len(in.trail) - 1; i >= 0; i-- {
		*in.trail[i].p = in.trail[i].old
	}
	in.trail = in.trail[:0]
	for i := len(in.trailFns) - 1; i >= 0; i-- {
		in.trailFns[i]()
	}
	in.trailFns = in.trailFns[:0]
}

func (in *Interp) onUndo(f func()) {
	if in.inPath {
		in.trailFns = append(in.trailFns, f)
	}
}

func (in *Interp) load(pv Value) Value {
	switch p := pv.(type) {
	case Ptr:
		if p == nil {
			in.tpanic("runtime error: invalid memory address or nil pointer dereference")
		}
		return copyVal(*p)
	case *SymPtr:
		return in.selectIdx(p.base, p.idx)
	}
	in.unsupported("load through %T", pv)
	return nil
}

// selectIdx reads base[idx] for an in-range symbolic index of scalar elements. Runs of
// equal or consecutive constants become one segment.
func (in *Interp) selectIdx(base []Value, idx *Term) Value {
	type seg struct {
		lo int
		t  *Term
	}
	P := in.pool
	var segs []seg
	n := len(base)
	for i := 0; i < n; {
		f := base[i].(*Term)
		j := i + 1
		for j < n && same(f, base[j].(*Term)) {
			j++
		}
		if f.isConst() && f.w > 0 {
			k := i + 1
			for k < n && base[k].(*Term).isConst() && base[k].(*Term).val == (f.val+uint64(k-i))&mask(int(f.w)) {
				k++
			}
			if k > j && k-i > 1 {
				var x *Term
				switch {
				case f.w < idx.w:
					x = P.Extract(idx, 0, int(f.w))
				case f.w > idx.w:
					x = P.ZExt(idx, int(f.w))
				default:
					x = idx
				}
				segs = append(segs, seg{i, P.Bin(OAdd, x, mkConst(int(f.w), f.val-uint64(i)))})
				i = k
				continue
			}
		}
		segs = append(segs, seg{i, f})
		i = j
	}
	var rec func(lo, hi int) *Term
	rec = func(lo, hi int) *Term {
		if hi-lo == 1 {
			return segs[lo].t
		}
		m := (lo + hi) / 2
		return P.Ite(P.Bin(OULt, idx, mkConst(int(idx.w), uint64(segs[m].lo))), rec(lo, m), rec(m, hi))
	}
	return rec(0, len(segs))
}

func scalars(vs []Value) bool {
	for _, v := range vs {
		if _, ok := v.(*Term); !ok {
			return false
		}
	}
	return true
}

// callValue calls any function value.
func (in *Interp) callValue(f Value, args []Value) Value {
	c, ok := f.(*Closure)
	if !ok || c == nil {
		in.tpanic("runtime error: invalid memory address or nil pointer dereference (nil func)")
	}
	if c.bi != nil {
		in.unsupported("builtin as value %s", c.bi.Name())
	}
	if c.nat != nil {
		return c.nat(in, args)
	}
	return in.call(c.fn, args, c.env)
}

const maxDepth = 2500

func (in *Interp) call(fn *ssa.Function, args, env []Value) Value {
	fi, ok := in.fnCache[fn]
	if !ok {
		fi = in.eng.info(fn)
		in.fnCache[fn] = fi
	}
	if fi.skipInit {
		return nil
	}
	if fi.intrinsic != nil {
		if v, ok := fi.intrinsic(in, fn, args); ok {
			return v
		}
	}
	return in.callBody(fi, fn, args, env)
}

// callBody executes the body of a function, without its summary.
func (in *Interp) callBody(fi *fnInfo, fn *ssa.Function, args, env []Value) Value {
	if fi.blocks == nil {
		in.unsupported("no body: %s", fi.name)
	}
	if in.depth > maxDepth {
		panic(pathEnd{"stack", "call depth limit in " + fi.name})
	}
	if fi.repo && in.run != nil {
		in.run.touch(fi)
	}
	in.depth++
	fr := in.newFrame(fi, fn)
	copy(fr.regs, args)
	copy(fr.regs[len(fn.Params):], env)
	in.frames = append(in.frames, fr)
	depth := len(in.frames)
	var res Value
	if !fi.hasDefer {
		res = in.loop(fr)
	} else {
		res = in.withDefers(fr, depth)
	}
	in.frames = in.frames[:depth-1]
	in.depth--
	in.freeFrame(fr)
	return res
}

const pooledRegs = 64

// newFrame returns a frame, one that a call has left where there is one.
func (in *Interp) newFrame(fi *fnInfo, fn *ssa.Function) *frame {
	if n := fi.nregs; n < pooledRegs {
		if l := len(in.free[n]); l > 0 {
			fr := in.free[n][l-1]
			in.free[n] = in.free[n][:l-1]
			fr.fi, fr.block = fi, fn.Blocks[0]
			return fr
		}
	}
	return &frame{fi: fi, regs: make([]Value, fi.nregs), block: fn.Blocks[0]}
}

// freeFrame keeps the frame of a call that returned.
func (in *Interp) freeFrame(fr *frame) {
	n := len(fr.regs)
	if n >= pooledRegs || len(in.free[n]) >= 256 {
		return
	}
	clear(fr.regs)
	*fr = frame{regs: fr.regs}
	in.free[n] = append(in.free[n], fr)
}

func (in *Interp) withDefers(fr *frame, depth int) Value {
	d := in.depth
	protect := func(f func() Value) (res Value, tp *targetPanic) {
		defer func() {
			if r := recover(); r != nil {
				if p, ok := r.(*targetPanic); ok {
					tp = p
					in.frames = in.frames[:depth]
					in.depth = d
					return
				}
				panic(r)
			}
		}()
		return f(), nil
	}
	res, tp := protect(func() Value { return in.loop(fr) })
	if tp == nil {
		return res
	}
	fr.panicking = tp
	for len(fr.defers) > 0 {
		df := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		_, tp2 := protect(func() Value { return in.callValue(df.fn, df.args) })
		if tp2 != nil {
			fr.panicking = tp2
		}
	}
	if fr.panicking != nil {
		panic(fr.panicking)
	}
	if fr.fi.fn.Recover != nil {
		fr.prev = nil
		fr.block = fr.fi.fn.Recover
		return in.loop(fr)
	}
	return zeroResults(fr.fi.fn)
}

func zeroResults(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return zero(r.At(0).Type())
	}
	return zero(r)
}

func (in *Interp) loop(fr *frame) Value {
	for {
		instrs := fr.fi.blocks[fr.block.Index]
		in.steps += int64(len(instrs))
		if in.steps > in.stepLimit {
			panic(pathEnd{"limit", "step limit in " + fr.fi.name})
		}
		// phis first, in parallel
		k := 0
		if fr.prev != nil {
			for k < len(instrs) {
				if _, ok := instrs[k].i.(*ssa.Phi); !ok {
					break
				}
				k++
			}
			if k > 0 {
				pi := -1
				for i, p := range fr.block.Preds {
					if p == fr.prev {
						pi = i
						break
					}
				}
				if k == 1 {
					fr.regs[instrs[0].dst] = in.get(fr, &instrs[0].ops[pi])
				} else {
					tmp := make([]Value, k)
					for j := 0; j < k; j++ {
						tmp[j] = in.get(fr, &instrs[j].ops[pi])
					}
					for j := 0; j < k; j++ {
						fr.regs[instrs[j].dst] = tmp[j]
					}
				}
			}
		}
		next := fr.block
		jumped := false
		for ; k < len(instrs); k++ {
			p := &instrs[k]
			switch x := p.i.(type) {
			case *ssa.Jump:
				next = fr.block.Succs[0]
				jumped = true
			case *ssa.If:
				if in.branch(in.get(fr, &p.ops[0]).(*Term)) {
					next = fr.block.Succs[0]
				} else {
					next = fr.block.Succs[1]
				}
				jumped = true
			case *ssa.Return:
				switch len(p.ops) {
				case 0:
					return nil
				case 1:
					return in.get(fr, &p.ops[0])
				}
				t := make(Tuple, len(p.ops))
				for i := range p.ops {
					t[i] = in.get(fr, &p.ops[i])
				}
				return t
			case *ssa.Panic:
				v := in.get(fr, &p.ops[0])
				panic(&targetPanic{v: v, msg: "panic: " + in.panicText(v)})
			default:
				in.exec(fr, p, x)
			}
			if jumped {
				break
			}
		}
		if !jumped {
			panic("fell off block in " + fr.fi.name)
		}
		fr.prev = fr.block
		fr.block = next
	}
}

func (in *Interp) panicText(v Value) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "?"
		}
	}()
	if i, ok := v.(Iface); ok && i.T != nil {
		if st, ok := i.V.(Str); ok {
			return st.String()
		}
		if m := in.findMethod(i.T, "Error"); m != nil {
			if r, ok := in.call(m, []Value{i.V}, nil).(Str); ok {
				return r.String()
			}
		}
		return i.T.String()
	}
	return render(v, nil)
}

func (in *Interp) findMethod(t types.Type, name string) *ssa.Function {
	ms := in.eng.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return in.eng.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (in *Interp) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	f, ok := in.methCache[k]
	if !ok {
		f = in.eng.prog.LookupMethod(t, m.Pkg(), m.Name())
		in.methCache[k] = f
	}
	return f
}

func (in *Interp) implements(t types.Type, it *types.Interface) bool {
	k := [2]types.Type{t, it}
	v, ok := in.implCache[k]
	if !ok {
		v = types.Implements(t, it)
		in.implCache[k] = v
	}
	return v
}

func (in *Interp) exec(fr *frame, p *pinstr, i ssa.Instruction) {
	set := func(v Value) { fr.regs[p.dst] = v }
	switch x := i.(type) {
	case *ssa.Alloc:
		v := zero(under(x.Type()).(*types.Pointer).Elem())
		set(Ptr(&v))
	case *ssa.UnOp:
		set(in.unop(x, in.get(fr, &p.ops[0])))
	case *ssa.BinOp:
		set(in.binop(x.Op, x.X.Type(), x.Y.Type(), in.get(fr, &p.ops[0]), in.get(fr, &p.ops[1])))
	case *ssa.Call:
		set(in.doCall(fr, p, x.Common()))
	case *ssa.Defer:
		c := x.Common()
		d := deferred{}
		if c.IsInvoke() {
			f, args := in.prepInvoke(fr, p, c)
			d.fn, d.args = &Closure{fn: f}, args
		} else {
			fv := in.get(fr, &p.ops[0])
			args := make([]Value, len(p.ops)-1)
			for k := range args {
				args[k] = in.get(fr, &p.ops[k+1])
			}
			if cl, ok := fv.(*Closure); ok && cl != nil && cl.bi != nil {
				bi, cc := cl.bi, c
				d.fn = &Closure{nat: func(in *Interp, a []Value) Value { return in.builtin(fr, bi, cc, a) }}
			} else {
				d.fn = fv
			}
			d.args = args
		}
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		for len(fr.defers) > 0 {
			df := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			in.callValue(df.fn, df.args)
		}
	case *ssa.Go:
		in.unsupported("go statement")
	case *ssa.Store:
		addr, val := in.get(fr, &p.ops[0]), in.get(fr, &p.ops[1])
		switch a := addr.(type) {
		case Ptr:
			in.store(a, val)
		case *SymPtr:
			for k := range a.base {
				c := in.pool.Eq(a.idx, mkConst(int(a.idx.w), uint64(k)))
				in.store(&a.base[k], in.pool.Ite(c, val.(*Term), a.base[k].(*Term)))
			}
		default:
			in.unsupported("store to %T", addr)
		}
	case *ssa.MakeInterface:
		v := in.get(fr, &p.ops[0])
		set(Iface{T: x.X.Type(), V: copyVal(v)})
	case *ssa.ChangeInterface:
		set(in.get(fr, &p.ops[0]))
	case *ssa.ChangeType:
		set(in.get(fr, &p.ops[0]))
	case *ssa.Convert:
		set(in.convert(x.X.Type(), x.Type(), in.get(fr, &p.ops[0])))
	case *ssa.MultiConvert:
		set(in.convert(x.X.Type(), x.Type(), in.get(fr, &p.ops[0])))
	case *ssa.SliceToArrayPointer:
		s := in.get(fr, &p.ops[0]).(Slice)
		n := int(under(under(x.Type()).(*types.Pointer).Elem()).(*types.Array).Len())
		if len(s) < n {
			in.tpanic("runtime error: cannot convert slice to array pointer")
		}
		var v Value = Array(s[:n:n])
		set(Ptr(&v))
	case *ssa.Extract:
		set(in.get(fr, &p.ops[0]).(Tuple)[x.Index])
	case *ssa.Field:
		set(in.get(fr, &p.ops[0]).(Struct)[x.Field])
	case *ssa.FieldAddr:
		pv := in.get(fr, &p.ops[0])
		ptr, ok := pv.(Ptr)
		if !ok {
			in.unsupported("fieldaddr of %T", pv)
		}
		if ptr == nil {
			in.tpanic("runtime error: invalid memory address or nil pointer dereference")
		}
		st, ok := (*ptr).(Struct)
		if !ok {
			in.unsupported("fieldaddr of non struct %T", *ptr)
		}
		set(Ptr(&st[x.Field]))
	case *ssa.Index:
		base := in.get(fr, &p.ops[0])
		idx := in.get(fr, &p.ops[1]).(*Term)
		switch b := base.(type) {
		case Array:
			k, sym := in.index(idx, x.Index.Type(), len(b), scalars(b))
			if sym != nil {
				set(in.selectIdx(b, sym))
			} else {
				set(copyVal(b[k]))
			}
		case Str:
			set(in.strIndex(b, idx, x.Index.Type()))
		default:
			in.unsupported("index of %T", base)
		}
	case *ssa.IndexAddr:
		base := in.get(fr, &p.ops[0])
		idx := in.get(fr, &p.ops[1]).(*Term)
		var vs []Value
		switch b := base.(type) {
		case Slice:
			vs = b
		case Ptr:
			if b == nil {
				in.tpanic("runtime error: invalid memory address or nil pointer dereference")
			}
			vs = (*b).(Array)
		default:
			in.unsupported("indexaddr of %T", base)
		}
		if idx.isConst() {
			k := int64(idx.val)
			if isSigned(x.Index.Type()) {
				k = idx.sval()
			}
			if k < 0 || k >= int64(len(vs)) {
				in.tpanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", k, len(vs)))
			}
			set(Ptr(&vs[k]))
			return
		}
		k, sym := in.index(idx, x.Index.Type(), len(vs), scalars(vs) && len(vs) <= 1024)
		if sym != nil {
			set(&SymPtr{base: vs, idx: sym})
		} else {
			set(Ptr(&vs[k]))
		}
	case *ssa.Lookup:
		base := in.get(fr, &p.ops[0])
		key := in.get(fr, &p.ops[1])
		switch b := base.(type) {
		case Str:
			set(in.strIndex(b, key.(*Term), x.Index.Type()))
		case *Map:
			var v Value
			ok := termFalse
			if b != nil {
				if e := in.mapFind(b, key); e != nil {
					v = copyVal(e.v)
					ok = termTrue
				}
			}
			if v == nil {
				v = zero(under(x.X.Type()).(*types.Map).Elem())
			}
			if x.CommaOk {
				set(Tuple{v, ok})
			} else {
				set(v)
			}
		default:
			in.unsupported("lookup of %T", base)
		}
	case *ssa.MapUpdate:
		m, _ := in.get(fr, &p.ops[0]).(*Map)
		if m == nil {
			in.tpanic("assignment to entry in nil map")
		}
		in.mapSet(m, in.get(fr, &p.ops[1]), in.get(fr, &p.ops[2]))
	case *ssa.MakeMap:
		set(newMap(under(x.Type()).(*types.Map).Key()))
	case *ssa.MakeSlice:
		n := in.concInt(in.get(fr, &p.ops[0]).(*Term), "make len")
		c := in.concInt(in.get(fr, &p.ops[1]).(*Term), "make cap")
		if n < 0 || n > 1<<26 {
			in.tpanic("runtime error: makeslice: len out of range")
		}
		if c < n || c > 1<<26 {
			in.tpanic("runtime error: makeslice: cap out of range")
		}
		s := make(Slice, c)
		et := under(x.Type()).(*types.Slice).Elem()
		fillZero(s, et)
		set(s[:n])
	case *ssa.MakeClosure:
		c := &Closure{fn: x.Fn.(*ssa.Function)}
		for k := 1; k < len(p.ops); k++ {
			c.env = append(c.env, in.get(fr, &p.ops[k]))
		}
		set(c)
	case *ssa.Slice:
		set(in.slice(fr, p, x))
	case *ssa.TypeAssert:
		set(in.typeAssert(x, in.get(fr, &p.ops[0])))
	case *ssa.Range:
		set(in.rangeIter(in.get(fr, &p.ops[0])))
	case *ssa.Next:
		set(in.next(x, in.get(fr, &p.ops[0])))
	case *ssa.Phi:
		// only reached when the entry block has phis (impossible)
		panic("phi")
	case *ssa.MakeChan:
		set(&Native{kind: "chan"})
	default:
		in.unsupported("instruction %T", i)
	}
}

func fillZero(s []Value, et types.Type) {
	if len(s) == 0 {
		return
	}
	z := zero(et)
	_, a := z.(Struct)
	_, b := z.(Array)
	for k := range s {
		if a || b {
			s[k] = copyVal(z)
		} else {
			s[k] = z
		}
	}
}

// index checks bounds and returns a concrete index or the symbolic one.
func (in *Interp) index(idx *Term, t types.Type, n int, symOK bool) (int, *Term) {
	if idx.isConst() {
		k := int64(idx.val)
		if isSigned(t) {
			k = idx.sval()
		}
		if k < 0 || k >= int64(n) {
			in.tpanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", k, n))
		}
		return int(k), nil
	}
	i64 := in.to64(idx, t)
	ok := in.pool.Bin(OULt, i64, mkInt(int64(n)))
	if !in.branch(ok) {
		in.tpanic(fmt.Sprintf("runtime error: index out of range with length %d", n))
	}
	if symOK {
		return 0, i64
	}
	return int(in.concretize(i64, "index")), nil
}

func (in *Interp) to64(t *Term, ty types.Type) *Term {
	if isSigned(ty) {
		return in.pool.SExt(t, 64)
	}
	return in.pool.ZExt(t, 64)
}

func (in *Interp) strIndex(s Str, idx *Term, t types.Type) Value {
	if s.sym == nil && idx.isConst() {
		k, _ := in.index(idx, t, len(s.s), false)
		return mkByte(s.s[k])
	}
	k, sym := in.index(idx, t, s.Len(), true)
	if sym == nil {
		return s.At(k)
	}
	bs := s.Bytes()
	vs := make([]Value, len(bs))
	for i := range bs {
		vs[i] = bs[i]
	}
	return in.selectIdx(vs, sym)
}

func (in *Interp) concInt(t *Term, what string) int64 {
	if t.isConst() {
		return t.sval()
	}
	v := in.concretize(t, what)
	return signed(v, int(t.w))
}

func (in *Interp) slice(fr *frame, p *pinstr, x *ssa.Slice) Value {
	base := in.get(fr, &p.ops[0])
	geti := func(k int) (int64, bool) {
		if p.ops[k].slot == -1 && p.ops[k].val == nil {
			return 0, false
		}
		t := in.get(fr, &p.ops[k]).(*Term)
		if t.w < 64 {
			var ty types.Type
			switch k {
			case 1:
				ty = x.Low.Type()
			case 2:
				ty = x.High.Type()
			default:
				ty = x.Max.Type()
			}
			t = in.to64(t, ty)
		}
		return in.concInt(t, "slice bound"), true
	}
	lo, _ := geti(1)
	hi, hasHi := geti(2)
	mx, hasMax := geti(3)
	oob := func(what string, a, b int64) {
		in.tpanic(fmt.Sprintf("runtime error: slice bounds out of range [%s %d:%d]", what, a, b))
	}
	switch b := base.(type) {
	case Str:
		n := int64(b.Len())
		if !hasHi {
			hi = n
		}
		if hi < 0 || hi > n || lo < 0 || lo > hi {
			oob("string", lo, hi)
		}
		return b.Slice(int(lo), int(hi))
	case Slice:
		if !hasHi {
			hi = int64(len(b))
		}
		if !hasMax {
			mx = int64(cap(b))
		}
		if mx < 0 || mx > int64(cap(b)) || hi < 0 || hi > mx || lo < 0 || lo > hi {
			oob("slice", lo, hi)
		}
		if b == nil {
			return Slice(nil)
		}
		return b[lo:hi:mx]
	case Ptr:
		if b == nil {
			in.tpanic("runtime error: invalid memory address or nil pointer dereference")
		}
		a := (*b).(Array)
		if !hasHi {
			hi = int64(len(a))
		}
		if !hasMax {
			mx = int64(len(a))
		}
		if mx < 0 || mx > int64(len(a)) || hi < 0 || hi > mx || lo < 0 || lo > hi {
			oob("array", lo, hi)
		}
		if len(a) == 0 {
			return Slice(make([]Value, 0))
		}
		return Slice(a[lo:hi:mx])
	}
	in.unsupported("slice of %T", base)
	return nil
}

func (in *Interp) typeAssert(x *ssa.TypeAssert, v Value) Value {
	i, ok := v.(Iface)
	if !ok {
		in.unsupported("typeassert on %T", v)
	}
	hit := false
	var res Value
	if it, isI := under(x.AssertedType).(*types.Interface); isI {
		if i.T != nil && in.implements(i.T, it) {
			hit = true
			res = i
		}
	} else if i.T != nil && (i.T == x.AssertedType || types.Identical(i.T, x.AssertedType)) {
		hit = true
		res = copyVal(i.V)
	}
	if x.CommaOk {
		if !hit {
			res = zero(x.AssertedType)
		}
		return Tuple{res, mkBool(hit)}
	}
	if !hit {
		ts := "nil"
		if i.T != nil {
			ts = i.T.String()
		}
		in.tpanic(fmt.Sprintf("interface conversion: interface is %s, not %s", ts, x.AssertedType))
	}
	return res
}

type mapIter struct {
	m    *Map
	todo []*mapEntry
	pos  int
}

type strIter struct {
	s   Str
	pos int
}

func (in *Interp) rangeIter(v Value) Value {
	switch x := v.(type) {
	case *Map:
		it := &mapIter{m: x}
		if x != nil {
			for _, e := range x.entries {
				if !e.dead {
					it.todo = append(it.todo, e)
				}
			}
		}
		if in.mapMode == 1 {
			for i, j := 0, len(it.todo)-1; i < j; i, j = i+1, j-1 {
				it.todo[i], it.todo[j] = it.todo[j], it.todo[i]
			}
		}
		return &Native{kind: "mapiter", x: it}
	case Str:
		return &Native{kind: "striter", x: &strIter{s: x}}
	}
	in.unsupported("range over %T", v)
	return nil
}

func (in *Interp) next(x *ssa.Next, v Value) Value {
	n := v.(*Native)
	switch it := n.x.(type) {
	case *mapIter:
		tt := x.Type().(*types.Tuple)
		for it.pos < len(it.todo) {
			if in.mapMode == 2 && len(it.todo)-it.pos > 1 {
				k := in.choose(len(it.todo)-it.pos, "map order")
				it.todo[it.pos], it.todo[it.pos+k] = it.todo[it.pos+k], it.todo[it.pos]
			}
			e := it.todo[it.pos]
			it.pos++
			if e.dead {
				continue
			}
			return Tuple{termTrue, copyVal(e.k), copyVal(e.v)}
		}
		z := func(t types.Type) Value {
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				return nil
			}
			return zero(t)
		}
		return Tuple{termFalse, z(tt.At(1).Type()), z(tt.At(2).Type())}
	case *strIter:
		if it.pos >= it.s.Len() {
			return Tuple{termFalse, mkConst(64, 0), mkConst(32, 0)}
		}
		r, size := in.decodeRune(it.s, it.pos)
		p := it.pos
		it.pos += size
		return Tuple{termTrue, mkConst(64, uint64(p)), r}
	}
	in.unsupported("next on %s", n.kind)
	return nil
}

// decodeRune decodes the rune at position p (symbolic bytes fork on ASCII / multi-byte).
func (in *Interp) decodeRune(s Str, p int) (*Term, int) {
	b := s.At(p)
	if in.branch(in.pool.Bin(OULt, b, mkConst(8, 0x80))) {
		return in.pool.ZExt(b, 32), 1
	}
	rest := s.Slice(p, min(s.Len(), p+4))
	if rest.sym == nil {
		r, n := decodeRuneNative(rest.s)
		return mkConst(32, uint64(uint32(r))), n
	}
	f := in.eng.lookupFunc("unicode/utf8", "DecodeRuneInString")
	t := in.call(f, []Value{rest}, nil).(Tuple)
	return t[0].(*Term), int(in.concInt(t[1].(*Term), "rune size"))
}

// ---- maps ----

func (in *Interp) mapFind(m *Map, key Value) *mapEntry {
	ck, conc := concreteKey(key)
	if conc {
		if i, ok := m.idx[ck]; ok {
			return m.entries[i]
		}
		if m.symKeys == 0 {
			return nil
		}
	}
	for _, e := range m.entries {
		if e.dead {
			continue
		}
		if conc {
			if _, c2 := concreteKey(e.k); c2 {
				continue
			}
		}
		if in.branch(in.eq(m.keyT, e.k, key)) {
			return e
		}
	}
	return nil
}

func (in *Interp) mapSet(m *Map, key, v Value) {
	if e := in.mapFind(m, key); e != nil {
		old := e.v
		in.onUndo(func() { e.v = old })
		e.v = copyVal(v)
		return
	}
	e := &mapEntry{k: copyVal(key), v: copyVal(v)}
	n := len(m.entries)
	m.entries = append(m.entries, e)
	m.n++
	if ck, ok := concreteKey(key); ok {
		m.idx[ck] = n
		in.onUndo(func() { delete(m.idx, ck); m.entries = m.entries[:n]; m.n-- })
	} else {
		m.symKeys++
		in.onUndo(func() { m.symKeys--; m.entries = m.entries[:n]; m.n-- })
	}
}

func (in *Interp) mapDelete(m *Map, key Value) {
	if m == nil {
		return
	}
	e := in.mapFind(m, key)
	if e == nil {
		return
	}
	e.dead = true
	m.n--
	if ck, ok := concreteKey(e.k); ok {
		i := m.idx[ck]
		delete(m.idx, ck)
		in.onUndo(func() { e.dead = false; m.n++; m.idx[ck] = i })
	} else {
		m.symKeys--
		in.onUndo(func() { e.dead = false; m.n++; m.symKeys++ })
	}
}

// ---- calls ----

func (in *Interp) prepInvoke(fr *frame, p *pinstr, c *ssa.CallCommon) (*ssa.Function, []Value) {
	recv := in.get(fr, &p.ops[0])
	i, ok := recv.(Iface)
	if !ok {
		in.unsupported("invoke on %T", recv)
	}
	if i.T == nil {
		in.tpanic("runtime error: invalid memory address or nil pointer dereference (nil interface method " + c.Method.Name() + ")")
	}
	f := in.method(i.T, c.Method)
	if f == nil {
		in.unsupported("no method %s on %s", c.Method, i.T)
	}
	args := make([]Value, len(p.ops))
	args[0] = copyVal(i.V)
	for k := 1; k < len(p.ops); k++ {
		args[k] = in.get(fr, &p.ops[k])
	}
	return f, args
}

func (in *Interp) doCall(fr *frame, p *pinstr, c *ssa.CallCommon) Value {
	if c.IsInvoke() {
		f, args := in.prepInvoke(fr, p, c)
		return in.call(f, args, nil)
	}
	fv := in.get(fr, &p.ops[0])
	args := make([]Value, len(p.ops)-1)
	for k := range args {
		args[k] = in.get(fr, &p.ops[k+1])
	}
	cl, ok := fv.(*Closure)
	if !ok || cl == nil {
		in.tpanic("runtime error: invalid memory address or nil pointer dereference (nil func)")
	}
	if cl.bi != nil {
		return in.builtin(fr, cl.bi, c, args)
	}
	return in.callValue(cl, args)
}

func (in *Interp) builtin(fr *frame, b *ssa.Builtin, c *ssa.CallCommon, args []Value) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Str:
			return mkInt(int64(x.Len()))
		case Slice:
			return mkInt(int64(len(x)))
		case Array:
			return mkInt(int64(len(x)))
		case *Map:
			if x == nil {
				return mkInt(0)
			}
			return mkInt(int64(x.n))
		case Ptr:
			return mkInt(int64(len((*x).(Array))))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return mkInt(int64(cap(x)))
		case Array:
			return mkInt(int64(len(x)))
		case Ptr:
			return mkInt(int64(len((*x).(Array))))
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s := args[0].(Slice)
		var add []Value
		switch y := args[1].(type) {
		case Slice:
			add = y
		case Str:
			add = termsToVals(y.Bytes())
		}
		return in.appendVals(s, add, under(c.Args[0].Type()).(*types.Slice).Elem())
	case "copy":
		d := args[0].(Slice)
		var src []Value
		switch y := args[1].(type) {
		case Slice:
			src = y
		case Str:
			src = termsToVals(y.Bytes())
		}
		n := min(len(d), len(src))
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			in.store(&d[i], tmp[i])
		}
		return mkInt(int64(n))
	case "delete":
		in.mapDelete(args[0].(*Map), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				for _, e := range x.entries {
					if !e.dead {
						in.mapDelete(x, e.k)
					}
				}
			}
			return nil
		case Slice:
			z := zero(under(c.Args[0].Type()).(*types.Slice).Elem())
			for i := range x {
				in.store(&x[i], copyVal(z))
			}
			return nil
		}
	case "print", "println":
		return nil
	case "panic":
		panic(&targetPanic{v: args[0], msg: "panic: " + in.panicText(args[0])})
	case "recover":
		// the frame being unwound is the caller of the deferred function
		if n := len(in.frames); n >= 2 {
			pf := in.frames[n-2]
			if pf.panicking != nil {
				v := pf.panicking.v
				pf.panicking = nil
				return v
			}
		}
		return Iface{}
	case "min", "max":
		t := c.Args[0].Type()
		r := args[0]
		for _, a := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			if in.branch(in.binop(op, t, t, a, r).(*Term)) {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p == nil {
			in.tpanic("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String
		return in.unsafeString(args)
	case "StringData", "SliceData":
		return &Native{kind: "data", x: args[0]}
	case "Slice":
		if nt, ok := args[0].(*Native); ok && nt.kind == "data" {
			n := int(in.concInt(args[1].(*Term), "unsafe.Slice"))
			switch y := nt.x.(type) {
			case Str:
				return Slice(termsToVals(y.Bytes()[:n]))
			case Slice:
				return y[:n]
			}
		}
	}
	in.unsupported("builtin %s on %T", b.Name(), args[0])
	return nil
}

func (in *Interp) unsafeString(args []Value) Value {
	n := int(in.concInt(args[1].(*Term), "unsafe.String"))
	if nt, ok := args[0].(*Native); ok && nt.kind == "data" {
		switch y := nt.x.(type) {
		case Str:
			return y.Slice(0, n)
		case Slice:
			return valsToStr(y[:n])
		}
	}
	if n == 0 {
		return Str{}
	}
	in.unsupported("unsafe.String")
	return nil
}

func termsToVals(ts []*Term) []Value {
	out := make([]Value, len(ts))
	for i, t := range ts {
		out[i] = t
	}
	return out
}

func valsToTerms(vs []Value) []*Term {
	out := make([]*Term, len(vs))
	for i, v := range vs {
		out[i] = v.(*Term)
	}
	return out
}

func valsToStr(vs []Value) Str { return mkStr(valsToTerms(vs)) }

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundSize(n int) int {
	for _, c := range sizeClasses {
		if c >= n {
			return c
		}
	}
	return (n + 8191) / 8192 * 8192
}

// growCap mimics runtime.growslice so that append aliasing behaves as in the real program.
func growCap(oldCap, newLen, esz int) int {
	nc := oldCap
	dbl := nc + nc
	if newLen > dbl {
		nc = newLen
	} else if oldCap < 256 {
		nc = dbl
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	if esz == 0 {
		return newLen
	}
	return roundSize(nc*esz) / esz
}

func (in *Interp) appendVals(s Slice, add []Value, et types.Type) Slice {
	if len(add) == 0 {
		return s
	}
	n := len(s) + len(add)
	tmp := make([]Value, len(add))
	for i := range add {
		tmp[i] = copyVal(add[i])
	}
	if n <= cap(s) {
		full := s[:n]
		for i, v := range tmp {
			p := &full[len(s)+i]
			if in.inPath {
				in.trail = append(in.trail, trailEnt{p, *p})
			}
			*p = v
		}
		return full
	}
	c := growCap(cap(s), n, int(in.eng.sizes.Sizeof(et)))
	if c < n {
		c = n
	}
	ns := make(Slice, c)
	copy(ns, s)
	copy(ns[len(s):], tmp)
	if c > n {
		fillZero(ns[n:], et)
	}
	return ns[:n]
}
