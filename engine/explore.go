package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// workItem is an unexplored decision prefix.
type workItem struct {
	prefix []Decision
	model  *Model
	lazy   bool // feasibility not yet checked
}

// harnessRun accumulates the results of one harness.
type harnessRun struct {
	name string
	fn   *ssa.Function

	mu       sync.Mutex
	work     []workItem
	active   int
	stopped  bool
	deadline time.Time

	Paths, Complete, Infeasible, Unsupported, Limited int64
	Steps                                             int64
	Branches                                          int64
	Obligations, Trivial, Discharged, Unknown         int64
	Reach                                             map[string]int64
	Bounds                                            map[string]bool
	Assumes                                           map[string]bool
	UnsupportedMsgs                                   map[string]int64
	candidates                                        map[string][]candidate
	fnMu                                              sync.Mutex
	fns                                               map[*fnInfo]bool
	traces                                            []trace
	maxTraces                                         int
	abandoned                                         int
	Wall                                              time.Duration
}

type trace struct {
	Inputs []inputVal
	Obs    []string
	Reach  []string
}

func (r *harnessRun) touch(fi *fnInfo) {
	if fi.touched.Load() == r {
		return
	}
	fi.touched.Store(r)
	r.fnMu.Lock()
	r.fns[fi] = true
	r.fnMu.Unlock()
}

// ---- decisions ----

func (in *Interp) replaying() bool { return in.pos < len(in.prefix) }

func (in *Interp) push(d Decision, m *Model, lazy bool) {
	p := make([]Decision, len(in.log)+1)
	copy(p, in.log)
	p[len(in.log)] = d
	in.run.mu.Lock()
	in.run.work = append(in.run.work, workItem{p, m, lazy})
	in.run.mu.Unlock()
}

func (in *Interp) addPC(t *Term) {
	if t.isTrue() {
		return
	}
	if t.op == OAnd {
		for _, a := range t.args {
			in.addPC(a)
		}
		return
	}
	if in.pcSet[t] {
		return
	}
	in.pcSet[t] = true
	in.solver.assume(t)
	if in.model != nil {
		if v, ok := in.model.eval(t); !ok || v != 1 {
			in.model = nil
		}
	}
}

func (in *Interp) endInfeasible() { panic(pathEnd{"infeasible", ""}) }

// ensureModel makes sure the path condition has a model (or ends the path).
func (in *Interp) ensureModel() bool {
	if in.model != nil {
		return true
	}
	r, m := in.check(nil, true)
	switch r {
	case SatYes:
		in.model = m
		return m != nil
	case SatNo:
		in.endInfeasible()
	default:
		in.run.mu.Lock()
		in.run.Unknown++
		in.run.mu.Unlock()
	}
	return false
}

// sameDecision stops the run when a replayed path does not meet the decisions it recorded.
func (in *Interp) sameDecision(d Decision, kind uint8) {
	if uint8(d.kind) != kind || d.step != in.steps {
		panic(fmt.Sprintf("replay divergence in %s at decision %d: kind %d at step %d, recorded kind %d at step %d", in.run.name, in.pos-1, kind, in.steps, d.kind, d.step))
	}
}

func (in *Interp) branch(c *Term) bool {
	if c.op == OConst {
		return c.val == 1
	}
	if !in.inPath {
		in.unsupported("symbolic branch outside a path")
	}
	if in.pcSet[c] {
		return true
	}
	nc := in.pool.Not(c)
	if in.pcSet[nc] {
		return false
	}
	if in.replaying() {
		d := in.prefix[in.pos]
		in.pos++
		in.sameDecision(d, 0)
		in.log = append(in.log, d)
		if d.v == 1 {
			if !d.implied {
				in.addPC(c)
			}
			return true
		}
		if !d.implied {
			in.addPC(nc)
		}
		return false
	}
	in.checkTime()
	side := true
	known := false
	if in.ensureModel() {
		if v, ok := in.model.eval(c); ok {
			side = v == 1
			known = true
		}
	}
	if !known {
		r, m := in.check(c, true)
		if r == SatYes && m != nil {
			in.model = m
			known = true
			side = true
		} else if r == SatNo {
			in.log = append(in.log, Decision{kind: 0, v: 0, implied: true, step: in.steps})
			return false
		} else {
			side = true
		}
	}
	oc := nc
	ov := uint64(0)
	sv := uint64(1)
	if !side {
		oc = c
		ov, sv = 1, 0
	}
	r, m := in.check(oc, true)
	if r == SatNo {
		in.log = append(in.log, Decision{kind: 0, v: sv, implied: true, step: in.steps})
		return side
	}
	if r == SatUnknown {
		if os.Getenv("VERIF_DEBUG") != "" {
			t := oc.String()
			if len(t) > 300 {
				t = t[:300]
			}
			fmt.Fprintf(os.Stderr, "unknown branch at %s: %s\n", in.where(), t)
		}
		in.run.mu.Lock()
		in.run.Unknown++
		in.run.mu.Unlock()
	}
	in.push(Decision{kind: 0, v: ov, step: in.steps}, m, m == nil)
	in.log = append(in.log, Decision{kind: 0, v: sv, step: in.steps})
	in.run.mu.Lock()
	in.run.Branches++
	in.run.mu.Unlock()
	if side {
		in.addPC(c)
	} else {
		in.addPC(nc)
	}
	return side
}

// choose makes an explicit n-way choice.
func (in *Interp) choose(n int, what string) int {
	if n <= 1 {
		return 0
	}
	if !in.inPath {
		in.unsupported("choice outside a path")
	}
	if in.replaying() {
		d := in.prefix[in.pos]
		in.pos++
		in.sameDecision(d, 1)
		in.log = append(in.log, d)
		return int(d.v)
	}
	in.checkTime()
	for k := n - 1; k >= 1; k-- {
		in.push(Decision{kind: 1, v: uint64(k), step: in.steps}, in.model, in.model == nil)
	}
	in.run.mu.Lock()
	in.run.Branches++
	in.run.mu.Unlock()
	in.log = append(in.log, Decision{kind: 1, v: 0, step: in.steps})
	return 0
}

// concretize forks on the feasible values of t.
func (in *Interp) concretize(t *Term, what string) uint64 {
	if t.isConst() {
		return t.val
	}
	if !in.inPath {
		in.unsupported("concretize outside a path")
	}
	w := int(t.w)
	tries := 0
	for {
		tries++
		if tries > 80 {
			panic(pathEnd{"limit", "concretisation limit: " + what})
		}
		if in.replaying() {
			d := in.prefix[in.pos]
			in.pos++
			in.sameDecision(d, 2)
			in.log = append(in.log, d)
			e := in.pool.Eq(t, mkConst(w, d.v))
			if d.eq {
				if !d.implied {
					in.addPC(e)
				}
				return d.v
			}
			in.addPC(in.pool.Not(e))
			continue
		}
		in.checkTime()
		if !in.ensureModel() {
			panic(pathEnd{"limit", "no model for " + what})
		}
		v, ok := in.model.eval(t)
		if !ok {
			panic(pathEnd{"limit", "cannot evaluate " + what})
		}
		e := in.pool.Eq(t, mkConst(w, v))
		r, m := in.check(in.pool.Not(e), true)
		if r == SatNo {
			in.log = append(in.log, Decision{kind: 2, v: v, eq: true, implied: true, step: in.steps})
			return v
		}
		in.push(Decision{kind: 2, v: v, eq: false, step: in.steps}, m, m == nil)
		in.log = append(in.log, Decision{kind: 2, v: v, eq: true, step: in.steps})
		in.addPC(e)
		return v
	}
}

func (in *Interp) checkTime() {
	if time.Now().After(in.run.deadline) {
		panic(pathEnd{"stop", "time budget"})
	}
}

// assumeCond restricts the path.
func (in *Interp) assumeCond(c *Term) {
	if c.isConst() {
		if c.val == 0 {
			in.endInfeasible()
		}
		return
	}
	if in.replaying() {
		in.addPC(c)
		return
	}
	if in.model != nil {
		if v, ok := in.model.eval(c); ok && v == 1 {
			in.addPC(c)
			return
		}
	}
	r, m := in.check(c, true)
	if r == SatNo {
		in.endInfeasible()
	}
	in.addPC(c)
	in.model = m
}

// assertCond is a proof obligation.
func (in *Interp) assertCond(c *Term, label string) {
	R := in.run
	if c.isTrue() || in.pcSet[c] {
		if !in.replaying() {
			R.mu.Lock()
			R.Obligations++
			R.Trivial++
			R.mu.Unlock()
		}
		return
	}
	if in.replaying() {
		d := in.prefix[in.pos]
		in.pos++
		in.sameDecision(d, 3)
		in.log = append(in.log, d)
		if !d.implied {
			in.addPC(c)
		}
		return
	}
	R.mu.Lock()
	R.Obligations++
	R.mu.Unlock()
	if c.isFalse() {
		in.violation(label, "assertion is false on this path", nil)
		in.endInfeasible()
	}
	r, m := in.check(in.pool.Not(c), true)
	in.log = append(in.log, Decision{kind: 3, implied: r == SatNo, step: in.steps})
	switch r {
	case SatNo:
		R.mu.Lock()
		R.Discharged++
		R.mu.Unlock()
		return
	case SatYes:
		in.violation(label, "assertion can be false", m)
		// continue with the paths on which it holds
		in.assumeCond(c)
	default:
		R.mu.Lock()
		R.Unknown++
		R.mu.Unlock()
		in.assumeCond(c)
	}
}

// violation records a candidate counterexample for the model (nil: any model of the path).
func (in *Interp) violation(label, detail string, m *Model) {
	R := in.run
	R.mu.Lock()
	n := len(R.candidates[label])
	R.mu.Unlock()
	if n >= 4 {
		return
	}
	if m == nil {
		if !in.ensureModel() {
			return
		}
		m = in.model
	}
	c := candidate{Label: label, Detail: detail, Inputs: in.inputs(m)}
	R.mu.Lock()
	R.candidates[label] = append(R.candidates[label], c)
	R.mu.Unlock()
}

func (in *Interp) inputs(m *Model) []inputVal {
	var out []inputVal
	for _, n := range in.nondets {
		iv := inputVal{Name: n.Name, Kind: n.Kind}
		switch x := n.v.(type) {
		case *Term:
			v, _ := m.eval(x)
			iv.U = v
		case []*Term:
			iv.S = []int{}
			for _, b := range x {
				v, _ := m.eval(b)
				iv.S = append(iv.S, int(v&255))
			}
		}
		out = append(out, iv)
	}
	return out
}

// ---- workers ----

func (in *Interp) runPath(w workItem) {
	R := in.run
	in.pool = newPool()
	in.solver.beginPath(in.pool)
	in.prefix = w.prefix
	in.pos = 0
	in.log = in.log[:0]
	in.model = w.model
	if len(w.prefix) == 0 {
		in.model = &Model{v: map[string]uint64{}, wide: map[string][]byte{}}
	}
	in.pcSet = map[*Term]bool{}
	in.steps = 0
	in.stepLimit = in.eng.maxSteps
	in.depth = 0
	in.frames = in.frames[:0]
	in.nvar = 0
	in.nondets = nil
	in.hashes = nil
	in.files = map[string]Str{}
	in.nAxioms = 0
	in.mapMode = 0
	in.natSt = map[string]interface{}{}
	in.obs = nil
	in.inPath = true
	reach := map[string]bool{}
	in.natSt["reach"] = reach
	kind := "complete"
	msg := ""
	savedModel := w.model
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case pathEnd:
					kind, msg = x.kind, x.msg
				case *targetPanic:
					kind, msg = "panic", x.msg
				default:
					if os.Getenv("VERIF_DEBUG") != "" {
						fmt.Fprintf(os.Stderr, "engine panic: %v\n%s\n", r, debug.Stack())
					}
					kind, msg = "unsupported", fmt.Sprintf("engine: %v", r)
					for i := len(in.frames) - 1; i >= 0 && i >= len(in.frames)-3; i-- {
						msg += " < " + in.frames[i].fi.name
					}
				}
			}
		}()
		_ = savedModel
		in.call(R.fn, nil, nil)
	}()
	stack := ""
	for i := len(in.frames) - 1; i >= 0 && i >= len(in.frames)-5; i-- {
		stack += " < " + in.frames[i].fi.name
	}
	finish := func() (k string) {
		defer func() {
			if r := recover(); r != nil {
				if pe, ok := r.(pathEnd); ok {
					k = pe.kind
					return
				}
				panic(r)
			}
		}()
		switch kind {
		case "complete":
			in.ensureModel()
			return "complete"
		case "panic":
			in.ensureModel()
			in.violation("no-panic", msg+stack, nil)
			R.mu.Lock()
			R.Obligations++
			R.mu.Unlock()
			return "panic"
		case "stack", "limit":
			if strings.HasPrefix(msg, "step limit") || kind == "stack" {
				in.ensureModel()
				in.violation("terminates", msg, nil)
			}
			return kind
		}
		return kind
	}()
	R.mu.Lock()
	R.Paths++
	R.Steps += in.steps
	switch finish {
	case "complete", "panic":
		R.Complete++
		for l := range reach {
			R.Reach[l]++
		}
		if finish == "complete" && in.model != nil && R.maxTraces > 0 {
			// deterministic reservoir: keep traces spread over the exploration
			keep := len(R.traces) < R.maxTraces
			slot := len(R.traces)
			if !keep {
				h := mix(uint64(R.Complete)*0x9e3779b97f4a7c15 + uint64(in.eng.seed))
				if h%uint64(R.Complete) < uint64(R.maxTraces) {
					keep = true
					slot = int(h % uint64(R.maxTraces))
				}
			}
			if keep {
				t := trace{Inputs: in.inputs(in.model)}
				bad := false
				for _, o := range in.obs {
					s := render(o.v, in.model)
					if strings.Contains(s, "?") && s == "?" {
						bad = true
					}
					t.Obs = append(t.Obs, o.label+"="+s)
				}
				for l := range reach {
					t.Reach = append(t.Reach, l)
				}
				sort.Strings(t.Reach)
				if !bad {
					if slot == len(R.traces) {
						R.traces = append(R.traces, t)
					} else {
						R.traces[slot] = t
					}
				}
			}
		}
	case "infeasible":
		R.Infeasible++
	case "unsupported":
		R.Unsupported++
		R.UnsupportedMsgs[msg]++
	case "stop":
		R.abandoned++
		R.stopped = true
	default:
		R.Limited++
		R.UnsupportedMsgs[kind+": "+msg]++
	}
	R.mu.Unlock()
	in.inPath = false
	in.undo()
}

func mix(x uint64) uint64 {
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	x *= 0xc4ceb9fe1a85ec53
	x ^= x >> 33
	return x
}

func (r *harnessRun) take() (workItem, bool) {
	for {
		r.mu.Lock()
		if r.stopped || (len(r.work) == 0 && r.active == 0) {
			r.mu.Unlock()
			return workItem{}, false
		}
		if len(r.work) > 0 {
			// LIFO keeps the frontier small; feasibility of lazy items is checked on the way
			w := r.work[len(r.work)-1]
			r.work = r.work[:len(r.work)-1]
			r.active++
			r.mu.Unlock()
			return w, true
		}
		r.mu.Unlock()
		time.Sleep(200 * time.Microsecond)
	}
}

func (r *harnessRun) release() {
	r.mu.Lock()
	r.active--
	r.mu.Unlock()
}

// explore runs a harness to completion on the given workers.
func (e *Engine) explore(fn *ssa.Function, workers []*Interp, budget time.Duration, maxTraces int) *harnessRun {
	R := &harnessRun{name: fn.Name(), fn: fn, Reach: map[string]int64{}, Bounds: map[string]bool{}, Assumes: map[string]bool{},
		UnsupportedMsgs: map[string]int64{}, candidates: map[string][]candidate{}, fns: map[*fnInfo]bool{}, maxTraces: maxTraces}
	t0 := time.Now()
	R.deadline = t0.Add(budget)
	R.work = []workItem{{}}
	var wg sync.WaitGroup
	for _, in := range workers {
		wg.Add(1)
		go func(in *Interp) {
			defer wg.Done()
			in.run = R
			for {
				w, ok := R.take()
				if !ok {
					return
				}
				in.runPath(w)
				R.release()
			}
		}(in)
	}
	wg.Wait()
	if R.stopped {
		R.abandoned += len(R.work)
	}
	R.Wall = time.Since(t0)
	return R
}

// where names the innermost frames.
func (in *Interp) where() string {
	s := ""
	for i := len(in.frames) - 1; i >= 0 && i >= len(in.frames)-4; i-- {
		s += " < " + in.frames[i].fi.name
	}
	return s
}
