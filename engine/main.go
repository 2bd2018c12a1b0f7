package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	virtDir  = "zz_verif"
	vtSuffix = "/" + virtDir + "/vt"
)

type config struct {
	repo, verif, prop, tier, solver string
	seed                            int64
	workers, level                  int
	budget                          time.Duration
	only                            string
	strict, verbose                 bool
}

func goEnv() []string {
	env := os.Environ()
	set := func(k, v string) {
		for i, e := range env {
			if strings.HasPrefix(e, k+"=") {
				env[i] = k + "=" + v
				return
			}
		}
		env = append(env, k+"="+v)
	}
	set("GOTOOLCHAIN", "local")
	set("GOPROXY", "off")
	set("GOFLAGS", "-mod=vendor")
	set("GOWORK", "off")
	set("GOENV", "off")
	set("CGO_ENABLED", "0")
	return env
}

// overlay maps every harness file into a virtual directory of the repository.
func overlay(c *config) (map[string]string, error) {
	out := map[string]string{}
	root := filepath.Join(c.verif, "harness")
	err := filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if !i.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(root, p)
			out[filepath.Join(c.repo, virtDir, rel)] = p
		}
		return nil
	})
	return out, err
}

func modulePath(repo string) string {
	b, _ := os.ReadFile(filepath.Join(repo, "go.mod"))
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "module ") {
			return strings.TrimSpace(strings.TrimPrefix(l, "module "))
		}
	}
	return ""
}

func fatal(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "ERROR: "+format+"\n", a...)
	os.Exit(2)
}

func main() {
	if os.Getenv("GOGC") == "" {
		debug.SetGCPercent(400)
		debug.SetMemoryLimit(12 << 30)
	}
	c := &config{}
	flag.StringVar(&c.repo, "repo", "/repo", "repository")
	flag.StringVar(&c.verif, "verif", "/verif", "verification directory")
	flag.StringVar(&c.tier, "tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	flag.StringVar(&c.solver, "solver", "z3", "solver binary")
	flag.IntVar(&c.workers, "workers", 0, "workers")
	flag.DurationVar(&c.budget, "budget", 0, "time budget for all harnesses")
	flag.StringVar(&c.only, "only", "", "run only this harness")
	flag.BoolVar(&c.strict, "strict", false, "fail on every incompleteness")
	flag.BoolVar(&c.verbose, "v", false, "verbose")
	flag.Parse()
	if flag.NArg() != 1 {
		fatal("usage: engine [flags] PROPERTY")
	}
	c.prop = flag.Arg(0)
	c.seed = 1
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		c.seed = s
	}
	if c.tier != "thorough" {
		c.tier = "quick"
	}
	if c.workers == 0 {
		c.workers = runtime.NumCPU()
		if c.workers > 8 {
			c.workers = 8
		}
	}
	if c.budget == 0 {
		c.budget = 240 * time.Second
		if c.tier == "thorough" {
			c.budget = 720 * time.Second
		}
	}
	os.Exit(runCheck(c))
}

type loaded struct {
	eng *Engine
	pkg *ssa.Package
	hs  []*ssa.Function
}

func load(c *config) (*loaded, error) {
	files, err := overlay(c)
	if err != nil {
		return nil, err
	}
	ov := map[string][]byte{}
	for v, p := range files {
		b, err := os.ReadFile(p)
		if err != nil {
			return nil, err
		}
		ov[v] = b
	}
	mod := modulePath(c.repo)
	dir := strings.ToLower(c.prop)
	pc := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: c.repo, Env: goEnv(), Overlay: ov,
	}
	ps, err := packages.Load(pc, "./"+virtDir+"/"+dir)
	if err != nil {
		return nil, err
	}
	if len(ps) != 1 {
		return nil, fmt.Errorf("%d packages loaded", len(ps))
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the tree does not load: %s", strings.Join(errs[:min(len(errs), 5)], "; "))
	}
	prog, pkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, globIdx: map[*ssa.Global]int32{}, sizes: types.SizesFor("gc", "amd64"),
		repoPrefix: mod, repo: c.repo, vtPath: mod + vtSuffix, solverBin: c.solver, seed: c.seed,
		maxSteps: 3_000_000}
	if c.tier == "thorough" {
		c.level = 2
	} else if q, ok := pkgs[0].Pkg.Scope().Lookup("Quick").(*types.Const); ok {
		n, _ := constant.Int64Val(q.Val())
		c.level = int(n)
	}
	e.level = c.level
	if e.level > 0 {
		e.maxSteps = 10_000_000
	}
	l := &loaded{eng: e, pkg: pkgs[0]}
	for n, m := range pkgs[0].Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "H") && len(f.Params) == 0 && f.Signature.Results().Len() == 0 {
			if c.only == "" || strings.HasPrefix(n, c.only) {
				l.hs = append(l.hs, f)
			}
		}
	}
	sort.Slice(l.hs, func(i, j int) bool { return l.hs[i].Name() < l.hs[j].Name() })
	if len(l.hs) == 0 {
		return nil, fmt.Errorf("no harness in %s", dir)
	}
	return l, nil
}

func (e *Engine) newInterp() *Interp {
	in := &Interp{eng: e, stepLimit: 100_000_000}
	in.pool = newPool()
	in.natSt = map[string]interface{}{}
	in.fnCache = map[*ssa.Function]*fnInfo{}
	in.methCache = map[methKey]*ssa.Function{}
	in.implCache = map[[2]types.Type]bool{}
	return in
}

// initPackage runs the package initialisers of the harness package and its imports.
func (in *Interp) initPackage(p *ssa.Package) (err error) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathEnd:
				err = fmt.Errorf("initialisation: %s %s", x.kind, x.msg)
			case *targetPanic:
				err = fmt.Errorf("initialisation panics: %s", x.msg)
			default:
				panic(r)
			}
		}
	}()
	in.call(p.Func("init"), nil, nil)
	in.frames = in.frames[:0]
	in.depth = 0
	return nil
}

// expectedReach lists the Reach labels written in a harness.
func expectedReach(fn *ssa.Function, vt string, seen map[*ssa.Function]bool) []string {
	if seen[fn] {
		return nil
	}
	seen[fn] = true
	var out []string
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			ci, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			s := ci.Common().StaticCallee()
			if s == nil || s.Pkg == nil {
				continue
			}
			if s.Pkg.Pkg.Path() == vt && s.Name() == "Reach" {
				if k, ok := ci.Common().Args[0].(*ssa.Const); ok {
					out = append(out, constant.StringVal(k.Value))
				}
			}
		}
	}
	for _, a := range fn.AnonFuncs {
		out = append(out, expectedReach(a, vt, seen)...)
	}
	return out
}

// ---- native replay ----

type nativeCase struct {
	Harness string     `json:"harness"`
	Repeat  int        `json:"repeat"`
	Inputs  []inputVal `json:"inputs"`
}

type nativeOut struct {
	Status string   `json:"status"`
	Label  string   `json:"label"`
	Detail string   `json:"detail"`
	Failed []string `json:"failed"`
	Obs    []string `json:"obs"`
	Run    int      `json:"run"`
}

type native struct {
	c    *config
	dir  string
	bin  string
	err  error
	done chan struct{}
}

func startNative(c *config) *native {
	n := &native{c: c, done: make(chan struct{})}
	go func() {
		defer close(n.done)
		n.err = n.build()
	}()
	return n
}

func (n *native) build() error {
	c := n.c
	dir, err := os.MkdirTemp("", "verif-native-")
	if err != nil {
		return err
	}
	n.dir = dir
	files, err := overlay(c)
	if err != nil {
		return err
	}
	mod := modulePath(c.repo)
	low := strings.ToLower(c.prop)
	names := harnessNames(filepath.Join(c.verif, "harness", low))
	src := "package main\n\nimport (\n\th \"" + mod + "/" + virtDir + "/" + low + "\"\n\t\"" + mod + vtSuffix + "\"\n)\n\nfunc main() {\n\tvt.Main(map[string]func(){\n"
	for _, h := range names {
		src += fmt.Sprintf("\t\t%q: h.%s,\n", h, h)
	}
	src += "\t})\n}\n"
	mp := filepath.Join(dir, "main.go")
	if err := os.WriteFile(mp, []byte(src), 0o644); err != nil {
		return err
	}
	mdir := filepath.Join(c.repo, virtDir, "main_"+low)
	files[filepath.Join(mdir, "main.go")] = mp
	ob, _ := json.Marshal(map[string]interface{}{"Replace": files})
	op := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(op, ob, 0o644); err != nil {
		return err
	}
	n.bin = filepath.Join(dir, "replay")
	cmd := exec.Command("go", "build", "-overlay", op, "-o", n.bin, "./"+virtDir+"/main_"+low)
	cmd.Dir = c.repo
	cmd.Env = goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("native build: %v: %s", err, out)
	}
	return nil
}

func (n *native) close() {
	<-n.done
	if n.dir != "" {
		os.RemoveAll(n.dir)
	}
}

// run executes cases; a crash or a timeout is reported for the case at which it happened.
func (n *native) run(cases []nativeCase, timeout time.Duration) ([]nativeOut, error) {
	<-n.done
	if n.err != nil {
		return nil, n.err
	}
	var outs []nativeOut
	for len(outs) < len(cases) {
		rest := cases[len(outs):]
		b, _ := json.Marshal(rest)
		f := filepath.Join(n.dir, fmt.Sprintf("in-%d-%d.json", os.Getpid(), time.Now().UnixNano()))
		if err := os.WriteFile(f, b, 0o644); err != nil {
			return nil, err
		}
		work, err := os.MkdirTemp(n.dir, "work-")
		if err != nil {
			return nil, err
		}
		cmd := exec.Command("sh", "-c", `ulimit -v 12000000; exec "$0" "$@"`, n.bin, f)
		cmd.Dir = work
		cmd.Env = append(os.Environ(), "VT_OUT=1", "VERIF_LEVEL="+strconv.Itoa(n.c.level), "VERIF_REPO="+n.c.repo)
		r, w, err := os.Pipe()
		if err != nil {
			return nil, err
		}
		cmd.ExtraFiles = []*os.File{w}
		var tail tailBuf
		cmd.Stderr = &tail
		if err := cmd.Start(); err != nil {
			return nil, err
		}
		w.Close()
		timer := time.AfterFunc(timeout, func() { cmd.Process.Kill() })
		dec := json.NewDecoder(r)
		got := 0
		t0 := time.Now()
		for {
			var o nativeOut
			if dec.Decode(&o) != nil {
				break
			}
			timer.Reset(timeout)
			t0 = time.Now()
			outs = append(outs, o)
			got++
		}
		werr := cmd.Wait()
		timer.Stop()
		r.Close()
		os.Remove(f)
		os.RemoveAll(work)
		if got < len(rest) {
			st := "crash"
			if time.Since(t0) >= timeout {
				st = "timeout"
			}
			d := ""
			if werr != nil {
				d = werr.Error() + ": " + tail.String()
			}
			outs = append(outs, nativeOut{Status: st, Label: "terminates", Detail: d})
		}
	}
	return outs, nil
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 2000 {
		t.b = append(t.b, p[:min(len(p), 2000-len(t.b))]...)
	}
	return len(p), nil
}

func (t *tailBuf) String() string { return string(t.b) }

func harnessNames(dir string) []string {
	var out []string
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "func H") {
				n := strings.TrimPrefix(l, "func ")
				if k := strings.Index(n, "() {"); k > 0 {
					out = append(out, n[:k])
				}
			}
		}
	}
	sort.Strings(out)
	return out
}

// ---- known findings ----

type known struct {
	harness, label, text string
}

func knownFindings(c *config) []known {
	b, err := os.ReadFile(filepath.Join(c.verif, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property="+c.prop+" ") {
			continue
		}
		k := known{}
		rest := strings.TrimPrefix(l, "known: property="+c.prop+" ")
		for strings.HasPrefix(rest, "harness=") || strings.HasPrefix(rest, "label=") {
			w := rest
			if i := strings.IndexByte(rest, ' '); i >= 0 {
				w, rest = rest[:i], rest[i+1:]
			} else {
				rest = ""
			}
			if strings.HasPrefix(w, "harness=") {
				k.harness = strings.TrimPrefix(w, "harness=")
			} else {
				k.label = strings.TrimPrefix(w, "label=")
			}
		}
		k.text = rest
		out = append(out, k)
	}
	return out
}

// ---- one check ----

func fmtInputs(iv []inputVal) string {
	var ps []string
	for _, i := range iv {
		switch i.Kind {
		case "string", "bytes":
			b := make([]byte, len(i.S))
			for k, v := range i.S {
				b[k] = byte(v)
			}
			ps = append(ps, fmt.Sprintf("%s=%q", i.Name, b))
		case "bool":
			ps = append(ps, fmt.Sprintf("%s=%v", i.Name, i.U == 1))
		case "int", "int64", "choose":
			ps = append(ps, fmt.Sprintf("%s=%d", i.Name, int64(i.U)))
		default:
			ps = append(ps, fmt.Sprintf("%s=%d", i.Name, i.U))
		}
	}
	return strings.Join(ps, " ")
}

func runCheck(c *config) int {
	t0 := time.Now()
	nat := startNative(c)
	defer nat.close()
	l, err := load(c)
	if err != nil {
		fmt.Fprintf(os.Stderr, "ERROR: %v\n", err)
		return 2
	}
	loadT := time.Since(t0)
	workers := make([]*Interp, c.workers)
	timeout := 20000
	if c.tier == "thorough" {
		timeout = 60000
	}
	var wg sync.WaitGroup
	errs := make([]error, len(workers))
	for i := range workers {
		workers[i] = l.eng.newInterp()
		workers[i].solver = newSolver(c.solver, timeout)
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			errs[i] = workers[i].initPackage(l.pkg)
		}(i)
	}
	wg.Wait()
	defer func() {
		for _, w := range workers {
			w.solver.close()
		}
	}()
	for _, e := range errs {
		if e != nil {
			fmt.Fprintf(os.Stderr, "ERROR: %v\n", e)
			return 2
		}
	}
	initT := time.Since(t0) - loadT
	if c.verbose {
		fmt.Printf("load %.1fs init %.1fs\n", loadT.Seconds(), initT.Seconds())
	}

	kn := knownFindings(c)
	deadline := t0.Add(c.budget)
	maxTraces := 12
	if c.tier == "thorough" {
		maxTraces = 60
	}
	var runs []*harnessRun
	code := 0
	violations := 0
	validated, mismatched := 0, 0
	spurious := 0
	var samples []interface{}
	var problems []string
	seenKnown := map[int]bool{}
	for i, h := range l.hs {
		left := time.Until(deadline)
		share := left / time.Duration(len(l.hs)-i)
		if n := time.Duration(len(l.hs) - i); n > 1 {
			share = share * 2
			if share > left*3/4 {
				share = left * 3 / 4
			}
		}
		if share < 2*time.Second {
			share = 2 * time.Second
		}
		r := l.eng.explore(h, workers, share, maxTraces)
		runs = append(runs, r)
		if c.verbose {
			fmt.Printf("%-32s paths %d (complete %d, infeasible %d, unsupported %d, limited %d) obligations %d (trivial %d, unsat %d, unknown %d) %.1fs steps %d abandoned %d\n", r.name, r.Paths, r.Complete, r.Infeasible, r.Unsupported, r.Limited, r.Obligations, r.Trivial, r.Discharged, r.Unknown, r.Wall.Seconds(), r.Steps, r.abandoned)
			for m, n := range r.UnsupportedMsgs {
				fmt.Printf("    %d x %s\n", n, m)
			}
		}
		// replay the counterexamples
		labels := make([]string, 0, len(r.candidates))
		for lb := range r.candidates {
			labels = append(labels, lb)
		}
		sort.Strings(labels)
		hviol := 0
		for _, lb := range labels {
			var cases []nativeCase
			for _, cd := range r.candidates[lb] {
				cases = append(cases, nativeCase{r.name, 40, cd.Inputs})
			}
			outs, err := nat.run(cases, 20*time.Second)
			if err != nil {
				fmt.Fprintf(os.Stderr, "ERROR: %v\n", err)
				return 2
			}
			conf := -1
			for k, o := range outs {
				if reproduces(lb, o) {
					conf = k
					break
				}
			}
			if conf < 0 {
				spurious++
				problems = append(problems, fmt.Sprintf("%s:%s counterexample not reproduced natively (%s)", r.name, lb, fmtInputs(cases[0].Inputs)))
				if c.verbose {
					fmt.Printf("    spurious %s: %s / %v\n", lb, fmtInputs(cases[0].Inputs), outs)
				}
				continue
			}
			cd := r.candidates[lb][conf]
			if k := matchKnown(kn, r.name, lb); k >= 0 {
				if !seenKnown[k] {
					fmt.Printf("KNOWN-FINDING: property=%s harness=%s label=%s %s (%s)\n", c.prop, r.name, lb, kn[k].text, fmtInputs(cd.Inputs))
				}
				seenKnown[k] = true
				continue
			}
			hviol++
			report(c, r.name, lb, cd, outs[conf])
		}
		violations += hviol
		// translation validation on sampled completed paths
		if len(r.traces) > 0 {
			var cases []nativeCase
			for _, t := range r.traces {
				cases = append(cases, nativeCase{r.name, 1, t.Inputs})
			}
			outs, err := nat.run(cases, 20*time.Second)
			if err != nil {
				fmt.Fprintf(os.Stderr, "ERROR: %v\n", err)
				return 2
			}
			for k, o := range outs {
				t := r.traces[k]
				bad := ""
				if o.Status != "ok" {
					bad = o.Status + " " + o.Label + " " + o.Detail
				} else if len(o.Failed) > 0 {
					bad = "assertion " + strings.Join(o.Failed, ",")
				} else if strings.Join(o.Obs, "\n") != strings.Join(t.Obs, "\n") {
					bad = fmt.Sprintf("observed %v, the encoding has %v", o.Obs, t.Obs)
				}
				if bad == "" {
					validated++
					if len(samples) < 12 && k < 2 {
						samples = append(samples, map[string]interface{}{"harness": r.name, "inputs": fmtInputs(t.Inputs), "observed": t.Obs})
					}
					continue
				}
				// a failure of the real code on a solver-chosen input is a violation whatever the encoding says
				lb := ""
				if len(o.Failed) > 0 {
					lb = o.Failed[0]
				} else if o.Status == "panic" || o.Status == "crash" || o.Status == "timeout" {
					lb = o.Label
				}
				if lb != "" {
					if ki := matchKnown(kn, r.name, lb); ki >= 0 {
						continue
					}
					if len(r.candidates[lb]) == 0 {
						r.candidates[lb] = append(r.candidates[lb], candidate{Label: lb})
						violations++
						report(c, r.name, lb, candidate{Label: lb, Detail: "replay of a completed path", Inputs: t.Inputs}, o)
					}
				}
				mismatched++
				problems = append(problems, fmt.Sprintf("%s: encoding and implementation disagree on %s: %s", r.name, fmtInputs(t.Inputs), bad))
				if c.verbose {
					fmt.Printf("    MISMATCH %s: %s\n", fmtInputs(t.Inputs), bad)
				}
			}
		}
		// vacuity
		for _, lb := range expectedReach(h, l.eng.vtPath, map[*ssa.Function]bool{}) {
			if r.Reach[lb] == 0 {
				problems = append(problems, fmt.Sprintf("%s: label %q not reached", r.name, lb))
				if c.verbose {
					fmt.Printf("    NOT REACHED %s\n", lb)
				}
				if len(r.candidates) == 0 && r.Complete == 0 {
					code = 2
				}
			}
		}
		if r.Complete == 0 && len(r.candidates) == 0 {
			problems = append(problems, r.name+": no path completed")
			code = 2
		}
	}
	writeEvidence(c, l, runs, workers, validated, mismatched, spurious, violations, samples, problems, time.Since(t0))
	for _, p := range problems {
		fmt.Println("NOTE: " + p)
	}
	var paths, obl int64
	for _, r := range runs {
		paths += r.Complete
		obl += r.Obligations
	}
	fmt.Printf("%s %s: %d harnesses, %d paths, %d obligations, %d native traces validated, %d violations, %.1fs\n", c.prop, c.tier, len(runs), paths, obl, validated, violations, time.Since(t0).Seconds())
	if violations > 0 {
		return 1
	}
	if c.strict && (len(problems) > 0) {
		return 3
	}
	return code
}

func matchKnown(kn []known, harness, label string) int {
	for i, k := range kn {
		if k.harness == harness && k.label == label {
			return i
		}
	}
	return -1
}

func reproduces(label string, o nativeOut) bool {
	switch o.Status {
	case "crash", "timeout":
		return label == "terminates" || label == "no-panic" || o.Status == "crash"
	case "panic":
		if label == "no-panic" {
			return true
		}
	}
	for _, f := range o.Failed {
		if f == label {
			return true
		}
	}
	return false
}

func report(c *config, harness, label string, cd candidate, o nativeOut) {
	dir := filepath.Join(c.verif, "replays")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%s.json", c.prop, harness, sanitize(label)))
	b, _ := json.MarshalIndent(map[string]interface{}{"property": c.prop, "harness": harness, "label": label, "detail": cd.Detail,
		"inputs": cd.Inputs, "text": fmtInputs(cd.Inputs), "native": o}, "", " ")
	os.WriteFile(p, b, 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, p)
	fmt.Printf("  %s: %q fails for %s (%s; native run: %s %v %s)\n", harness, label, fmtInputs(cd.Inputs), cd.Detail, o.Status, o.Failed, trunc(o.Detail))
}

func trunc(s string) string {
	if len(s) > 400 {
		return s[:400]
	}
	return s
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' {
			return r
		}
		return '_'
	}, s)
}

func writeEvidence(c *config, l *loaded, runs []*harnessRun, ws []*Interp, validated, mismatched, spurious, violations int, samples []interface{}, problems []string, wall time.Duration) {
	var st SolverStats
	for _, w := range ws {
		st.Queries += w.solver.stats.Queries
		st.Sat += w.solver.stats.Sat
		st.Unsat += w.solver.stats.Unsat
		st.Unknown += w.solver.stats.Unknown
		st.Restarts += w.solver.stats.Restarts
		st.Time += w.solver.stats.Time
	}
	fns := map[string]int{}
	bounds := map[string]bool{}
	assumes := map[string]bool{}
	var paths, complete, branches, obl, triv, dis, unk, steps int64
	exhaustive := true
	var hs []interface{}
	for _, r := range runs {
		paths += r.Paths
		complete += r.Complete
		branches += r.Branches
		obl += r.Obligations
		triv += r.Trivial
		dis += r.Discharged
		unk += r.Unknown
		steps += r.Steps
		for f := range r.fns {
			if f.fn.Pkg != nil && strings.Contains(f.fn.Pkg.Pkg.Path(), "/"+virtDir) {
				continue
			}
			if !strings.Contains(f.name, "/"+virtDir+"/") {
				fns[strings.ReplaceAll(f.name, l.eng.repoPrefix+"/", "")] = f.ninstr
			}
		}
		bs := []string{}
		for b := range r.Bounds {
			bounds[b] = true
			bs = append(bs, b)
		}
		sort.Strings(bs)
		for a := range r.Assumes {
			assumes[a] = true
		}
		whole := r.abandoned == 0 && r.Unsupported == 0 && r.Limited == 0 && r.Unknown == 0
		if !whole {
			exhaustive = false
		}
		hs = append(hs, map[string]interface{}{"harness": r.name, "paths": r.Paths, "complete": r.Complete, "infeasible": r.Infeasible,
			"unsupported": r.Unsupported, "limited": r.Limited, "abandoned_prefixes": r.abandoned, "branches": r.Branches,
			"obligations": r.Obligations, "closed_by_simplification": r.Trivial, "discharged_by_solver": r.Discharged, "unknown": r.Unknown,
			"reached": r.Reach, "bounds": bs, "all_paths_within_bounds": whole, "wall_s": round2(r.Wall.Seconds()), "not_encoded": r.UnsupportedMsgs})
	}
	var fl []string
	for f, n := range fns {
		fl = append(fl, fmt.Sprintf("%s (%d instructions)", f, n))
	}
	sort.Strings(fl)
	bl := keys(bounds)
	al := keys(assumes)
	al = append(al, "the SSA form built by golang.org/x/tools/go/ssa and the interpreter's semantics of it agree with the Go compiler (sampled paths are replayed natively: traces_validated_against_impl)",
		"intrinsic models of strings, strconv, fmt, regexp, time and hash functions in engine/intrinsics.go, engine/regex.go and engine/crypto.go",
		"goroutine-free execution; linux/amd64 integer widths")
	if len(samples) == 0 {
		samples = append(samples, map[string]interface{}{"note": "no path completed"})
	}
	ev := map[string]interface{}{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": complete, "transitions": branches + paths, "traces_validated_against_impl": validated, "samples": samples,
			"paths_started": paths, "instructions_executed_symbolically": steps,
			"obligations": obl, "obligations_closed_by_simplification": triv, "obligations_discharged_by_solver": dis, "unknown": unk,
			"solver":            map[string]interface{}{"binary": c.solver, "queries": st.Queries, "sat": st.Sat, "unsat": st.Unsat, "unknown": st.Unknown, "restarts": st.Restarts, "time_s": round2(st.Time.Seconds())},
			"functions_encoded": fl, "bounds": bl, "bounds_level": c.level, "harnesses": hs, "exhaustive": exhaustive,
			"trace_mismatches": mismatched, "counterexamples_not_reproduced": spurious, "notes": problems,
		},
		"assumptions": al, "wall_s": round2(wall.Seconds()), "violations": violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(c.verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(c.verif, "evidence", c.prop+".json"), b, 0o644)
}

func keys(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func round2(f float64) float64 { return float64(int64(f*100+0.5)) / 100 }
