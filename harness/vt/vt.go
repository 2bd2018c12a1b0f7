// Package vt is the interface between the harnesses and the solver.
//
// The symbolic engine (/verif/engine) intercepts every exported function of this
// package: Byte, String, ... become symbolic values, Assume a path constraint and
// Assert a proof obligation. Compiled natively, the same functions read the
// solver's assignment, so that a counterexample is replayed against the real build.
package vt

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"strconv"
	"strings"
)

type input struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	U    uint64 `json:"u"`
	S    []int  `json:"s"`
}

type testCase struct {
	Harness string  `json:"harness"`
	Repeat  int     `json:"repeat"`
	Inputs  []input `json:"inputs"`
}

// outcome is the result of one native run.
type outcome struct {
	Status string   `json:"status"`
	Label  string   `json:"label"`
	Detail string   `json:"detail,omitempty"`
	Failed []string `json:"failed,omitempty"`
	Obs    []string `json:"obs"`
	Run    int      `json:"run"`
}

type stop struct{ status, label string }

var (
	cur   []input
	pos   int
	obs   []string
	fail  []string
	level int
)

func next(name, kind string) input {
	if pos >= len(cur) {
		panic(stop{"diverged", "no more inputs at " + name})
	}
	i := cur[pos]
	pos++
	if i.Name != name || i.Kind != kind {
		panic(stop{"diverged", "expected " + i.Name + ", the harness asked for " + name})
	}
	return i
}

// Bool is an arbitrary boolean.
func Bool(name string) bool { return next(name, "bool").U == 1 }

// Byte is an arbitrary byte.
func Byte(name string) byte { return byte(next(name, "byte").U) }

// Int is an arbitrary int.
func Int(name string) int { return int(next(name, "int").U) }

// Int64 is an arbitrary int64.
func Int64(name string) int64 { return int64(next(name, "int64").U) }

// IntIn is an arbitrary integer with 0 <= lo <= value <= hi.
func IntIn(name string, lo, hi int64) int64 { return int64(next(name, "int64").U) }

// Uint is an arbitrary uint.
func Uint(name string) uint { return uint(next(name, "uint").U) }

// Uint64 is an arbitrary uint64.
func Uint64(name string) uint64 { return next(name, "uint64").U }

// Uint32 is an arbitrary uint32.
func Uint32(name string) uint32 { return uint32(next(name, "uint32").U) }

// String is an arbitrary string of min..max bytes.
func String(name string, min, max int) string { return string(raw(name, "string")) }

// Bytes is an arbitrary byte slice of min..max bytes.
func Bytes(name string, min, max int) []byte { return raw(name, "bytes") }

// StringOf is an arbitrary string of min..max characters of the alphabet.
func StringOf(name string, min, max int, alphabet string) string { return string(raw(name, "string")) }

func raw(name, kind string) []byte {
	i := next(name, kind)
	b := make([]byte, len(i.S))
	for k, v := range i.S {
		b[k] = byte(v)
	}
	return b
}

// Steps multiplies the number of steps a path may take.
func Steps(times int) {}

// Choose is an arbitrary number below n; every choice is a separate path.
func Choose(name string, n int) int {
	if n <= 1 {
		// the engine makes no choice but records one
	}
	return int(next(name, "choose").U)
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(stop{"assume", ""})
	}
}

// Assert is the property.
func Assert(c bool, label string) {
	if !c {
		fail = append(fail, label)
	}
}

// Reach marks a place that has to be reached by some input.
func Reach(label string) {}

// Observe records a value for translation validation.
func Observe(label string, v interface{}) { obs = append(obs, label+"="+render(reflect.ValueOf(v))) }

// MapOrder sets how map iteration is explored (0: insertion order, 1: reverse, 2: every order).
func MapOrder(mode int) {}

// Bound documents a bound.
func Bound(text string) {}

// Assumption documents an assumption.
func Assumption(text string) {}

// Thorough tells whether the bounds are the larger ones: in the thorough tier, and in the quick one of a harness
// package that says so (const Quick = 1).
func Thorough() bool { return level >= 1 }

// Deep tells whether the bounds are the largest ones: in the thorough tier.
func Deep() bool { return level >= 2 }

var dir string

// Dir is a directory of its own for every run.
func Dir() string {
	if dir == "" {
		d, err := os.MkdirTemp("", "verif")
		if err != nil {
			panic(err)
		}
		dir = d
	}
	return dir
}

// File writes a file in that directory.
func File(name, content string) {
	p := filepath.Join(Dir(), name)
	if err := os.MkdirAll(filepath.Dir(p), 0o700); err != nil {
		panic(err)
	}
	if err := os.WriteFile(p, []byte(content), 0o600); err != nil {
		panic(err)
	}
}

// RepoFile reads a file of the repository.
func RepoFile(path string) string {
	b, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_REPO"), path))
	if err != nil {
		panic(err)
	}
	return string(b)
}

// Symbolic tells whether the code runs in the engine.
func Symbolic() bool { return false }

func render(v reflect.Value) string {
	if !v.IsValid() {
		return "nil"
	}
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return render(v.Elem())
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		bits := uint(v.Type().Bits())
		u := uint64(v.Int())
		if bits < 64 {
			u &= 1<<bits - 1
		}
		return fmt.Sprint(u)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprint(v.Uint())
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	case reflect.Slice, reflect.Array:
		var ks []string
		for i := 0; i < v.Len(); i++ {
			ks = append(ks, render(v.Index(i)))
		}
		return "[" + strings.Join(ks, " ") + "]"
	}
	return v.Type().String()
}

func once(f func(), c testCase) (o outcome) {
	cur, pos, obs, fail = c.Inputs, 0, nil, nil
	defer func() {
		if dir != "" {
			os.RemoveAll(dir)
			dir = ""
		}
	}()
	defer func() {
		if r := recover(); r != nil {
			o.Obs = obs
			o.Failed = fail
			if s, ok := r.(stop); ok {
				o.Status, o.Label = s.status, s.label
				return
			}
			o.Status, o.Label = "panic", "no-panic"
			o.Detail = fmt.Sprint(r)
			if os.Getenv("VT_STACK") != "" {
				fmt.Fprintf(os.Stderr, "%s\n", debug.Stack())
			}
		}
	}()
	f()
	o.Status = "ok"
	o.Obs = obs
	o.Failed = fail
	return
}

// Main runs the cases of the file named by the first argument.
func Main(hs map[string]func()) {
	debug.SetMaxStack(256 << 20)
	out := os.NewFile(3, "results")
	if out == nil || os.Getenv("VT_OUT") == "" {
		out = os.Stdout
	}
	level, _ = strconv.Atoi(os.Getenv("VERIF_LEVEL"))
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var cases []testCase
	if err := json.Unmarshal(b, &cases); err != nil {
		panic(err)
	}
	enc := json.NewEncoder(out)
	for _, c := range cases {
		f := hs[c.Harness]
		if f == nil {
			enc.Encode(outcome{Status: "missing"})
			continue
		}
		n := c.Repeat
		if n < 1 {
			n = 1
		}
		var o outcome
		for i := 0; i < n; i++ {
			o = once(f, c)
			o.Run = i
			if o.Status != "ok" || len(o.Failed) > 0 {
				break
			}
		}
		enc.Encode(o)
	}
}
