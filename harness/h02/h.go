// Package h02 checks the events executed on trees.
package h02

import (
	"errors"
	"strings"

	"github.com/steve-care-software/steve/applications/languages/parsers"
	"github.com/steve-care-software/steve/domain/languages/lexers/roots"
	"github.com/steve-care-software/steve/zz_verif/vt"
)

// The builders are shared: what one object was given is not for the next one.
var (
	sharedParsersManager  = parsers.NewManagerBuilder()
	sharedParsersResult   = parsers.NewResultBuilder()
	sharedRoots           = roots.NewBuilder()
	sharedRootsContainer  = roots.NewContainerBuilder()
	sharedRootsContainers = roots.NewContainersBuilder()
	sharedRootsNode       = roots.NewNodeBuilder()
	sharedRootsNodes      = roots.NewNodesBuilder()
)

func must(err error, what string) {
	vt.Assert(err == nil, what)
	vt.Assume(err == nil)
}

func container(name, content string, root roots.Root) roots.Container {
	b := sharedRootsContainer.Create().WithName(name).WithContent(content)
	if root != nil {
		b.WithRoot(root)
	}
	c, err := b.Now()
	must(err, "container-built")
	return c
}

func node(name string, list ...roots.Container) roots.Node {
	cs, err := sharedRootsContainers.Create().WithList(list).Now()
	must(err, "containers-built")
	n, err := sharedRootsNode.Create().WithName(name).WithContainers(cs).Now()
	must(err, "node-built")
	return n
}

func root(name, content string, list ...roots.Node) roots.Root {
	mp := map[string]roots.Node{}
	for _, n := range list {
		mp[n.Name()] = n
	}
	nodes, err := sharedRootsNodes.Create().WithNodes(mp).Now()
	must(err, "nodes-built")
	r, err := sharedRoots.Create().WithName(name).WithContent(content).WithNodes(nodes).Now()
	must(err, "root-built")
	return r
}

// leaf is a root with a single rule.
func leaf(name, content string) roots.Root {
	return root(name, content, node("R", container("R", content, nil)))
}

// What an event does.
const (
	fails = iota
	value
	oneResult
	listResult
	nothing
	kinds
)

// event is an event and what it gives.
type event struct {
	kind  int
	calls []roots.Root
}

func (e *event) run(tag string) parsers.EventFunc {
	return func(r roots.Root, m parsers.Manager) (interface{}, error) {
		vt.Assert(m != nil, "manager-given")
		e.calls = append(e.calls, r)
		switch e.kind {
		case fails:
			return nil, errors.New("refused by " + tag)
		case value:
			return tag + r.Content(), nil
		case oneResult:
			res, err := sharedParsersResult.Create().WithElement(tag + "-one").Now()
			must(err, "result-built")
			return res, nil
		case listResult:
			res, err := sharedParsersResult.Create().WithList([]interface{}{tag + "-1", tag + "-2"}).Now()
			must(err, "result-built")
			return res, nil
		}
		return nil, nil
	}
}

// events are up to n events for one name.
func events(name string, n int) ([]*event, []parsers.EventFunc) {
	list, fns := []*event{}, []parsers.EventFunc{}
	for i := 0; i < n; i++ {
		e := &event{kind: vt.Choose(name, kinds)}
		list = append(list, e)
		fns = append(fns, e.run(name+string(rune('a'+i))))
	}
	return list, fns
}

// first is the index of the event that counts, or -1.
func first(list []*event) int {
	for i, e := range list {
		if e.kind != fails {
			return i
		}
	}
	return -1
}

// called asserts that exactly the events up to the first that succeeds were called, each with these roots.
func called(list []*event, rs ...roots.Root) {
	w := first(list)
	for i, e := range list {
		if w >= 0 && i > w {
			vt.Assert(len(e.calls) == 0, "later-events-not-called")
			continue
		}
		vt.Assert(len(e.calls) == len(rs), "events-called-in-order")
		if len(e.calls) == len(rs) {
			for j := range rs {
				vt.Assert(e.calls[j] == rs[j], "called-with-the-root")
			}
		}
	}
}

func manager(evs map[string][]parsers.EventFunc) parsers.Manager {
	m, err := sharedParsersManager.Create().WithEvents(evs).Now()
	must(err, "manager-built")
	return m
}

func amount() int {
	if vt.Deep() {
		return 4
	}
	if vt.Thorough() {
		return 3
	}
	return 2
}

// HExecute: the first event that succeeds decides.
func HExecute() {
	content := vt.String("content", 1, 2)
	r := leaf("r", content)
	list, fns := events("r", vt.Choose("events", amount()+1))
	other, otherFns := events("other", 1)
	evs := map[string][]parsers.EventFunc{"other": otherFns}
	registered := len(fns) > 0 || vt.Bool("registered")
	if registered {
		evs["r"] = fns
	}
	app := vt.Bool("application")
	var res parsers.Result
	var got interface{}
	var err error
	if app {
		got, err = parsers.NewApplication().Execute(r, evs)
	} else {
		res, err = manager(evs).Execute(r)
	}
	called(list, r)
	vt.Assert(len(other[0].calls) == 0, "other-events-not-called")
	w := first(list)
	if w < 0 || list[w].kind == nothing {
		vt.Assert(err != nil, "no-result-is-an-error")
		return
	}
	vt.Assert(err == nil, "executed")
	if err != nil {
		return
	}
	tag := "r" + string(rune('a'+w))
	want := []interface{}{tag + content}
	switch list[w].kind {
	case oneResult:
		want = []interface{}{tag + "-one"}
	case listResult:
		want = []interface{}{tag + "-1", tag + "-2"}
	}
	vt.Reach("executed")
	if app {
		vt.Assert(got == want[0], "first-of-the-result")
		return
	}
	vt.Assert(res.First() == want[0] && res.IsSingle() == (len(want) == 1) && len(res.List()) == len(want), "result")
	if len(res.List()) == len(want) {
		for i := range want {
			vt.Assert(res.List()[i] == want[i], "result-list")
		}
	}
}

// HTrigger: every container of the element named is handed to its events, in order.
func HTrigger() {
	n := 1 + vt.Choose("containers", amount())
	list, fns := events("x", 1+vt.Choose("events", 2))
	subs := []roots.Root{}
	cs := []roots.Container{}
	contents := []string{}
	isToken := []bool{}
	for i := 0; i < n; i++ {
		c := vt.String("content", 1, 1)
		contents = append(contents, c)
		isToken = append(isToken, vt.Bool("token"))
		if isToken[i] {
			sub := leaf("x", c)
			subs = append(subs, sub)
			cs = append(cs, container("x", c, sub))
		} else {
			cs = append(cs, container("x", c, nil))
		}
	}
	x := node("x", cs...)
	r := root("t", "whole", x, node("other", container("other", "o", nil)))
	if vt.Bool("nested") {
		r = root("t", "whole", node("y", container("y", "w", root("y", "w", x))), node("other", container("other", "o", nil)))
	}
	evs := map[string][]parsers.EventFunc{"x": fns}
	if vt.Bool("not-registered") {
		evs = map[string][]parsers.EventFunc{"other": fns}
	}
	m := manager(evs)
	_, err := m.Trigger("absent", r)
	vt.Assert(err != nil, "absent-element-is-an-error")
	res, err := m.Trigger("x", r)
	w := first(list)
	if len(subs) > 0 && (evs["x"] == nil || w < 0) {
		vt.Assert(err != nil, "refused-by-all-is-an-error")
		return
	}
	vt.Assert(err == nil, "triggered")
	if err != nil {
		return
	}
	called(list, subs...)
	got := res.List()
	vt.Assert(len(got) == n && res.IsSingle() == (n == 1), "one-value-per-container")
	if len(got) != n {
		return
	}
	for i := range contents {
		if !isToken[i] {
			vt.Assert(got[i] == contents[i], "content-of-a-rule")
			continue
		}
		tag := "x" + string(rune('a'+w))
		switch list[w].kind {
		case value:
			vt.Assert(got[i] == tag+contents[i], "value-of-a-token")
		case oneResult:
			vt.Assert(got[i] == tag+"-one", "single-result-of-a-token")
		case nothing:
			vt.Assert(got[i] == nil, "no-value-of-a-token")
		case listResult:
			l, ok := got[i].([]interface{})
			vt.Assert(ok && len(l) == 2 && l[0] == tag+"-1" && l[1] == tag+"-2", "list-of-a-token")
		}
	}
	if !isToken[0] || list[w].kind != listResult {
		vt.Assert(res.First() == got[0], "first-value")
	}
	vt.Reach("triggered")
}

// HBuilders: managers need events and results need values.
func HBuilders() {
	_, err := sharedParsersManager.Create().Now()
	vt.Assert(err != nil, "manager-without-events")
	_, err = sharedParsersManager.Create().WithEvents(map[string][]parsers.EventFunc{}).Now()
	vt.Assert(err != nil, "manager-with-no-events")
	_, err = parsers.NewApplication().Execute(leaf("r", "x"), nil)
	vt.Assert(err != nil, "application-without-events")
	n := vt.Choose("list", 4)
	list := []interface{}{}
	for i := 0; i < n; i++ {
		list = append(list, vt.Int("element"))
	}
	b := sharedParsersResult.Create()
	withList, withElement := vt.Bool("with-list"), vt.Bool("with-element")
	if withList {
		b.WithList(list)
	}
	e := vt.String("element", 0, 1)
	if withElement {
		b.WithElement(e)
	}
	res, err := b.Now()
	vt.Assert((err == nil) == (withElement || withList && n > 0), "result-complete")
	if err != nil {
		return
	}
	if withElement {
		vt.Assert(res.First() == e && res.IsSingle() && len(res.List()) == 1 && res.List()[0] == e, "element-kept")
	} else {
		vt.Assert(len(res.List()) == n && res.IsSingle() == (n == 1) && res.First() == list[0], "list-kept")
		for i := range list {
			vt.Assert(i < len(res.List()) && res.List()[i] == list[i], "list-kept")
		}
	}
	_, err = b.Create().Now()
	vt.Assert(err != nil, "create-forgets")
	vt.Reach("built")
}

// HNested: an event hands on what it triggers.
func HNested() {
	content := vt.String("content", 1, 2)
	sub := leaf("x", content)
	n := 1 + vt.Choose("containers", 2)
	cs := []roots.Container{}
	for i := 0; i < n; i++ {
		cs = append(cs, container("x", content, sub))
	}
	r := root("t", "whole", node("x", cs...), node("R", container("R", "rule", nil)))
	list, fns := events("x", 1)
	vt.Assume(list[0].kind != nothing)
	m := manager(map[string][]parsers.EventFunc{
		"x": fns,
		"t": {
			func(r roots.Root, m parsers.Manager) (interface{}, error) { return m.Trigger("x", r) },
			func(r roots.Root, m parsers.Manager) (interface{}, error) {
				res, err := m.Trigger("R", r)
				if err != nil {
					return nil, err
				}
				return res.First(), nil
			},
		},
	})
	res, err := m.Execute(r)
	vt.Assert(err == nil, "executed")
	if err != nil {
		return
	}
	vt.Reach("executed")
	got := res.List()
	switch list[0].kind {
	case fails:
		vt.Assert(res.IsSingle() && res.First() == "rule", "the-next-event-is-tried")
	case value:
		vt.Assert(len(got) == n && res.IsSingle() == (n == 1), "triggered-list-handed-on")
		for _, g := range got {
			vt.Assert(g == "xa"+content, "triggered-value")
		}
	case oneResult:
		vt.Assert(len(got) == n, "triggered-list-handed-on")
		for _, g := range got {
			vt.Assert(g == "xa-one", "triggered-value")
		}
	case listResult:
		vt.Assert(n == 1 || len(got) == n, "triggered-list-handed-on")
	}
}

// HMany: many containers and many events.
func HMany() {
	n := []int{5, 11, 30}[vt.Choose("containers", 3)]
	k := []int{4, 9}[vt.Choose("events", 2)]
	w := []int{0, 3, k - 1}[vt.Choose("first", 3)]
	content := vt.String("content", 1, 1)
	list, fns := []*event{}, []parsers.EventFunc{}
	for i := 0; i < k; i++ {
		e := &event{kind: fails}
		if i >= w {
			e.kind = value
		}
		list = append(list, e)
		fns = append(fns, e.run("x"+string(rune('a'+i))))
	}
	subs, cs := []roots.Root{}, []roots.Container{}
	for i := 0; i < n; i++ {
		c := strings.Repeat("y", i) + content
		sub := leaf("x", c)
		subs = append(subs, sub)
		cs = append(cs, container("x", c, sub))
	}
	r := root("t", "whole", node("x", cs...), node("other", container("other", "o", nil)))
	for deep := vt.Choose("deep", 3) * 4; deep > 0; deep-- {
		r = root("t", "whole", node("y", container("y", "w", r)), node("z", container("z", "o", nil)))
	}
	res, err := manager(map[string][]parsers.EventFunc{"x": fns}).Trigger("x", r)
	vt.Assert(err == nil, "triggered")
	if err != nil {
		return
	}
	called(list, subs...)
	got := res.List()
	vt.Assert(len(got) == n && !res.IsSingle(), "one-value-per-container")
	for i := range got {
		vt.Assert(i < n && got[i] == "x"+string(rune('a'+w))+strings.Repeat("y", i)+content, "value-of-a-token")
	}
	vt.Reach("triggered")
}

// Quick: the quick tier has the larger bounds too.
const Quick = 1

// HVarying: which event accepts depends on what it is given, and not on what was executed before.
func HVarying() {
	const contents = "01"
	accepts := [][]bool{}
	evs := []parsers.EventFunc{}
	for i := 0; i < 2+vt.Choose("events", 2); i++ {
		table := []bool{vt.Bool("accepts"), vt.Bool("accepts")}
		accepts = append(accepts, table)
		tag := string(rune('a' + i))
		evs = append(evs, func(r roots.Root, m parsers.Manager) (interface{}, error) {
			if !table[strings.Index(contents, r.Content())] {
				return nil, errors.New("refused by " + tag)
			}
			return tag + r.Content(), nil
		})
	}
	want := func(k int) string {
		for i, t := range accepts {
			if t[k] {
				return string(rune('a'+i)) + contents[k:k+1]
			}
		}
		return ""
	}
	m := manager(map[string][]parsers.EventFunc{"x": evs})
	execute := func(k int) {
		res, err := m.Execute(leaf("x", contents[k:k+1]))
		w := want(k)
		vt.Assert((err == nil) == (w != ""), "executed-iff-accepted")
		if err == nil && w != "" {
			vt.Assert(res.IsSingle() && res.First() == w, "value-of-the-first-that-accepts")
			vt.Reach("executed")
		}
	}
	execute(vt.Choose("before", 2))
	cs, ks, all := []roots.Container{}, []int{}, true
	for i := 0; i < 3; i++ {
		k := vt.Choose("occurrence", 2)
		ks, all = append(ks, k), all && want(k) != ""
		cs = append(cs, container("x", contents[k:k+1], leaf("x", contents[k:k+1])))
	}
	res, err := m.Trigger("x", root("t", "whole", node("x", cs...)))
	vt.Assert((err == nil) == all, "triggered-iff-all-are-accepted")
	if err == nil && all {
		vt.Assert(len(res.List()) == len(ks), "one-value-per-occurrence")
		for i, k := range ks {
			if i < len(res.List()) {
				vt.Assert(res.List()[i] == want(k), "value-of-the-occurrence")
			}
		}
		vt.Reach("triggered")
	}
	execute(0)
	execute(1)
}
