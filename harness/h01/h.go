// Package h01 checks the trees made from what is read.
package h01

import (
	"github.com/steve-care-software/steve/domain/languages/lexers/asts"
	"github.com/steve-care-software/steve/domain/languages/lexers/roots"
	"github.com/steve-care-software/steve/zz_verif/hx/gm"
	"github.com/steve-care-software/steve/zz_verif/vt"
)

// part is what an element of a tree should be.
type part struct {
	name    string
	content string
	tok     asts.Token
}

// parts are the parts of a token in the order of the script.
func parts(t asts.Token) []part {
	out := []part{}
	for _, m := range t.Match().Matches() {
		if m.IsRule() {
			out = append(out, part{m.Rule().Rule(), m.Rule().Result().Discoveries().Content(), nil})
			continue
		}
		for _, s := range m.Token().Matches() {
			out = append(out, part{m.Token().Token(), s.Discovery(), s})
		}
	}
	return out
}

// compare asserts that the root holds exactly the parts of the token.
func compare(r roots.Root, t asts.Token) {
	vt.Assert(r.Name() == t.Name(), "name")
	vt.Assert(r.Content() == t.Discovery(), "content")
	all := parts(t)
	names := map[string]bool{}
	for _, p := range all {
		names[p.name] = true
	}
	vt.Assert(int(r.Nodes().Amount()) == len(names) && len(r.Nodes().All()) == len(names), "nodes")
	done := map[string]bool{}
	for _, p := range all {
		if done[p.name] {
			continue
		}
		done[p.name] = true
		node, err := r.Nodes().Fetch(p.name)
		vt.Assert(err == nil && r.Nodes().Exists(p.name), "node-of-every-part")
		if err != nil {
			continue
		}
		vt.Assert(node.Name() == p.name, "node-name")
		list := node.Containers().List()
		i, content := 0, ""
		for _, q := range all {
			if q.name != p.name {
				continue
			}
			content += q.content
			if i >= len(list) {
				i++
				continue
			}
			c := list[i]
			i++
			vt.Assert(c.Name() == q.name, "container-name")
			vt.Assert(c.Content() == q.content, "container-content")
			vt.Assert(c.HasRoot() == (q.tok != nil), "container-of-a-token")
			if q.tok != nil && c.HasRoot() {
				compare(c.Root(), q.tok)
			}
		}
		vt.Assert(i == len(list), "containers-in-order")
		vt.Assert(node.Content() == content, "node-content")
	}
}

var one = gm.One

func tok(name string, lines ...gm.Line) gm.Tok { return gm.Tok{Name: name, Must: lines} }

func grammar() *gm.Grammar {
	g := &gm.Grammar{Rules: gm.Rules, Root: "t"}
	switch vt.Choose("grammar", 6) {
	case 0: // tokens of different names that read the same text
		g.Toks = []gm.Tok{
			tok("t", gm.Line{gm.T("x", one), gm.T("y", gm.Opt), gm.T("z", gm.Many)}),
			tok("x", gm.Line{gm.R("A", one)}, gm.Line{gm.R("B", one)}),
			tok("y", gm.Line{gm.T("z", one)}),
			tok("z", gm.Line{gm.R("B", one)}, gm.Line{gm.T("x", one)})}
	case 1: // the same token reads the same text by different lines
		y := tok("y", gm.Line{gm.R("A", one)})
		y.Not = []gm.Line{{gm.R("A_B", one)}}
		g.Toks = []gm.Tok{
			tok("t", gm.Line{gm.T("x", gm.Some), gm.R("B", gm.Opt), gm.T("x", gm.Many)}),
			tok("x", gm.Line{gm.T("y", one)}, gm.Line{gm.T("z", one)}),
			y,
			tok("z", gm.Line{gm.R("A", one)})}
	case 2: // recursive tokens
		g.Toks = []gm.Tok{{Name: "t", Rec: true, Must: []gm.Line{{gm.R("A", one), gm.T("t", gm.Opt), gm.R("B", gm.Opt)}}}}
	case 3: // channels
		g.Toks = []gm.Tok{
			tok("t", gm.Line{gm.R("A", gm.Some), gm.T("x", gm.Many), gm.R("A", gm.Opt)}),
			tok("x", gm.Line{gm.R("B", one), gm.R("C", gm.Opt)})}
		g.Channels = []gm.Tok{tok("space", gm.Line{gm.R("S", one)})}
	case 4: // lines with the same parts more than once
		g.Toks = []gm.Tok{
			tok("t", gm.Line{gm.T("x", one), gm.R("A", one), gm.T("x", gm.Some), gm.R("A", gm.Opt)}, gm.Line{gm.T("x", one), gm.T("y", one)}),
			tok("x", gm.Line{gm.R("B", one)}, gm.Line{gm.R("C", gm.Some)}),
			tok("y", gm.Line{gm.R("A", one), gm.T("x", gm.Opt)})}
	default: // a rule made of a pattern
		g.Toks = []gm.Tok{
			tok("t", gm.Line{gm.R("N", one), gm.R("A", gm.Opt), gm.R("N", gm.Opt), gm.T("x", gm.Opt)}),
			tok("x", gm.Line{gm.R("P", one)})}
	}
	return g
}

func size() int {
	if vt.Deep() {
		return 6
	}
	if vt.Thorough() {
		return 5
	}
	return 4
}

// HTree: the tree holds what was read.
func HTree() {
	g := grammar()
	ast, err := g.Adapter().ToAST(vt.String("script", 1, size()))
	vt.Assert(err == nil, "no-error")
	if err != nil || !ast.IsSuccess() {
		return
	}
	root, err := roots.NewAdapter().ToRoot(ast.Success())
	vt.Assert(err == nil, "tree-made")
	if err != nil {
		return
	}
	vt.Reach("made")
	compare(root, ast.Success())
}

// HHistory: the tree does not depend on the trees made before.
func HHistory() {
	g := grammar()
	ad := roots.NewAdapter()
	for _, s := range []string{vt.String("before", 1, size()-2), vt.String("script", 1, size()-1)} {
		ast, err := g.Adapter().ToAST(s)
		vt.Assert(err == nil, "no-error")
		if err != nil || !ast.IsSuccess() {
			return
		}
		root, err := ad.ToRoot(ast.Success())
		vt.Assert(err == nil, "tree-made")
		if err != nil {
			return
		}
		compare(root, ast.Success())
	}
	vt.Reach("made")
}

func names(r roots.Root, name string, depth int) (direct bool, below bool) {
	for n, node := range r.Nodes().All() {
		if n == name {
			direct = true
		}
		for _, c := range node.Containers().List() {
			if c.HasRoot() {
				d, b := names(c.Root(), name, depth+1)
				below = below || d || b
			}
		}
	}
	return
}

// content is the content of the node found, as a text; it also asserts that exactly one kind of result is given.
func found(r roots.Root, name string) (string, bool) {
	root, node, container, content, err := r.Nodes().Scan(name)
	vt.Assert(root == nil && container == nil && content == "", "a-node-is-found")
	vt.Assert((node == nil) == (err != nil), "node-or-error")
	if node == nil {
		return "", false
	}
	vt.Assert(node.Name() == name, "name-found")
	return node.Content(), true
}

// HScan: an element is found below a root exactly when it is there, before those of the same name further down.
func HScan() {
	g := grammar()
	ast, err := g.Adapter().ToAST(vt.String("script", 1, size()))
	vt.Assert(err == nil, "no-error")
	if err != nil || !ast.IsSuccess() {
		return
	}
	root, err := roots.NewAdapter().ToRoot(ast.Success())
	vt.Assert(err == nil, "tree-made")
	if err != nil {
		return
	}
	name := []string{"t", "x", "y", "z", "A", "B", "N", "absent"}[vt.Choose("name", 8)]
	direct, below := names(root, name, 0)
	content, ok := found(root, name)
	vt.Assert(ok == (direct || below), "found")
	if direct {
		node, err := root.Nodes().Fetch(name)
		vt.Assert(err == nil && node.Content() == content, "the-nearest-is-found")
	} else {
		vt.Assert(!root.Nodes().Exists(name), "exists")
		_, err := root.Nodes().Fetch(name)
		vt.Assert(err != nil, "absent-is-an-error")
	}
	r, node, _, _, err := root.Scan(name)
	if name == root.Name() {
		vt.Assert(err == nil && r == root, "the-root-itself-is-found")
	} else {
		vt.Assert(r == nil && (node != nil) == ok && (err == nil) == ok, "found-from-the-root")
	}
	vt.Reach("scanned")
	vt.MapOrder(2)
	again, ok2 := found(root, name)
	vt.Assert(ok2 == ok && again == content, "map-order")
}

// HBuilders: the parts of a tree are complete.
func HBuilders() {
	name, content := vt.String("name", 0, 2), vt.String("content", 0, 2)
	c, err := roots.NewContainerBuilder().Create().WithName(name).WithContent(content).Now()
	vt.Assert((err == nil) == (name != "" && content != ""), "container-complete")
	if err != nil {
		return
	}
	vt.Assert(c.Name() == name && c.Content() == content && !c.HasRoot() && c.Root() == nil, "container-kept")
	_, err = roots.NewContainersBuilder().Create().WithList([]roots.Container{}).Now()
	vt.Assert(err != nil, "containers-empty")
	other, err := roots.NewContainerBuilder().Create().WithName("other").WithContent("more").Now()
	vt.Assert(err == nil, "container-built")
	vt.Assume(err == nil)
	cs, err := roots.NewContainersBuilder().Create().WithList([]roots.Container{c, other}).Now()
	vt.Assert(err == nil, "containers-built")
	vt.Assume(err == nil)
	vt.Assert(len(cs.List()) == 2 && cs.List()[0] == c && cs.List()[1] == other && cs.Content() == content+"more", "containers-kept")
	got, err := cs.Fetch(name)
	vt.Assert(err == nil && (got == c || name == "other"), "container-fetched")
	got, err = cs.Fetch("other")
	vt.Assert(err == nil && got == other, "container-fetched")
	_, err = cs.Fetch("absent!")
	vt.Assert(err != nil, "container-absent")

	_, err = roots.NewNodeBuilder().Create().WithName("").WithContainers(cs).Now()
	vt.Assert(err != nil, "node-without-a-name")
	_, err = roots.NewNodeBuilder().Create().WithName(name).Now()
	vt.Assert(err != nil, "node-without-containers")
	node, err := roots.NewNodeBuilder().Create().WithName(name).WithContainers(cs).Now()
	vt.Assert(err == nil && node.Name() == name && node.Containers() == cs && node.Content() == cs.Content(), "node-kept")
	vt.Assume(err == nil)

	_, err = roots.NewNodesBuilder().Create().WithNodes(map[string]roots.Node{}).Now()
	vt.Assert(err != nil, "nodes-empty")
	_, err = roots.NewNodesBuilder().Create().Now()
	vt.Assert(err != nil, "nodes-missing")
	nodes, err := roots.NewNodesBuilder().Create().WithNodes(map[string]roots.Node{name: node}).Now()
	vt.Assert(err == nil, "nodes-built")
	vt.Assume(err == nil)

	given := []bool{vt.Bool("with-name"), vt.Bool("with-content"), vt.Bool("with-nodes")}
	b := roots.NewBuilder().Create()
	if given[0] {
		b.WithName(name)
	}
	if given[1] {
		b.WithContent(content)
	}
	if given[2] {
		b.WithNodes(nodes)
	}
	root, err := b.Now()
	vt.Assert((err == nil) == (given[0] && given[1] && given[2]), "root-complete")
	if err == nil {
		vt.Assert(root.Name() == name && root.Content() == content && root.Nodes() == nodes, "root-kept")
		c, err := roots.NewContainerBuilder().Create().WithName("c").WithContent("c").WithRoot(root).Now()
		vt.Assert(err == nil && c.HasRoot() && c.Root() == root, "container-root-kept")
		vt.Reach("built")
	}
	_, err = b.Create().Now()
	vt.Assert(err != nil, "create-forgets")
}

// HLarge: the tree of a large script.
func HLarge() {
	g, script := gm.Large()
	rd := &gm.Reader{G: g}
	rd.Read(script)
	vt.Assume(!rd.Retried)
	ast, err := g.Adapter().ToAST(script)
	vt.Assert(err == nil, "no-error")
	if err != nil || !ast.IsSuccess() {
		return
	}
	root, err := roots.NewAdapter().ToRoot(ast.Success())
	vt.Assert(err == nil, "tree-made")
	if err != nil {
		return
	}
	vt.Reach("made")
	compare(root, ast.Success())
}

// Quick: the quick tier has the larger bounds too.
const Quick = 1
