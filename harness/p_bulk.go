package main

import (
	"fmt"
	"strings"

	"github.com/dmitryikh/leaves"
)

// bulky inputs: whatever is repeated or nested often in them, loading has to
// take time and memory in proportion to their length.

type bulk struct {
	what string
	kind string
	make func(c *C, n int) []byte
}

func lines(n int, f func(i int) string) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(f(i))
	}
	return b.String()
}

const lgHead = "tree\nversion=v2\nnum_class=1\nnum_tree_per_iteration=1\nlabel_index=0\nmax_feature_idx=3\n"

func same1(s string) func(i int) string { return func(int) string { return s } }

// chainTree is a tree of n leaves in which every node has a leaf child.
func chainTree(r *Rng, n int, style string, side int) *Model {
	t := &Tree{}
	for i := 0; i < n-1; i++ {
		nd := TNode{Feat: i % 4, Thr: float64(n - i), L: ^i, R: i + 1}
		if style == "xg" {
			nd.Missing = missNaN
		}
		if i == n-2 {
			nd.R = ^(n - 1)
		}
		if side == 1 || side == 2 && i%2 == 1 {
			nd.L, nd.R = nd.R, nd.L
		}
		t.Nodes = append(t.Nodes, nd)
	}
	for i := 0; i < n; i++ {
		t.Leaves = append(t.Leaves, float64(i%1000)/8)
	}
	return &Model{Trees: []*Tree{t}, Groups: 1, NFeat: 4, Exact: true, Style: style}
}

func stumps(n, groups int, style string, nl int) *Model {
	m := &Model{Groups: groups, NFeat: 4, Exact: true, Style: style}
	for i := 0; i < n*groups; i++ {
		t := &Tree{Leaves: []float64{float64(i % 7)}}
		if nl == 2 {
			nd := TNode{Feat: i % 4, Thr: float64(i), L: -1, R: -2}
			if style == "xg" {
				nd.Missing = missNaN
			}
			t.Nodes, t.Leaves = []TNode{nd}, []float64{1, 2}
		}
		m.Trees = append(m.Trees, t)
	}
	return m
}

func bulkXG(r *Rng, m *Model, dart bool) []byte {
	x := &xgModel{Model: m, Objective: "reg:linear", Dart: dart}
	if dart {
		for range m.Trees {
			x.Weights = append(x.Weights, 0.5)
		}
	}
	return x.emit(r)
}

func bulkSK(r *Rng, m *Model) []byte {
	s := &skModel{Model: m, LR: 0.5, NClasses: m.Groups, MaxFeat: m.NFeat}
	if m.Groups == 1 {
		s.NClasses = 2
	}
	for k := 0; k < m.Groups; k++ {
		s.Prior = append(s.Prior, 1)
	}
	for k := 0; k < s.NClasses; k++ {
		s.classes = append(s.classes, k)
	}
	return s.emit(r, randSKEmit(r))
}

func bulkLG(m *Model) []byte {
	return (&lgText{version: "v2", objective: "regression"}).emit(m)
}

var bulks = []bulk{
	{"a list with many elements appended", "sk", func(c *C, n int) []byte {
		return []byte("(l" + strings.Repeat("Na", n) + ".")
	}},
	{"a memorized list with many elements appended", "sk", func(c *C, n int) []byte {
		return []byte("(lp0\n" + strings.Repeat("Na", n) + ".")
	}},
	{"many marks", "sk", func(c *C, n int) []byte { return []byte(strings.Repeat("(", n) + ".") }},
	{"a list of many elements", "sk", func(c *C, n int) []byte { return []byte("(" + strings.Repeat("N", n) + "l.") }},
	{"deeply nested tuples", "sk", func(c *C, n int) []byte { return []byte(strings.Repeat("(", n) + strings.Repeat("t", n) + ".") }},
	{"deeply nested lists", "sk", func(c *C, n int) []byte {
		return []byte("(l" + strings.Repeat("(l", n) + strings.Repeat("a", n) + ".")
	}},
	{"deeply nested dicts", "sk", func(c *C, n int) []byte {
		return []byte(strings.Repeat("(dVa\n", n) + "N" + strings.Repeat("s", n) + ".")
	}},
	{"a long string", "sk", func(c *C, n int) []byte { return []byte("V" + strings.Repeat("x", 10*n) + "\n.") }},
	{"a long string of escapes", "sk", func(c *C, n int) []byte { return []byte("V" + strings.Repeat("\\u005c", n) + "\n.") }},
	{"a long number", "sk", func(c *C, n int) []byte { return []byte("F" + strings.Repeat("1", n) + "\n.") }},
	{"many memo entries", "sk", func(c *C, n int) []byte {
		return []byte("N" + lines(n, func(i int) string { return fmt.Sprintf("p%d\n", i) }) + ".")
	}},
	{"one memo entry written many times", "sk", func(c *C, n int) []byte { return []byte("N" + strings.Repeat("p1\n", n) + ".") }},
	{"one memo entry read many times", "sk", func(c *C, n int) []byte { return []byte("(Np1\n" + strings.Repeat("g1\n", n) + "l.") }},
	{"a tower of builds", "sk", func(c *C, n int) []byte { return []byte("ca\nb\n(tRp0\n" + strings.Repeat("Nbp0\n", n) + ".") }},
	{"a tower of reduces", "sk", func(c *C, n int) []byte { return []byte("ca\nb\n(t" + strings.Repeat("R(t", n) + "R.") }},
	{"a dict of many keys", "sk", func(c *C, n int) []byte {
		return []byte("(d" + lines(n, func(i int) string { return fmt.Sprintf("V%d\nNs", i) }) + ".")
	}},
	{"tuples that share their elements", "sk", func(c *C, n int) []byte {
		return []byte("Np0\n" + strings.Repeat("(g0\ng0\ntp0\n", n/5) + ".")
	}},
	{"a valid model with a large tree", "sk", func(c *C, n int) []byte { return bulkSK(c.R, chainTree(c.R, n/20, "sk", 2)) }},
	{"a valid model with many trees", "sk", func(c *C, n int) []byte { return bulkSK(c.R, stumps(n/100, 1, "sk", 2)) }},
	{"a valid model with many classes", "sk", func(c *C, n int) []byte { return bulkSK(c.R, stumps(2, n/200, "sk", 2)) }},

	{"a header of many keys", "lgtext", func(c *C, n int) []byte {
		return []byte(lgHead + lines(n, func(i int) string { return fmt.Sprintf("k%d=1\n", i) }) + "\n")
	}},
	{"one key many times", "lgtext", func(c *C, n int) []byte { return []byte(lgHead + strings.Repeat("k=1\n", n) + "\n") }},
	{"many blank lines", "lgtext", func(c *C, n int) []byte { return []byte(strings.Repeat("\n", 10*n) + lgHead) }},
	{"a long line", "lgtext", func(c *C, n int) []byte { return []byte(lgHead + "k=" + strings.Repeat("1 ", 5*n) + "\n\n") }},
	{"a line of separators", "lgtext", func(c *C, n int) []byte { return []byte(lgHead + "k" + strings.Repeat("=", 5*n) + "\n\n") }},
	{"a long number", "lgtext", func(c *C, n int) []byte {
		return []byte(lgHead + "tree_sizes=1\n\nTree=0\nnum_leaves=1\nnum_cat=0\nleaf_value=" + strings.Repeat("1", n) + "\n\n")
	}},
	{"many announced trees", "lgtext", func(c *C, n int) []byte {
		return []byte(lgHead + "tree_sizes=1" + strings.Repeat(" 1", n) + "\n\nTree=0\nnum_leaves=1\nnum_cat=0\nleaf_value=1\n\n")
	}},
	{"a valid model with many trees", "lgtext", func(c *C, n int) []byte { return bulkLG(stumps(n/4, 1, "lg", 1)) }},
	{"a valid model with many classes", "lgtext", func(c *C, n int) []byte { return bulkLG(stumps(1, n/20, "lg", 2)) }},
	{"a valid model with a right chain", "lgtext", func(c *C, n int) []byte { return bulkLG(chainTree(c.R, n/4, "lg", 0)) }},
	{"a valid model with a left chain", "lgtext", func(c *C, n int) []byte { return bulkLG(chainTree(c.R, n/4, "lg", 1)) }},
	{"a valid model with a zig-zag chain", "lgtext", func(c *C, n int) []byte { return bulkLG(chainTree(c.R, n/4, "lg", 2)) }},
	{"a valid model with many category sets", "lgtext", func(c *C, n int) []byte {
		m := chainTree(c.R, n/20, "lg", 2)
		for i := range m.Trees[0].Nodes {
			nd := &m.Trees[0].Nodes[i]
			nd.Cat, nd.Thr, nd.Cats = true, 0, []uint32{uint32(i % 50), 64}
		}
		m.HasCat = true
		return bulkLG(m)
	}},
	{"a valid model with a large category set", "lgtext", func(c *C, n int) []byte {
		m := chainTree(c.R, 3, "lg", 2)
		nd := &m.Trees[0].Nodes[0]
		nd.Cat, nd.Thr = true, 0
		for i := 0; i < n; i++ {
			nd.Cats = append(nd.Cats, uint32(i*7))
		}
		m.HasCat = true
		return bulkLG(m)
	}},

	{"open brackets", "lgjson", func(c *C, n int) []byte { return []byte(strings.Repeat("[", n)) }},
	{"deeply nested brackets", "lgjson", func(c *C, n int) []byte {
		return []byte(`{"x":` + strings.Repeat("[", 9000) + strings.Repeat("]", 9000) + "}")
	}},
	{"a long string", "lgjson", func(c *C, n int) []byte { return []byte(`{"name":"` + strings.Repeat("x", 10*n) + `"}`) }},
	{"many keys", "lgjson", func(c *C, n int) []byte {
		return []byte("{" + lines(n, func(i int) string { return fmt.Sprintf(`"k%d":1,`, i) }) + `"name":"tree"}`)
	}},
	{"a valid model with many trees", "lgjson", func(c *C, n int) []byte { return (&lgJSON{mixCats: c.R}).emit(stumps(n/8, 1, "lg", 1)) }},
	{"a valid model with a right chain", "lgjson", func(c *C, n int) []byte {
		return (&lgJSON{mixCats: c.R}).emit(chainTree(c.R, 9900, "lg", 0))
	}},
	{"a valid model with a left chain", "lgjson", func(c *C, n int) []byte {
		return (&lgJSON{mixCats: c.R}).emit(chainTree(c.R, 9900, "lg", 1))
	}},
	{"a valid model with a zig-zag chain", "lgjson", func(c *C, n int) []byte {
		return (&lgJSON{mixCats: c.R}).emit(chainTree(c.R, 6000, "lg", 2))
	}},
	{"a valid model with many category sets", "lgjson", func(c *C, n int) []byte {
		m := chainTree(c.R, 5000, "lg", 2)
		for i := range m.Trees[0].Nodes {
			nd := &m.Trees[0].Nodes[i]
			nd.Cat, nd.Thr, nd.Cats = true, 0, []uint32{uint32(i % 50), 64}
		}
		m.HasCat = true
		return (&lgJSON{mixCats: c.R}).emit(m)
	}},
	{"a long category list", "lgjson", func(c *C, n int) []byte {
		m := chainTree(c.R, 3, "lg", 2)
		nd := &m.Trees[0].Nodes[0]
		nd.Cat, nd.Thr = true, 0
		for i := 0; i < n; i++ {
			nd.Cats = append(nd.Cats, uint32(i))
		}
		m.HasCat = true
		return (&lgJSON{mixCats: c.R}).emit(m)
	}},

	{"a valid model with many trees", "xgtree", func(c *C, n int) []byte { return bulkXG(c.R, stumps(n/10, 1, "xg", 1), false) }},
	{"a valid model with many classes", "xgtree", func(c *C, n int) []byte { return bulkXG(c.R, stumps(1, n/20, "xg", 2), false) }},
	{"a valid model with a right chain", "xgtree", func(c *C, n int) []byte { return bulkXG(c.R, chainTree(c.R, n/4, "xg", 0), false) }},
	{"a valid model with a left chain", "xgtree", func(c *C, n int) []byte { return bulkXG(c.R, chainTree(c.R, n/4, "xg", 1), false) }},
	{"a valid model with a zig-zag chain", "xgtree", func(c *C, n int) []byte { return bulkXG(c.R, chainTree(c.R, n/4, "xg", 2), false) }},
	{"a valid model with many weighted trees", "xgdart", func(c *C, n int) []byte { return bulkXG(c.R, stumps(n/10, 1, "xg", 1), true) }},
	{"a valid model with many features", "xglin", func(c *C, n int) []byte {
		l := &linModel{NFeat: 3 * n, Groups: 1, Objective: "reg:linear", W: make([]float32, 3*n+1)}
		return l.emit()
	}},
	{"a valid model with many classes", "xglin", func(c *C, n int) []byte {
		l := &linModel{NFeat: 4, Groups: n, Objective: "reg:linear", W: make([]float32, 5*n)}
		return l.emit()
	}},
	{"a long objective name", "xgtree", func(c *C, n int) []byte {
		x := &xgModel{Model: stumps(1, 1, "xg", 2), Objective: strings.Repeat("x", 10*n)}
		return x.emit(c.R)
	}},
}

func runBulk(c *C) {
	bk := bulks[c.Idx%len(bulks)]
	n := c.R.Range(280000, 320000)
	b := bk.make(c, n)
	load := map[string]func(b []byte) (*leaves.Ensemble, error){
		"lgtext": func(b []byte) (*leaves.Ensemble, error) { return loadLG(b, false) },
		"lgjson": loadJSON,
		"xgtree": func(b []byte) (*leaves.Ensemble, error) { return loadXG(b, false) },
		"xgdart": func(b []byte) (*leaves.Ensemble, error) { return loadXG(b, false) },
		"xglin":  func(b []byte) (*leaves.Ensemble, error) { return loadXGLin(b, false) },
		"sk":     loadSK,
	}[bk.kind]
	what := fmt.Sprintf("%s input of %d bytes (%s)", bk.kind, len(b), bk.what)
	c.Dump("input", what)
	var e *leaves.Ensemble
	var err error
	a0, t0 := allocated(), cpuNow()
	if m, p := c.Try(func() { e, err = load(b) }); p {
		c.Fail("loading a %s panicked: %s", what, m)
	}
	used, cpu := allocated()-a0, cpuNow()-t0
	if lim := int64(48<<20) + 200*int64(len(b)); used > lim {
		c.Fail("loading a %s allocated %d bytes", what, used)
	}
	if lim := int64(4e9) + 6000*int64(len(b)); cpu > lim {
		c.Fail("loading a %s took %d ms of CPU time", what, cpu/1e6)
	}
	if strings.HasPrefix(bk.what, "a valid") {
		if err != nil {
			c.Fail("a %s is rejected: %v", what, err)
		}
		if m, p := c.Try(func() { usePredict(c, e, c.R) }); p {
			c.Fail("predicting with a %s panicked: %s", what, m)
		}
		c.Count("bulky models loaded", 1)
	} else {
		if err == nil && e == nil {
			c.Fail("loading a %s returned neither a model nor an error", what)
		}
		if err != nil {
			if m, p := c.Try(func() { _ = err.Error() }); p {
				c.Fail("the error of loading a %s cannot be read: %s", what, m)
			}
		}
	}
	c.Count("bulky inputs", 1)
	c.Sample("%s: %d ms, %d bytes allocated, error %v", what, cpu/1e6, used, err != nil)
	c.Eval(hashStr(what), true)
}
