package main

import (
	"fmt"
	"math"
	"sort"
)

// ---------- abstract trees and the reference interpreter ----------

const (
	missNone = 0
	missZero = 1
	missNaN  = 2
)

// TNode is a decision node. Children: >= 0 is a node, < 0 is leaf ^child.
type TNode struct {
	Feat    int
	Cat     bool
	Thr     float64
	Cats    []uint32 // categories that go left, sorted
	Missing int
	DefLeft bool
	L, R    int
}

type Tree struct {
	Nodes  []TNode
	Leaves []float64
}

// Model is an abstract LightGBM-like model.
type Model struct {
	Trees    []*Tree
	Groups   int
	NFeat    int
	Average  bool
	Exact    bool // every leaf value is a small dyadic rational: sums are exact in any order
	HasCat   bool
	Style    string
	MaxDepth int
	Near     int // trees that are (almost) the same as another one
	Search   int // > 0: search trees with that many leaves
}

func (m *Model) Iters() int { return len(m.Trees) / m.Groups }

// lgGoesLeft is LightGBM's Tree::NumericalDecision / CategoricalDecision
// (x86: a float to int conversion that does not fit yields INT_MIN).
func lgGoesLeft(n *TNode, v float64, ev map[string]int) bool {
	if n.Cat {
		if math.IsNaN(v) {
			ev["cat nan"]++
			return false
		}
		t := math.Trunc(v)
		if t < 0 {
			ev["cat negative"]++
			return false
		}
		if t > 2147483647 {
			ev["cat out of range"]++
			return false
		}
		k := uint32(t)
		i := sort.Search(len(n.Cats), func(i int) bool { return n.Cats[i] >= k })
		if i < len(n.Cats) && n.Cats[i] == k {
			switch {
			case len(n.Cats) == 1:
				ev["cat hit one-hot"]++
			case n.Cats[len(n.Cats)-1] < 32:
				ev["cat hit small"]++
			default:
				ev["cat hit large"]++
			}
			return true
		}
		switch {
		case len(n.Cats) == 1:
			ev["cat miss one-hot"]++
		case n.Cats[len(n.Cats)-1] < 32:
			ev["cat miss small"]++
		default:
			ev["cat miss large"]++
		}
		return false
	}
	if math.IsNaN(v) {
		if n.Missing == missNaN {
			if n.DefLeft {
				ev["nan default left"]++
			} else {
				ev["nan default right"]++
			}
			return n.DefLeft
		}
		ev["nan as zero"]++
		v = 0
	}
	if n.Missing == missZero && v > -1e-35 && v <= 1e-35 {
		if n.DefLeft {
			ev["zero default left"]++
		} else {
			ev["zero default right"]++
		}
		return n.DefLeft
	}
	if v == n.Thr {
		ev["numeric equal"]++
	}
	if v <= n.Thr {
		ev["numeric left"]++
		return true
	}
	ev["numeric right"]++
	return false
}

// xgGoesLeft is XGBoost's RegTree::GetNext (float32 compare, strict).
func xgGoesLeft(n *TNode, v float64, ev map[string]int) bool {
	if math.IsNaN(v) {
		if n.DefLeft {
			ev["nan default left"]++
		} else {
			ev["nan default right"]++
		}
		return n.DefLeft
	}
	f, t := float32(v), float32(n.Thr)
	if f == t {
		ev["numeric equal"]++
	}
	if f < t {
		ev["numeric left"]++
		return true
	}
	ev["numeric right"]++
	return false
}

// skGoesLeft is sklearn's Tree.apply (X is cast to float32, threshold is double).
func skGoesLeft(n *TNode, v float64, ev map[string]int) bool {
	f := float64(float32(v))
	if f == n.Thr {
		ev["numeric equal"]++
	}
	if f <= n.Thr {
		ev["numeric left"]++
		return true
	}
	ev["numeric right"]++
	return false
}

type decideFn func(n *TNode, v float64, ev map[string]int) bool

// leafOf returns the leaf a row reaches and a hash of the path.
func (t *Tree) leafOf(row []float64, d decideFn, ev map[string]int) (int, uint64) {
	if len(t.Nodes) == 0 {
		ev["stump"]++
		return 0, 1
	}
	i := 0
	h := uint64(7)
	for steps := 0; ; steps++ {
		if steps > len(t.Nodes) {
			panic("reference: cycle")
		}
		n := &t.Nodes[i]
		c := n.R
		b := uint64(0)
		if d(n, row[n.Feat], ev) {
			c = n.L
			b = 1
		}
		h = mix(h ^ uint64(i)<<1 ^ b)
		if c < 0 {
			if steps >= 1000 {
				ev["leaf more than 1000 levels down"]++
			}
			return ^c, h
		}
		i = c
	}
}

// ---------- generator ----------

type genOpt struct {
	maxTrees   int
	maxGroups  int
	maxFeat    int
	maxLeaves  int
	cat        float64 // probability that a model has categorical features
	style      string  // "lg", "xg", "sk"
	exact      bool
	forceExact bool
	maxCat     int
	permute    bool
	iters      int // fixed number of iterations if > 0
	groups     int // fixed number of groups if > 0
	nfeat      int
	average    bool
	leaves     int // fixed number of leaves if > 0
	missing    bool
	shape      int  // -1 random, see genTree
	search     bool // search trees: leaf i is reached by the value i in every column
	dupLeaves  bool // few distinct leaf values
	noBig      bool // no models of unusual size
}

// sizeUp now and then makes one dimension of a model larger than small
// counters, the others stay small.
func (o *genOpt) sizeUp(c *C) {
	r := c.R
	if o.noBig || o.search || r.N(40) != 0 {
		return
	}
	switch r.N(4) {
	case 0:
		if o.iters == 0 {
			o.iters = r.Pick(129, 130, 256, 257, 300, 600, 1100)
			if o.groups == 0 {
				o.groups = r.Pick(1, 1, 2, 3)
				if o.groups > 1 {
					o.iters /= 2
				}
			}
			o.maxLeaves = 4
			c.Count("models with more than 128 trees", 1)
		}
	case 1:
		if o.groups == 0 {
			o.groups = r.Pick(17, 33, 65, 129, 257, 300)
			if o.iters == 0 {
				o.iters = r.Range(1, 2)
			}
			o.maxLeaves = 4
			c.Count("models with more than 16 classes", 1)
		}
	case 2:
		if o.nfeat == 0 {
			o.nfeat = r.Pick(256, 257, 300, 512, 1000)
			c.Count("models with more than 255 features", 1)
		}
	case 3:
		if o.leaves == 0 {
			o.maxTrees, o.maxLeaves = 3, r.Pick(257, 300, 1000)
			c.Count("models with large trees", 1)
		}
	}
}

func dyadic(r *Rng) float64 {
	return float64(r.Range(-(1<<20), 1<<20)) / 1024
}

func (r *Rng) leafVal(exact bool) float64 {
	if exact {
		return dyadic(r)
	}
	switch r.N(10) {
	case 0:
		return r.Norm() * 1e-17
	case 1:
		return r.Norm() * 1e3
	case 2:
		return 0
	case 3:
		return math.Copysign(0, -1)
	default:
		return r.Norm() * 0.1
	}
}

func f32(v float64) float64 { return float64(float32(v)) }

// threshold of a numerical split
func (r *Rng) thr(style string) float64 {
	if r.N(40) == 0 {
		switch style {
		case "xg":
			return f32(r.PickF(math.Inf(1), math.Inf(-1), math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, -math.SmallestNonzeroFloat32, 1e-38))
		case "sk":
			return r.PickF(math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, math.MaxFloat32, -math.MaxFloat32, 5e-324, -5e-324)
		default:
			return r.PickF(math.MaxFloat64, -math.MaxFloat64, 1e300, -1e300, 5e-324, -5e-324, math.MaxFloat32, 1<<53+1)
		}
	}
	var v float64
	switch r.N(16) {
	case 0:
		v = 0
	case 1:
		v = math.Copysign(0, -1)
	case 2:
		v = 1.0000000180025095e-35
	case 3:
		v = -1.0000000180025095e-35
	case 4:
		v = float64(r.Range(-5, 5)) + 0.5
	case 5:
		v = float64(r.Range(-5, 5))
	case 6:
		v = math.Ldexp(r.Norm(), r.Range(-300, 300))
	case 7:
		v = r.Norm() * 1e-5
	case 8:
		v = float64(r.Range(-1000000, 1000000)) * 1e4
	case 9:
		v = 0.1 * float64(r.Range(-20, 20))
	default:
		v = r.Norm()
	}
	if style == "xg" {
		if math.Abs(v) > 3e38 {
			v = r.Norm() * 1e37
		}
		v = f32(v)
	}
	if style == "sk" {
		if math.Abs(v) > 3e38 {
			v = r.Norm() * 1e37
		}
	}
	return v
}

func (r *Rng) catSet(maxCat int) []uint32 {
	var hi int
	switch r.N(8) {
	case 0, 1:
		hi = 6
	case 2, 3:
		hi = 32
	case 4:
		hi = 33
	case 5:
		hi = 64
	case 6:
		hi = 200
	default:
		hi = maxCat
	}
	if hi > maxCat {
		hi = maxCat
	}
	n := 1
	switch r.N(4) {
	case 0:
		n = 1
	case 1:
		n = 2
	case 2:
		n = r.Range(2, 6)
	default:
		n = r.Range(1, hi)
		if n > 80 && r.N(3) != 0 {
			n = 80
		}
		if r.N(6) == 0 {
			// numbers of members around the sizes of small counters
			n = r.Pick(31, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257, 258, 511, 512, 513)
			if hi = n + r.Pick(0, 1, 40); hi > maxCat {
				hi = maxCat
			}
			if n > hi {
				n = hi
			}
		}
	}
	set := map[uint32]bool{}
	// edges of bitset words are likely members
	for len(set) < n {
		var v int
		if r.N(4) == 0 {
			v = r.Pick(0, 1, 31, 32, 33, 63, 64, 95, 96, hi-1)
			if v >= hi {
				v = hi - 1
			}
		} else {
			v = r.N(hi)
		}
		set[uint32(v)] = true
		if len(set) >= hi {
			break
		}
	}
	out := make([]uint32, 0, len(set))
	for k := range set {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// searchTree is a balanced tree whose leaf i is reached by rows that have the
// value i in all columns.
func searchTree(r *Rng, o *genOpt, nl, nfeat int) *Tree {
	t := &Tree{}
	var build func(lo, hi int) int
	build = func(lo, hi int) int {
		if hi-lo == 1 {
			t.Leaves = append(t.Leaves, float64(lo))
			return ^(len(t.Leaves) - 1)
		}
		mid := (lo + hi) / 2
		k := len(t.Nodes)
		n := TNode{Feat: r.N(nfeat), Thr: float64(mid) - 0.5}
		if o.missing {
			n.Missing = r.N(2) * missNaN
		} else if o.style == "xg" {
			n.Missing = missNaN
		}
		if o.style == "lg" && hi-lo == 2 && r.Bool() && (lo < 1000 || lo >= nl-40 || lo&(lo-1) < 4 && lo < 1<<16+4) {
			// the last question is about a category: lo goes left
			n.Cat, n.Thr, n.Cats = true, 0, []uint32{uint32(lo)}
			if lo > 0 && r.Bool() {
				n.Cats = []uint32{uint32(r.N(lo)), uint32(lo)}
			}
			n.Missing = missNone
		}
		t.Nodes = append(t.Nodes, n)
		l := build(lo, mid)
		t.Nodes[k].L = l
		t.Nodes[k].R = build(mid, hi)
		return k
	}
	build(0, nl)
	t.renumber(r)
	return t
}

// genTree builds a tree with nl leaves by repeatedly splitting a leaf, the way
// LightGBM numbers nodes; then optionally renumbers nodes and leaves.
func genTree(r *Rng, o *genOpt, nl int, nfeat int, catFeat []bool, exact bool) *Tree {
	t := &Tree{}
	if nl <= 1 {
		t.Leaves = []float64{r.leafVal(exact)}
		return t
	}
	if o.search {
		return searchTree(r, o, nl, nfeat)
	}
	type slot struct{ node, side int }
	leafSlot := []slot{{-1, 0}}
	depth := []int{0}
	shape := o.shape
	if shape < 0 {
		shape = r.N(6)
	}
	spine, side := 0, 0
	for k := 0; k < nl-1; k++ {
		var l int
		switch shape {
		case 6, 7: // a chain to the right (left) with a split on the other side at every level
			if k%2 == 1 {
				l = side
			} else if l = spine; shape == 6 {
				spine, side = k+1, l
			} else {
				side = k + 1
			}
		case 0: // right chain (newest leaf is the right child)
			l = len(leafSlot) - 1
		case 1: // left chain
			l = 0
		case 2: // breadth first
			l = 0
			for i := range depth {
				if depth[i] < depth[l] {
					l = i
				}
			}
		case 3: // zig-zag
			if k%2 == 0 {
				l = len(leafSlot) - 1
			} else {
				l = r.N(len(leafSlot))
			}
		default:
			l = r.N(len(leafSlot))
		}
		n := TNode{Feat: r.N(nfeat), L: ^l, R: ^(k + 1)}
		if r.N(12) == 0 {
			n.Feat = nfeat - 1
		}
		if o.shape >= 0 && nfeat >= nl && nl > 1000 && shape != 2 {
			n.Feat = k // so that a row can reach every depth
		}
		if catFeat != nil && catFeat[n.Feat] {
			n.Cat = true
			n.Cats = r.catSet(o.maxCat)
			n.Missing = r.Pick(missNone, missNaN, missNone, missZero)
			n.DefLeft = r.N(3) == 0
		} else {
			n.Thr = r.thr(o.style)
			if o.missing {
				n.Missing = r.N(3)
				n.DefLeft = r.Bool()
			} else if o.style == "xg" {
				n.Missing = missNaN
				n.DefLeft = r.Bool()
			}
		}
		t.Nodes = append(t.Nodes, n)
		if s := leafSlot[l]; s.node >= 0 {
			if s.side == 0 {
				t.Nodes[s.node].L = k
			} else {
				t.Nodes[s.node].R = k
			}
		}
		leafSlot[l] = slot{k, 0}
		leafSlot = append(leafSlot, slot{k, 1})
		depth[l]++
		depth = append(depth, depth[l])
	}
	t.Leaves = make([]float64, nl)
	seen := map[float64]bool{}
	for i := range t.Leaves {
		v := r.leafVal(exact)
		if o.dupLeaves {
			t.Leaves[i] = float64(r.N(3)) / 2
			continue
		}
		for tries := 0; seen[v] && tries < 4; tries++ {
			v = r.leafVal(exact)
		}
		seen[v] = true
		t.Leaves[i] = v
	}
	if o.permute && r.Bool() {
		t.renumber(r)
	}
	return t
}

// renumber permutes node (root stays 0) and leaf indices.
func (t *Tree) renumber(r *Rng) {
	nn, nl := len(t.Nodes), len(t.Leaves)
	np := make([]int, nn)
	if nn > 1 {
		q := r.Perm(nn - 1)
		for i, v := range q {
			np[i+1] = v + 1
		}
	}
	lp := r.Perm(nl)
	nodes := make([]TNode, nn)
	leaves := make([]float64, nl)
	conv := func(c int) int {
		if c < 0 {
			return ^lp[^c]
		}
		return np[c]
	}
	for i, n := range t.Nodes {
		n.L, n.R = conv(n.L), conv(n.R)
		nodes[np[i]] = n
	}
	for i, v := range t.Leaves {
		leaves[lp[i]] = v
	}
	t.Nodes, t.Leaves = nodes, leaves
}

func (t *Tree) clone() *Tree {
	n := &Tree{Nodes: append([]TNode(nil), t.Nodes...), Leaves: append([]float64(nil), t.Leaves...)}
	for i := range n.Nodes {
		n.Nodes[i].Cats = append([]uint32(nil), n.Nodes[i].Cats...)
	}
	return n
}

// alter changes one thing in a tree and keeps its shape.
func (t *Tree) alter(r *Rng, o *genOpt, exact bool) {
	if len(t.Nodes) == 0 || r.N(3) == 0 {
		if !o.dupLeaves {
			v := r.leafVal(exact)
			if o.style == "xg" {
				v = float64(float32(v))
			}
			t.Leaves[r.N(len(t.Leaves))] = v
		}
		return
	}
	n := &t.Nodes[r.N(len(t.Nodes))]
	if n.Cat {
		// one member more or less, now and then not the first or the last one
		k := r.N(len(n.Cats))
		v := n.Cats[k]
		if len(n.Cats) > 1 && r.Bool() {
			n.Cats = append(n.Cats[:k:k], n.Cats[k+1:]...)
		} else if v > 0 && (k == 0 || n.Cats[k-1] != v-1) {
			n.Cats[k] = v - 1
		} else {
			n.Missing = missNone + missNaN - n.Missing&missNaN
		}
		return
	}
	switch r.N(4) {
	case 0:
		n.DefLeft = !n.DefLeft
	case 1:
		n.L, n.R = n.R, n.L
	case 2:
		if o.missing {
			n.Missing = (n.Missing + r.Range(1, 2)) % 3
		} else {
			n.Thr = r.thr(o.style)
		}
	default:
		n.Thr = ulps(n.Thr, r.Range(1, 2), o.style)
		if o.style == "lg" && math.IsInf(n.Thr, 0) {
			n.Thr = 0
		}
	}
}

func (m *Model) clone() *Model {
	n := *m
	n.Trees = nil
	for _, t := range m.Trees {
		n.Trees = append(n.Trees, t.clone())
	}
	return &n
}

func genModel(r *Rng, o genOpt) *Model {
	m := &Model{Style: o.style}
	m.Groups = 1
	if o.groups > 0 {
		m.Groups = o.groups
	} else if o.maxGroups > 1 && r.N(2) == 0 {
		m.Groups = r.Range(1, o.maxGroups)
	}
	iters := o.iters
	if iters == 0 {
		iters = r.Range(1, (o.maxTrees+m.Groups-1)/m.Groups)
		if r.N(3) == 0 {
			iters = r.Range(1, 3)
		}
	}
	m.NFeat = o.nfeat
	if m.NFeat == 0 {
		switch r.N(5) {
		case 0:
			m.NFeat = r.Range(1, 3)
		case 1:
			m.NFeat = o.maxFeat
		default:
			m.NFeat = r.Range(1, o.maxFeat)
		}
	}
	m.Average = o.average
	if o.search {
		m.Search = o.leaves
		o.cat = 0
	}
	m.Exact = o.forceExact || (o.exact && r.N(4) != 0)
	var catFeat []bool
	if o.cat > 0 && r.P(o.cat) {
		catFeat = make([]bool, m.NFeat)
		dens := r.PickF(0.2, 0.5, 1)
		if o.cat > 1 {
			dens = 1
		}
		for i := range catFeat {
			catFeat[i] = r.P(dens)
		}
	}
	if o.maxCat == 0 {
		o.maxCat = 300
	}
	oo := o
	for i := 0; i < iters*m.Groups; i++ {
		nl := o.leaves
		if nl == 0 {
			switch r.N(8) {
			case 0:
				nl = 1
			case 1:
				nl = 2
			case 2:
				nl = r.Range(1, 4)
			default:
				nl = r.Range(2, o.maxLeaves)
			}
		}
		if i > 0 && !o.search && o.leaves == 0 && r.N(10) == 0 {
			// the same tree again, or almost the same
			t := m.Trees[r.N(i)].clone()
			if r.N(6) != 0 {
				t.alter(r, &oo, m.Exact)
			}
			m.Trees = append(m.Trees, t)
			m.Near++
			continue
		}
		m.Trees = append(m.Trees, genTree(r, &oo, nl, m.NFeat, catFeat, m.Exact))
	}
	for _, t := range m.Trees {
		for i := range t.Nodes {
			if t.Nodes[i].Cat {
				m.HasCat = true
			}
		}
	}
	return m
}

// ---------- rows ----------

func validInput(style string, v float64) float64 {
	a := math.Abs(v)
	if style == "lg" && a > 0.99999e-35 && a < 1.00001e-35 {
		// LightGBM's zero threshold is a float constant: its exact value is
		// not part of the property
		return 0
	}
	if style == "xg" || style == "sk" {
		if math.IsInf(v, 0) {
			return v
		}
		if a > math.MaxFloat32 {
			return math.Copysign(math.MaxFloat32, v)
		}
		return f32(v)
	}
	return v
}

func ulps(v float64, k int, style string) float64 {
	if style == "xg" || style == "sk" {
		f := float32(v)
		for ; k > 0; k-- {
			f = math.Nextafter32(f, float32(math.Inf(1)))
		}
		for ; k < 0; k++ {
			f = math.Nextafter32(f, float32(math.Inf(-1)))
		}
		return float64(f)
	}
	for ; k > 0; k-- {
		v = math.Nextafter(v, math.Inf(1))
	}
	for ; k < 0; k++ {
		v = math.Nextafter(v, math.Inf(-1))
	}
	return v
}

// inputNear returns a value that is interesting for node n.
func (r *Rng) inputNear(n *TNode, style string) float64 {
	if n != nil && n.Cat {
		c := float64(n.Cats[r.N(len(n.Cats))])
		switch r.N(20) {
		case 9:
			return c + 65536*float64(r.Range(1, 32000))
		case 10:
			return c + 256*float64(r.Range(1, 300))
		case 11:
			return c + math.Ldexp(1, r.Range(6, 33))
		case 0:
			return c + 0.5
		case 1:
			return c + 1
		case 2:
			return c - 1
		case 3:
			return c + 4294967296
		case 4:
			return -c
		case 5:
			return c + 32
		case 6:
			return float64(n.Cats[len(n.Cats)-1]) + float64(r.Range(1, 70))
		case 7:
			return c + 2147483648
		case 8:
			return c + 0.9999999
		default:
			return c
		}
	}
	if n != nil && r.N(3) != 0 {
		return ulps(n.Thr, r.Pick(0, 0, 1, -1, 2, -2), style)
	}
	return r.inputAny(style)
}

func (r *Rng) inputAny(style string) float64 {
	switch r.N(22) {
	case 0:
		return 0
	case 1:
		return math.Copysign(0, -1)
	case 2:
		return math.Inf(1)
	case 3:
		return math.Inf(-1)
	case 4:
		return 5e-324
	case 5:
		return -5e-324
	case 6:
		return 9e-36
	case 7:
		return -9e-36
	case 8:
		return 2e-35
	case 9:
		return -2e-35
	case 10:
		return math.MaxFloat64
	case 11:
		return -math.MaxFloat64
	case 12:
		return float64(r.N(70))
	case 13:
		return float64(r.Range(-3, 3)) + 0.5
	case 14:
		return -0.5
	case 15:
		return 2147483648 + float64(r.N(40))
	case 16:
		return 1e300
	default:
		return r.Norm() * math.Pow(10, float64(r.Range(-3, 3)))
	}
}

// rowGen produces rows for a model.
type rowGen struct {
	m     *Model
	style string
	nan   float64 // probability of NaN per value
	byF   [][]*TNode
	noInf bool
	h     map[*Tree][]int // levels below each node of the big trees
}

func newRowGen(m *Model, nan float64) *rowGen {
	g := &rowGen{m: m, style: m.Style, nan: nan, byF: make([][]*TNode, m.NFeat)}
	for _, t := range m.Trees {
		if len(t.Nodes) >= 1000 {
			if g.h == nil {
				g.h = map[*Tree][]int{}
			}
			g.h[t] = heights(t)
		}
		for i := range t.Nodes {
			n := &t.Nodes[i]
			if n.Feat < len(g.byF) && len(g.byF[n.Feat]) < 64 {
				g.byF[n.Feat] = append(g.byF[n.Feat], n)
			}
		}
	}
	return g
}

func (g *rowGen) value(r *Rng, f int) float64 {
	for {
		var v float64
		switch {
		case r.P(g.nan):
			v = r.NaN()
		case len(g.byF[f]) > 0 && r.N(4) != 0:
			v = r.inputNear(g.byF[f][r.N(len(g.byF[f]))], g.style)
		default:
			v = r.inputAny(g.style)
		}
		v = validInput(g.style, v)
		if g.noInf && math.IsInf(v, 0) {
			continue
		}
		return v
	}
}

// row returns a random row; with probability 1/2 it is steered to a random
// leaf of a random tree.
func (g *rowGen) row(r *Rng, d decideFn) []float64 {
	row := make([]float64, g.m.NFeat)
	if n := g.m.Search; n > 0 && r.N(20) != 0 {
		v := float64(r.N(n))
		if r.Bool() {
			// the ends and the powers of two
			v = float64(r.Pick(0, n-1, n/2, 1<<16, 1<<15, 1<<8, n-2, r.N(32), r.N(1000), n-r.N(40)) + r.Range(-1, 1))
		}
		for f := range row {
			row[f] = v
		}
		return row
	}
	sparse := r.N(4) == 0
	for f := range row {
		if sparse && r.N(3) != 0 {
			continue
		}
		row[f] = g.value(r, f)
	}
	if r.Bool() {
		g.steer(r, row, g.m.Trees[r.N(len(g.m.Trees))], d)
	}
	return row
}

func heightOf(h []int, c int) int {
	if c < 0 {
		return 0
	}
	return h[c]
}

// heights tells how many levels lie below each node.
func heights(t *Tree) []int {
	order := []int{0}
	for k := 0; k < len(order); k++ {
		n := &t.Nodes[order[k]]
		if n.L >= 0 {
			order = append(order, n.L)
		}
		if n.R >= 0 {
			order = append(order, n.R)
		}
	}
	h := make([]int, len(t.Nodes))
	for k := len(order) - 1; k >= 0; k-- {
		n := &t.Nodes[order[k]]
		a, b := heightOf(h, n.L), heightOf(h, n.R)
		if a < b {
			a = b
		}
		h[order[k]] = a + 1
	}
	return h
}

func (g *rowGen) steer(r *Rng, row []float64, t *Tree, d decideFn) {
	if len(t.Nodes) == 0 {
		return
	}
	ev := map[string]int{}
	fixed := map[int]bool{}
	i := 0
	h := g.h[t]
	stray := r.Pick(8, 40, 1000, 5000) // how soon a row leaves a long chain
	for {
		n := &t.Nodes[i]
		want := r.Bool()
		// prefer the deeper side now and then, so that long chains are followed
		if n.L < 0 && n.R >= 0 && r.N(8) != 0 {
			want = false
		} else if n.R < 0 && n.L >= 0 && r.N(8) != 0 {
			want = true
		}
		if h != nil && r.N(stray) != 0 {
			if d := heightOf(h, n.L) - heightOf(h, n.R); d > 8 || d < -8 {
				want = d > 0
			}
		}
		if d(n, row[n.Feat], ev) != want {
			if !fixed[n.Feat] {
				old := row[n.Feat]
				ok := false
				tries := 6
				if h != nil {
					tries = 18
				}
				for k := 0; k < tries; k++ {
					v := g.value(r, n.Feat)
					if k >= 3 {
						v = r.inputNear(n, g.style)
					}
					if k >= 6 {
						v = []float64{n.Thr, math.Nextafter(n.Thr, 1e300), n.Thr + math.Abs(n.Thr)/2, n.Thr - math.Abs(n.Thr)/2, n.Thr + 1, n.Thr - 1, 1e30, -1e30, 0, r.NaN(), 1e6, -1e6}[k-6]
						if v != v && g.nan == 0 {
							continue
						}
					}
					v = validInput(g.style, v)
					if g.noInf && math.IsInf(v, 0) {
						continue
					}
					if d(n, v, ev) == want {
						row[n.Feat] = v
						ok = true
						break
					}
				}
				if !ok {
					row[n.Feat] = old
					want = !want
				}
			} else {
				want = !want
			}
		}
		if r.N(6) == 0 {
			fixed[n.Feat] = true
		}
		c := n.R
		if d(n, row[n.Feat], ev) {
			c = n.L
		}
		if c < 0 {
			return
		}
		i = c
	}
}

// refResult is what the reference interpreter says about one row.
type refResult struct {
	Raw  []float64
	Leaf []int // [tree]
	Hash uint64
	Abs  float64 // sum of |leaf| (tolerance scale)
}

func (m *Model) reference(row []float64, d decideFn, iters int, ev map[string]int) refResult {
	if iters <= 0 || iters > m.Iters() {
		iters = m.Iters()
	}
	res := refResult{Raw: make([]float64, m.Groups), Hash: 3}
	for i := 0; i < iters*m.Groups; i++ {
		l, h := m.Trees[i].leafOf(row, d, ev)
		res.Leaf = append(res.Leaf, l)
		res.Raw[i%m.Groups] += m.Trees[i].Leaves[l]
		res.Abs += absFin(m.Trees[i].Leaves[l])
		res.Hash = mix(res.Hash ^ h)
	}
	if m.Average {
		for k := range res.Raw {
			res.Raw[k] /= float64(iters)
		}
	}
	return res
}

// absFin is the size of a term of a sum: infinite and NaN ones decide the sum
// in any order and add nothing to what rounding may change
func absFin(v float64) float64 {
	if math.IsNaN(v) || math.IsInf(v, 0) {
		return 0
	}
	return math.Abs(v)
}

// closeTo compares a prediction with the reference: exact models have sums
// that are exact in any order, so only the division of a mean may round.
func closeTo(got, want, scale float64) bool {
	if got == want {
		return true
	}
	if math.IsNaN(want) || math.IsInf(want, 0) || math.IsNaN(got) || math.IsInf(got, 0) {
		return same(got, want)
	}
	return math.Abs(got-want) <= 1e-12*(scale+math.Abs(want))+1e-300
}

func addCounts(c *C, prefix string, ev map[string]int) {
	for k, v := range ev {
		c.Count(prefix+k, v)
	}
}

func (m *Model) describe() string {
	nl, nn := 0, 0
	for _, t := range m.Trees {
		nl += len(t.Leaves)
		nn += len(t.Nodes)
	}
	return fmt.Sprintf("%s model: %d trees, %d groups, %d features, %d nodes, %d leaves, categorical=%v, average=%v, exact=%v",
		m.Style, len(m.Trees), m.Groups, m.NFeat, nn, nl, m.HasCat, m.Average, m.Exact)
}
