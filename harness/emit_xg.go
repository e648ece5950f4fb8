package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
)

// xgModel adds what XGBoost's binary format needs to an abstract model.
type xgModel struct {
	*Model
	Base       float32
	Dart       bool
	Weights    []float32 // dart tree weights
	Objective  string
	Tail       []byte
	SizeLeaf   int32
	NumClass   int32
	Deleted    bool // deleted nodes interleaved with live ones
	Wide       int  // header features minus tree features
	rootPruned []bool
}

func leU32(b *bytes.Buffer, v uint32) { binary.Write(b, binary.LittleEndian, v) }
func leU64(b *bytes.Buffer, v uint64) { binary.Write(b, binary.LittleEndian, v) }
func leI32(b *bytes.Buffer, v int)    { binary.Write(b, binary.LittleEndian, int32(v)) }
func leF32(b *bytes.Buffer, v float32) {
	binary.Write(b, binary.LittleEndian, math.Float32bits(v))
}
func xgString(b *bytes.Buffer, s string) {
	leU64(b, uint64(len(s)))
	b.WriteString(s)
}

func zeros(b *bytes.Buffer, n int) { b.Write(make([]byte, n)) }

// the version of XGBoost (0 0 before it wrote it) and whether there are
// evaluation metrics in the tail do not change predictions
type xgWriter struct{ metrics, major, minor int }

func randXGWriter(r *Rng) (w xgWriter) {
	if r.Bool() {
		w.metrics = r.N(2)
		w.major = r.N(3)
		w.minor = r.N(8)
	}
	return
}

// oddF32 is a value of a field that predictions do not depend on
func oddF32(r *Rng) float32 {
	switch r.N(3) {
	case 0:
		return float32(r.PickF(0, 0, 1, -1, 0.5, 1e30, 1e-30, math.Inf(1), math.NaN(), -777))
	case 1:
		return float32(r.N(100))
	}
	return float32(r.Norm())
}

func xgHeader(b *bytes.Buffer, base float32, nfeat uint32, nclass int32, extra int, w xgWriter, obj, gbm string) {
	leF32(b, base)
	leU32(b, nfeat)
	leI32(b, int(nclass))
	leI32(b, extra)
	leI32(b, w.metrics)
	leI32(b, w.major)
	leI32(b, w.minor)
	zeros(b, 27*4)
	xgString(b, obj)
	xgString(b, gbm)
}

// xgNodes lays the tree out as XGBoost does: node array with leaves inline,
// optionally with deleted (unreachable) nodes in between.
func (x *xgModel) tree(r *Rng, t *Tree, pruned bool) []byte {
	type slot struct {
		node int // tree node, or -1-leaf
	}
	// order: random order of nodes and leaves, root first
	ids := []int{}
	for i := range t.Nodes {
		ids = append(ids, i)
	}
	for i := range t.Leaves {
		ids = append(ids, ^i)
	}
	root := 0
	if len(t.Nodes) == 0 {
		root = -1
	}
	rest := []int{}
	for _, id := range ids {
		if id != root {
			rest = append(rest, id)
		}
	}
	if r.Bool() {
		p := r.Perm(len(rest))
		q := make([]int, len(rest))
		for i, k := range p {
			q[i] = rest[k]
		}
		rest = q
	}
	const dead = math.MinInt32
	order := []int{root}
	ndel := 0
	if pruned {
		for i := 0; i < 2; i++ {
			order = append(order, dead)
			ndel++
		}
	}
	for _, id := range rest {
		if x.Deleted && r.N(3) == 0 {
			order = append(order, dead)
			ndel++
		}
		order = append(order, id)
	}
	pos := map[int]int{}
	for i, id := range order {
		if id != dead {
			pos[id] = i
		}
	}
	parent := make([]int32, len(order))
	for i := range parent {
		parent[i] = -1
	}
	for i := range t.Nodes {
		n := &t.Nodes[i]
		p := int32(pos[i])
		parent[pos[n.L]] = p | math.MinInt32
		parent[pos[n.R]] = p
	}
	var b bytes.Buffer
	leI32(&b, 1)
	leI32(&b, len(order))
	leI32(&b, ndel)
	leI32(&b, r.Pick(0, 0, 1, 3, 6, 1000000))
	leI32(&b, x.NFeat)
	leI32(&b, int(x.SizeLeaf))
	zeros(&b, 31*4)
	for i, id := range order {
		leI32(&b, int(parent[i]))
		switch {
		case id == dead:
			leI32(&b, -1)
			leI32(&b, -1)
			leU32(&b, math.MaxUint32)
			leF32(&b, 777)
		case id < 0:
			leI32(&b, -1)
			leI32(&b, r.Pick(-1, -1, 0))
			// a leaf that was a split once has its feature still
			leU32(&b, uint32(r.Pick(0, 0, 1, x.NFeat, math.MaxInt32, 1<<31, 1<<31+1, r.N(1<<32))))
			leF32(&b, float32(t.Leaves[^id]))
		default:
			n := &t.Nodes[id]
			leI32(&b, pos[n.L])
			leI32(&b, pos[n.R])
			s := uint32(n.Feat)
			if n.DefLeft {
				s |= 1 << 31
			}
			leU32(&b, s)
			leF32(&b, float32(n.Thr))
		}
	}
	usual := r.N(3) == 0
	for range order {
		if usual {
			leF32(&b, 1)
			leF32(&b, 2)
			leF32(&b, 3)
			leI32(&b, 0)
			continue
		}
		leF32(&b, oddF32(r))
		leF32(&b, oddF32(r))
		leF32(&b, oddF32(r))
		leI32(&b, r.Pick(0, 0, 1, 2, -1))
	}
	if x.SizeLeaf > 0 {
		n := int(x.SizeLeaf) * len(order)
		leU64(&b, uint64(n))
		for i := 0; i < n; i++ {
			if usual {
				leF32(&b, 0)
			} else {
				leF32(&b, oddF32(r))
			}
		}
	}
	return b.Bytes()
}

func (x *xgModel) emit(r *Rng) []byte {
	var b bytes.Buffer
	gbm := "gbtree"
	if x.Dart {
		gbm = "dart"
	}
	extra := 0
	if len(x.Tail) > 0 {
		extra = 1
	}
	xgHeader(&b, x.Base, uint32(x.NFeat+x.Wide), x.NumClass, extra, randXGWriter(r), x.Objective, gbm)
	leI32(&b, len(x.Trees))
	leI32(&b, 1)
	leI32(&b, x.NFeat)
	leI32(&b, 0)
	leU64(&b, 0)
	leI32(&b, x.Groups)
	leI32(&b, int(x.SizeLeaf))
	zeros(&b, 32*4)
	for i, t := range x.Trees {
		b.Write(x.tree(r, t, len(t.Nodes) == 0 && x.rootPruned != nil && x.rootPruned[i]))
	}
	for i := range x.Trees {
		leI32(&b, i%x.Groups)
	}
	if x.Dart {
		leU64(&b, uint64(len(x.Weights)))
		for _, w := range x.Weights {
			leF32(&b, w)
		}
	}
	b.Write(x.Tail)
	return b.Bytes()
}

// genXG generates an XGBoost tree model (leaf values are float32).
func genXG(r *Rng, o genOpt) *xgModel {
	o.style = "xg"
	o.cat = 0
	o.missing = false
	m := genModel(r, o)
	for _, t := range m.Trees {
		for i := range t.Leaves {
			t.Leaves[i] = f32(t.Leaves[i])
		}
	}
	x := &xgModel{Model: m, Objective: "reg:linear"}
	x.Base = float32(r.PickF(0, 0.5, -1.25, 3))
	if !m.Exact && r.N(6) == 0 {
		x.Base = float32(r.PickF(1e-30, -1e30, 1e-7, 16777217, math.MaxFloat32))
	}
	x.Dart = r.N(3) == 0
	if x.Dart {
		x.Weights = make([]float32, len(m.Trees))
		for i := range x.Weights {
			if m.Exact {
				x.Weights[i] = float32(r.PickF(1, 0.5, 0.25, 0, 2, 0.75, 1, 0.5, -1, -0.25))
			} else {
				x.Weights[i] = float32(r.F())
				if r.N(6) == 0 {
					x.Weights[i] *= -1
				}
			}
			if !m.Exact && r.N(6) == 0 {
				// tiny or huge weights of trees with huge or tiny leaves
				k := float64(r.Range(-30, 30))
				x.Weights[i] *= float32(math.Pow(10, k))
				for l := range m.Trees[i].Leaves {
					m.Trees[i].Leaves[l] = f32(m.Trees[i].Leaves[l] * math.Pow(10, -k))
				}
			}
		}
	}
	if m.Groups > 1 {
		x.NumClass = int32(m.Groups)
		x.Objective = "multi:softprob"
	}
	x.Deleted = r.N(3) == 0
	if r.N(4) == 0 {
		x.SizeLeaf = int32(r.Range(1, 3))
	}
	if r.N(3) == 0 {
		var tb bytes.Buffer
		leU64(&tb, 1)
		xgString(&tb, "best_iteration")
		xgString(&tb, "3")
		x.Tail = tb.Bytes()
	}
	if r.N(4) == 0 {
		x.Wide = r.Range(1, 4)
	}
	x.rootPruned = make([]bool, len(m.Trees))
	for i := range x.rootPruned {
		x.rootPruned[i] = r.N(2) == 0
	}
	return x
}

// refXG: base score + weighted leaf values.
func (x *xgModel) refXG(row []float64, iters int, ev map[string]int) refResult {
	if iters <= 0 || iters > x.Iters() {
		iters = x.Iters()
	}
	res := refResult{Raw: make([]float64, x.Groups), Hash: 5}
	for k := range res.Raw {
		res.Raw[k] = float64(x.Base)
	}
	for i := 0; i < iters*x.Groups; i++ {
		l, h := x.Trees[i].leafOf(row, xgGoesLeft, ev)
		w := 1.0
		if x.Dart {
			w = float64(x.Weights[i])
		}
		res.Leaf = append(res.Leaf, l)
		res.Raw[i%x.Groups] += x.Trees[i].Leaves[l] * w
		res.Abs += absFin(x.Trees[i].Leaves[l]*w) + absFin(float64(x.Base))
		res.Hash = mix(res.Hash ^ h)
	}
	return res
}

func (x *xgModel) describe() string {
	return fmt.Sprintf("%s; dart=%v base=%v deleted nodes=%v leaf vector=%d tail=%d wide=%d", x.Model.describe(), x.Dart, x.Base, x.Deleted, x.SizeLeaf, len(x.Tail), x.Wide)
}

// ---------- gblinear ----------

type linModel struct {
	NFeat, Groups int
	Base          float32
	W             []float32 // (NFeat+1)*Groups, bias last
	Objective     string
	Tail          []byte
	writer        xgWriter
	Exact         bool
	Scale         []float64 // values of feature f have the size Scale[f] (nil: all 1)
}

// genLin makes a linear model, of the given size where it is not zero
func genLin(r *Rng, nfeat, groups int) *linModel {
	l := &linModel{NFeat: r.Range(1, 40), Groups: 1, Objective: "reg:linear", Exact: r.N(4) != 0}
	if r.N(3) == 0 {
		l.NFeat = r.Range(1, 3)
	}
	if r.Bool() {
		l.Groups = r.Range(1, 6)
	}
	if nfeat > 0 {
		l.NFeat = nfeat
	}
	if groups > 0 {
		l.Groups = groups
	}
	l.Base = float32(r.PickF(0, 0.5, -1.25, 3))
	l.W = make([]float32, (l.NFeat+1)*l.Groups)
	for i := range l.W {
		if l.Exact {
			l.W[i] = float32(float64(r.Range(-4096, 4096)) / 64)
		} else {
			l.W[i] = float32(r.Norm())
		}
	}
	if !l.Exact && r.N(3) == 0 {
		// tiny or huge weights of features with huge or tiny values
		for f := 0; f < l.NFeat; f++ {
			k := math.Pow(10, float64(r.Range(-32, 36)))
			l.Scale = append(l.Scale, 1/k)
			for g := 0; g < l.Groups; g++ {
				l.W[f*l.Groups+g] *= float32(k)
			}
		}
	}
	if r.N(3) == 0 {
		l.Tail = []byte{1, 2, 3, 4, 5, 6, 7}
	}
	l.writer = randXGWriter(r)
	return l
}

func (l *linModel) emit() []byte {
	var b bytes.Buffer
	nc := int32(0)
	if l.Groups > 1 {
		nc = int32(l.Groups)
	}
	xgHeader(&b, l.Base, uint32(l.NFeat), nc, 0, l.writer, l.Objective, "gblinear")
	leU32(&b, uint32(l.NFeat))
	leI32(&b, l.Groups)
	zeros(&b, 32*4)
	leU64(&b, uint64(len(l.W)))
	for _, w := range l.W {
		leF32(&b, w)
	}
	b.Write(l.Tail)
	return b.Bytes()
}

// ref: missing (NaN) values contribute nothing. The second result is the size
// of the terms whose sum may be rounded: infinite and NaN ones, of a model
// that diverged, are not.
func (l *linModel) ref(row []float64) ([]float64, float64) {
	out := make([]float64, l.Groups)
	abs := 0.0
	add := func(k int, p float64) {
		out[k] += p
		abs += absFin(p)
	}
	for k := range out {
		add(k, float64(l.Base))
		add(k, float64(l.W[l.NFeat*l.Groups+k]))
		for f := 0; f < l.NFeat; f++ {
			if !math.IsNaN(row[f]) {
				add(k, row[f]*float64(l.W[f*l.Groups+k]))
			}
		}
	}
	return out, abs
}
