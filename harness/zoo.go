package main

import (
	"fmt"
	"math"

	"github.com/dmitryikh/leaves"
)

// zoo is a generated model of any supported kind, with its serialised form,
// its loader and its reference interpreter.
type zoo struct {
	kind    string
	m       *Model
	x       *xgModel
	s       *skModel
	l       *linModel
	bytes   []byte
	load    func(b []byte, tr bool) (*leaves.Ensemble, error)
	tr      string // transformation the objective stands for, "" if loading with transformation is not supported
	groups  int
	nfeat   int // width reported by the model
	iters   int
	exact   bool
	absent  float64 // value of an absent CSR entry
	noInf   bool
	name    string
	gen     *rowGen
	leafIdx bool // text format: leaf index is the file's
	d       decideFn
	em      *lgText // how a text model is written
	opt     genOpt
}

// sibling is another model of the same kind and size that differs in little.
func (z *zoo) sibling(c *C) *zoo {
	r := c.R
	n := *z
	alter := func(m *Model) *Model {
		m = m.clone()
		for k := r.Pick(1, 1, 3); k > 0; k-- {
			m.Trees[r.N(len(m.Trees))].alter(r, &n.opt, m.Exact)
		}
		if r.Bool() {
			for _, t := range m.Trees {
				for i := range t.Leaves {
					t.Leaves[i]++
					if m.Style == "xg" {
						t.Leaves[i] = float64(float32(t.Leaves[i]))
					}
				}
			}
		}
		return m
	}
	switch {
	case z.x != nil:
		x := *z.x
		x.Model = alter(z.m)
		n.x, n.m = &x, x.Model
		n.bytes = x.emit(r)
	case z.s != nil:
		s := *z.s
		s.Model = alter(z.m)
		n.s, n.m = &s, s.Model
		n.bytes = s.emit(r, randSKEmit(r))
	case z.l != nil:
		l := *z.l
		l.W = append([]float32(nil), l.W...)
		l.W[r.N(len(l.W))]++
		n.l = &l
		n.bytes = l.emit()
	case z.em != nil:
		n.m = alter(z.m)
		em := *z.em
		if r.Bool() {
			em.version = r.PickS("v2", "v3")
		}
		n.em = &em
		n.bytes = em.emit(n.m)
	default:
		n.m = alter(z.m)
		n.bytes = (&lgJSON{mixCats: r}).emit(n.m)
	}
	if n.m != nil {
		n.gen = newRowGen(n.m, z.gen.nan)
		n.gen.noInf = n.noInf
	}
	c.Count("models of the same size that differ in little", 1)
	return &n
}

var kinds = []string{"lgtext", "lgrf", "lgjson", "xgtree", "xgdart", "xglin", "sk"}

func makeZoo(c *C, kind string, o genOpt, wantTr bool) *zoo {
	r := c.R
	z := &zoo{kind: kind, tr: "raw"}
	o.shape = -1
	o.sizeUp(c)
	switch kind {
	case "lgtext", "lgrf", "lgjson":
		o.style, o.missing, o.permute = "lg", true, true
		z.d = lgGoesLeft
		o.cat = 0.5
		tr := ""
		if kind == "lgtext" && wantTr {
			tr = r.PickS("logistic", "softmax", "exponential", "raw")
			if tr == "logistic" || tr == "exponential" {
				o.groups = 1
			} else if tr == "softmax" && o.groups == 0 {
				o.groups = r.Range(2, 5)
			} else if tr == "softmax" && o.groups == 1 {
				tr = "logistic"
			}
		}
		o.average = kind == "lgrf"
		z.m = genModel(r, o)
		z.groups, z.nfeat, z.exact = z.m.Groups, z.m.NFeat, z.m.Exact
		z.name = "lightgbm.gbdt"
		if kind == "lgjson" {
			// indentation of a deep tree is quadratic
			z.bytes = (&lgJSON{indent: r.Bool() && o.maxLeaves <= 256, mixCats: r}).emit(z.m)
			z.load = func(b []byte, tr bool) (*leaves.Ensemble, error) { return loadJSON(b) }
			z.tr = ""
		} else {
			em := randLGText(r)
			em.objective = r.PickS("regression", "regression_l1", "regression_l2")
			switch tr {
			case "logistic":
				em.objective = "binary sigmoid:1"
			case "softmax":
				em.objective = fmt.Sprintf("multiclass num_class:%d", z.groups)
			case "exponential":
				em.objective = r.PickS("poisson", "gamma", "tweedie")
			}
			if tr != "" {
				z.tr = tr
			}
			if kind == "lgrf" {
				z.name = "lightgbm.rf"
			}
			z.em = &em
			z.bytes = em.emit(z.m)
			z.load = loadLG
			z.leafIdx = true
		}
		z.iters = z.m.Iters()
	case "xgtree", "xgdart":
		z.d = xgGoesLeft
		z.tr = ""
		if wantTr && r.Bool() {
			o.groups = 1
			z.tr = "logistic"
		}
		z.x = genXG(r, o)
		z.x.Dart = kind == "xgdart"
		if z.x.Dart && z.x.Weights == nil {
			for range z.x.Trees {
				z.x.Weights = append(z.x.Weights, float32(r.PickF(1, 0.5, 0.25)))
			}
		}
		if z.tr == "logistic" {
			z.x.Objective = "binary:logistic"
		}
		z.m = z.x.Model
		z.bytes = z.x.emit(r)
		z.load = loadXG
		z.groups, z.nfeat, z.iters, z.exact = z.m.Groups, z.m.NFeat+z.x.Wide, z.m.Iters(), z.m.Exact
		z.absent = math.NaN()
		z.name = "xgboost.gbtree"
		if z.x.Dart {
			z.name = "xgboost.dart"
		}
	case "xglin":
		z.l = genLin(r, o.nfeat, o.groups)
		if o.nfeat > 0 && !z.l.Exact {
			z.l.Exact = true
			for i := range z.l.W {
				z.l.W[i] = float32(float64(r.Range(-4096, 4096)) / 64)
			}
		}
		z.tr = ""
		if wantTr && z.l.Groups == 1 {
			z.tr = "logistic"
			z.l.Objective = "binary:logistic"
		}
		z.bytes = z.l.emit()
		z.load = loadXGLin
		z.groups, z.nfeat, z.iters, z.exact = z.l.Groups, z.l.NFeat, 1, z.l.Exact
		z.name = "xgboost.gblinear"
		z.noInf = true
	case "sk":
		z.d = skGoesLeft
		z.s = genSK(r, o)
		z.m = z.s.Model
		z.bytes = z.s.emit(r, randSKEmit(r))
		z.load = func(b []byte, tr bool) (*leaves.Ensemble, error) { return loadSK(b) }
		z.tr = ""
		z.groups, z.nfeat, z.iters, z.exact = z.m.Groups, z.m.NFeat, z.m.Iters(), z.m.Exact
		z.name = "sklearn.ensemble.GradientBoostingClassifier"
		z.noInf = true
	}
	z.opt = o
	if z.m != nil {
		z.opt.style = z.m.Style
		nan := 0.12
		if kind == "sk" {
			nan = 0
		}
		z.gen = newRowGen(z.m, nan)
		z.gen.noInf = z.noInf
	}
	c.Dump("kind", kind)
	c.Dump("model", z.bytes)
	c.Count("models "+kind, 1)
	return z
}

// composeView stacks up to three views on a model; it returns the view, its
// name and what it predicts ("model", "raw" or "leaf").
func composeView(r *Rng, e *leaves.Ensemble, leafOK bool, depth int) (*leaves.Ensemble, string, string) {
	nm, what := "model", "model"
	for i := 0; i < depth; i++ {
		if leafOK && r.Bool() {
			e, nm, what = e.EnsembleWithLeafPredictions(), "leaf view of the "+nm, "leaf"
		} else {
			e, nm, what = e.EnsembleWithRawPredictions(), "raw view of the "+nm, "raw"
		}
	}
	return e, nm, what
}

func (z *zoo) describe() string {
	switch {
	case z.x != nil:
		return z.kind + " " + z.x.describe()
	case z.s != nil:
		return z.kind + " " + z.s.describe()
	case z.l != nil:
		return fmt.Sprintf("%s %d features %d groups", z.kind, z.l.NFeat, z.l.Groups)
	}
	return z.kind + " " + z.m.describe()
}

func (z *zoo) mustLoad(c *C, tr bool) *leaves.Ensemble {
	e, err := z.load(z.bytes, tr)
	if err != nil {
		c.Fail("a well-formed %s model was rejected (transformation %v): %v", z.kind, tr, err)
	}
	return e
}

func (z *zoo) row(r *Rng) []float64 {
	if z.l != nil {
		row := make([]float64, z.nfeat)
		for f := range row {
			switch {
			case r.N(4) == 0:
			case r.N(10) == 0:
				row[f] = r.NaN()
			default:
				row[f] = float64(r.Range(-2048, 2048)) / 64
			}
		}
		return row
	}
	row := z.gen.row(r, z.d)
	for len(row) < z.nfeat {
		row = append(row, float64(r.N(3)))
	}
	return row
}

func (z *zoo) ref(row []float64, iters int, ev map[string]int) refResult {
	switch {
	case z.x != nil:
		return z.x.refXG(row, iters, ev)
	case z.s != nil:
		return z.s.refSK(row, iters, ev)
	case z.l != nil:
		raw, abs := z.l.ref(row)
		return refResult{Raw: raw, Abs: abs * 10, Hash: hashF(17, row)}
	}
	return z.m.reference(row, z.d, iters, ev)
}

func (z *zoo) rawOK(got, want, abs float64) bool {
	if got == want {
		return true
	}
	if z.exact && z.kind != "lgrf" {
		return false
	}
	return closeTo(got, want, abs)
}

func (z *zoo) avg() bool { return z.kind == "lgrf" }

// the transformations, evaluated carefully
func refTransform(tr string, raw []float64) []float64 {
	out := make([]float64, len(raw))
	switch tr {
	case "raw":
		copy(out, raw)
	case "logistic":
		for i, x := range raw {
			if x >= 0 {
				out[i] = 1 / (1 + math.Exp(-x))
			} else {
				e := math.Exp(x)
				out[i] = e / (1 + e)
			}
		}
	case "exponential":
		for i, x := range raw {
			out[i] = math.Exp(x)
		}
	case "softmax":
		mx := math.Inf(-1)
		for _, x := range raw {
			mx = math.Max(mx, x)
		}
		s := 0.0
		for i, x := range raw {
			out[i] = math.Exp(x - mx)
			s += out[i]
		}
		for i := range out {
			out[i] /= s
		}
	}
	return out
}

// closeRel: relative 1e-10 with an absolute floor for subnormal results.
func closeRel(got, want float64) bool {
	if got == want {
		return true
	}
	return math.Abs(got-want) <= 1e-10*math.Abs(want)+1e-300
}

func same(a, b float64) bool { return a == b || (a != a && b != b) }

func sameSlice(a, b []float64) int {
	if len(a) != len(b) {
		return 0
	}
	for i := range a {
		if !same(a[i], b[i]) {
			return i
		}
	}
	return -1
}

func bitsSame(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Float64bits(a[i]) != math.Float64bits(b[i]) {
			return false
		}
	}
	return true
}

// toCSR turns rows into CSR. Entries equal to the kind's absent value may be
// left out; columns may come in any order; indptr may start above zero.
func (z *zoo) toCSR(r *Rng, rows [][]float64, explicit float64, shuffle bool, lead int, extraCols bool) (indptr, cols []int, vals []float64) {
	for i := 0; i < lead; i++ {
		cols = append(cols, r.N(z.nfeat))
		vals = append(vals, 999)
	}
	indptr = append(indptr, len(cols))
	for _, row := range rows {
		var cc []int
		for f := 0; f < z.nfeat; f++ {
			v := row[f]
			abs := same(v, z.absent) && !(v == 0 && math.Signbit(v))
			if z.l != nil && (v == 0 || math.IsNaN(v)) {
				abs = true
			}
			if abs && !r.P(explicit) {
				continue
			}
			cc = append(cc, f)
		}
		if shuffle {
			p := r.Perm(len(cc))
			q := make([]int, len(cc))
			for i, k := range p {
				q[i] = cc[k]
			}
			cc = q
		}
		for _, f := range cc {
			if extraCols && r.N(4) == 0 {
				cols = append(cols, z.surplus(r))
				vals = append(vals, 31337)
			}
			cols = append(cols, f)
			vals = append(vals, row[f])
		}
		if extraCols && r.Bool() {
			cols = append(cols, z.surplus(r))
			vals = append(vals, 31337)
		}
		indptr = append(indptr, len(cols))
	}
	return
}

// surplus is a column that the model does not have (of which 8, 16 or 32 bits may be those of one it has)
func (z *zoo) surplus(r *Rng) int {
	c := z.nfeat + r.N(50)
	if r.Bool() {
		c = r.N(z.nfeat) + r.Pick(1<<8, 1<<16, 1<<31, 1<<32, 3<<32, 1<<62)
	}
	if r.N(20) == 0 {
		c = math.MaxInt64
	}
	if c < z.nfeat {
		c = z.nfeat
	}
	return c
}

func flatten(rows [][]float64, width int, r *Rng) []float64 {
	out := make([]float64, 0, len(rows)*width)
	for _, row := range rows {
		out = append(out, row...)
		for k := len(row); k < width; k++ {
			out = append(out, float64(r.Range(-5, 5)))
		}
	}
	return out
}

// usedFeatures lists the features the trees (or weights) look at.
func (z *zoo) usedFeatures() []int {
	seen := map[int]bool{}
	var out []int
	if z.m != nil {
		for _, t := range z.m.Trees {
			for i := range t.Nodes {
				if f := t.Nodes[i].Feat; !seen[f] {
					seen[f] = true
					out = append(out, f)
				}
			}
		}
	}
	return out
}

// thin leaves at most four present values in a row; the others become absent.
func (z *zoo) thin(r *Rng, row []float64, used []int) {
	keep := map[int]bool{}
	for k := r.N(5); k > 0; k-- {
		if len(used) > 0 && r.N(5) != 0 {
			keep[used[r.N(len(used))]] = true
		} else {
			keep[r.N(len(row))] = true
		}
	}
	for f := range row {
		if !keep[f] {
			row[f] = z.absent
		}
	}
}
