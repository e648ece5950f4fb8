package main

import (
	"math"

	"github.com/dmitryikh/leaves"
)

// predictRow runs the public single-row API with canaries around the output.
func predictRow(c *C, e *leaves.Ensemble, row []float64, nEst int, n int) []float64 {
	out := make([]float64, n)
	for i := range out {
		out[i] = 12345.678
	}
	var err error
	if msg, p := c.Try(func() { err = e.Predict(row, nEst, out) }); p {
		c.Dump("row", row)
		c.Fail("Predict panicked: %s", msg)
	}
	if err != nil {
		c.Dump("row", row)
		c.Fail("Predict returned an error for a row of the right width: %v", err)
	}
	return out
}

func compareRaw(c *C, what string, row, got []float64, ref refResult, exact bool, average bool) {
	for k := range ref.Raw {
		ok := got[k] == ref.Raw[k]
		if !ok && (!exact || average) {
			ok = closeTo(got[k], ref.Raw[k], ref.Abs)
		}
		if !ok {
			c.Dump("row", row)
			c.Dump("got", got)
			c.Dump("want", ref.Raw)
			c.Fail("%s: group %d: got %v, the reference interpreter gives %v (row %v, leaves %v)", what, k, got[k], ref.Raw[k], trunc(fmtRow(row), 300), trunc(fmtInts(ref.Leaf), 200))
		}
	}
}

// checkRows evaluates rows against the reference and feeds the evidence.
func checkRows(c *C, e *leaves.Ensemble, m *Model, what string, rows [][]float64, ref func(row []float64, ev map[string]int) refResult) {
	ev := map[string]int{}
	for _, row := range rows {
		r := ref(row, ev)
		got := predictRow(c, e, row, 0, m.Groups)
		compareRaw(c, what, row, got, r, m.Exact, m.Average)
		if m.Groups == 1 {
			if s := e.PredictSingle(row, 0); s != got[0] {
				c.Dump("row", row)
				c.Fail("%s: PredictSingle gives %v, Predict %v", what, s, got[0])
			}
		}
		nontrivial := false
		for _, t := range m.Trees {
			if len(t.Nodes) > 0 {
				nontrivial = true
			}
		}
		c.Eval(mix(r.Hash^uint64(c.Idx)<<32), nontrivial)
	}
	addCounts(c, "", ev)
}

func lgRef(m *Model) func(row []float64, ev map[string]int) refResult {
	return func(row []float64, ev map[string]int) refResult { return m.reference(row, lgGoesLeft, 0, ev) }
}

// lgCase generates the LightGBM model of a case: the first cases are directed
// at the sizes that small random models do not reach.
const nDirected = 16

func lgCase(c *C, json bool) *Model {
	r := c.R
	o := genOpt{style: "lg", maxTrees: 12, maxGroups: 6, maxFeat: 20, maxLeaves: 40, cat: 0.6, exact: true, permute: true, missing: true, shape: -1, maxCat: 300}
	if c.Idx < nDirected {
		o.forceExact = true
		switch c.Idx {
		case 0: // more than 2^16 leaves
			o.leaves, o.iters, o.groups, o.nfeat, o.search = 70000, 1, 1, 30, true
		case 1: // more than 2^16 features
			o.nfeat, o.iters, o.groups, o.leaves = 70000, 3, 1, 60
		case 2: // a deep right chain
			o.leaves, o.iters, o.groups, o.nfeat, o.shape = 3000, 1, 1, 3000, 0
		case 3: // a deep left chain
			o.leaves, o.iters, o.groups, o.nfeat, o.shape = 3000, 1, 1, 3000, 1
		case 4: // many trees
			o.iters, o.groups, o.leaves = 1500, 1, 4
		case 5: // many classes
			o.iters, o.groups, o.leaves = 2, 300, 5
		case 6: // categories in the thousands
			o.cat, o.maxCat, o.leaves, o.iters, o.groups, o.nfeat = 1, 70000, 40, 6, 1, 6
		case 7: // 257 features, breadth-first tree with 1024 leaves
			o.nfeat, o.leaves, o.iters, o.groups, o.shape = 257, 1024, 2, 1, 2
		case 9: // many trees and their mean
			o.iters, o.groups, o.leaves, o.average = 700, 1, 4, !json
		case 10: // many trees of many classes
			o.iters, o.groups, o.leaves, o.average = 12, 70, 3, !json
		case 8: // many categorical nodes in one tree
			o.cat, o.maxCat, o.leaves, o.iters, o.groups, o.nfeat = 1, 100, 700, 1, 1, 8
		case 11: // more than 2^16 categorical nodes in one tree
			o.cat, o.maxCat, o.leaves, o.iters, o.groups, o.nfeat, o.shape = 3, 70, 100000, 1, 1, 2000, 4
		case 12: // more than 2^16 trees
			o.iters, o.groups, o.leaves = 70000, 1, 2
		case 13: // more than 2^16 classes
			o.iters, o.groups, o.leaves, o.average = 1, 66000, 2, !json
		case 14: // deep on the right with a split on the left at every level
			o.leaves, o.iters, o.groups, o.nfeat, o.shape = 9600, 1, 1, 9600, 6
		case 15: // the same the other way round
			o.leaves, o.iters, o.groups, o.nfeat, o.shape = 9600, 1, 1, 9600, 7
		}
	} else {
		if r.N(8) == 0 {
			o.maxLeaves = 300
		}
		if r.N(10) == 0 {
			o.maxFeat = 300
		}
		if r.N(10) == 0 {
			o.maxTrees = 80
		}
		if r.N(6) == 0 {
			o.nfeat = r.Range(1, 2)
		}
	}
	if !json && c.Idx >= nDirected && r.N(4) == 0 {
		o.average = true
	}
	return genModel(r, o)
}

func rowsFor(c *C, m *Model, n int, d decideFn, nan float64) [][]float64 {
	g := newRowGen(m, nan)
	rows := make([][]float64, n)
	for i := range rows {
		rows[i] = g.row(c.R, d)
	}
	return rows
}

func init() {
	decisions := []string{"numeric left", "numeric right", "numeric equal", "nan default left", "nan default right", "nan as zero",
		"zero default left", "zero default right", "cat hit one-hot", "cat hit small", "cat hit large", "cat miss one-hot", "cat miss small",
		"cat miss large", "cat nan", "cat negative", "cat out of range", "stump", "leaf more than 1000 levels down"}
	register(&Property{
		ID: "C01", Level: "exploration", Quick: 50000, Thorough: 400000,
		Rule: "One case = one generated LightGBM text model (random version, number format, line ends, tree shapes, node numbering, categorical sets, missing types; the first 16 cases are directed at sizes above 2^8 and 2^16) and 60 feature rows, half of them steered towards a random leaf; an evaluation is one (model, row) prediction compared with an independent interpreter of LightGBM's decision rules. Non-trivial: the model has a tree with a split; distinct: different model or different set of decision paths.",
		Need: decisions,
		Assume: []string{"float to int conversion of out-of-range values as on amd64 (NaN, negative and too large categories go right, as LightGBM does on x86)",
			"values within 1e-5 relative distance of 1e-35 are not generated (the zero threshold constant itself is not part of the property)"},
		Run: func(c *C) {
			m := lgCase(c, false)
			em := randLGText(c.R)
			if c.R.N(4) == 0 {
				em.objective = c.R.PickS("", "binary sigmoid:1", "custom", "lambdarank", "poisson")
			}
			b := em.emit(m)
			c.Dump("model", b)
			e, err := loadLG(b, false)
			if err != nil {
				c.Fail("a well-formed model was rejected: %v (%s)", err, m.describe())
			}
			c.Count("models", 1)
			c.Count("models "+em.version, 1)
			c.Sample("%s, text %+v", m.describe(), em.version)
			n := 60
			if c.Idx < nDirected {
				n = 150
			}
			if c.Idx == 11 {
				n = 600
			}
			if m.Search > 0 {
				n = 2000
				c.Count("models with more than 65536 leaves", 1)
			}
			checkRows(c, e, m, "LightGBM text", rowsFor(c, m, n, lgGoesLeft, 0.12), lgRef(m))
			if em.objective == "regression" && c.R.N(4) == 0 {
				e2, err := loadLG(b, true)
				if err != nil {
					c.Fail("a well-formed regression model was rejected with transformation: %v", err)
				}
				checkRows(c, e2, m, "LightGBM text (identity transformation)", rowsFor(c, m, 5, lgGoesLeft, 0.12), lgRef(m))
			}
		},
	})
	register(&Property{
		ID: "C02", Level: "exploration", Quick: 2500, Thorough: 80000,
		Rule:   "One case = one generated LightGBM model written as JSON (random key order and indentation) and as text, and 40 rows; an evaluation is one prediction of the JSON-loaded model compared with the reference interpreter and with the text-loaded model. Non-trivial: the model has a split; distinct: different model or decision paths.",
		Need:   decisions,
		Assume: []string{"as for C01"},
		Run: func(c *C) {
			m := lgCase(c, true)
			em := lgJSON{indent: c.R.N(3) == 0}
			switch c.Idx {
			case 2, 3, 14, 15:
				em.indent = false // quadratic in the depth
			}
			if c.R.Bool() {
				em.shuffle = c.R
			}
			if c.R.N(3) == 0 {
				em.mixCats = c.R
			}
			b := em.emit(m)
			c.Count("category sets out of order", em.mixed)
			c.Dump("model", b)
			e, err := loadJSON(b)
			if err != nil {
				c.Fail("a well-formed JSON model was rejected: %v (%s)", err, m.describe())
			}
			c.Count("models", 1)
			c.Sample("%s as JSON", m.describe())
			n := 40
			if c.Idx == 11 {
				n = 600
			}
			if m.Search > 0 {
				n = 2000
			}
			rows := rowsFor(c, m, n, lgGoesLeft, 0.12)
			checkRows(c, e, m, "LightGBM JSON", rows, lgRef(m))
			tx := randLGText(c.R)
			tx.padWords = false
			et, err := loadLG(tx.emit(m), false)
			if err != nil {
				c.Fail("text form rejected: %v", err)
			}
			for _, row := range rows {
				a := predictRow(c, e, row, 0, m.Groups)
				t := predictRow(c, et, row, 0, m.Groups)
				for k := range a {
					if a[k] != t[k] && !(math.Abs(a[k]-t[k]) <= 1e-12*math.Abs(t[k])) {
						c.Dump("row", row)
						c.Fail("JSON model predicts %v, text form of the same model %v", a, t)
					}
				}
				c.Count("json/text agreement checks", 1)
			}
		},
	})
	register(&Property{
		ID: "C03", Level: "exploration", Quick: 60000, Thorough: 600000,
		Rule: "One case = one generated XGBoost binary model (gbtree or dart, node order permuted, deleted nodes, leaf vectors, trailing attributes, 1..6 groups) and 60 rows of float32 values around the split conditions; an evaluation is one prediction compared with an independent interpreter of XGBoost's rules (strict <, default direction on missing, base score, tree weights). Non-trivial: the model has a split; distinct: different model or decision paths.",
		Need: []string{"numeric left", "numeric right", "numeric equal", "nan default left", "nan default right", "stump", "dart models", "gbtree models", "models with deleted nodes", "pruned-to-root trees", "leaf more than 1000 levels down"},
		Assume: []string{"input values are float32-representable (XGBoost stores features as float32)",
			"a missing value is NaN; XGBoost sums float32 leaf values in float32, the property only asks for agreement up to that rounding (exact for the dyadic leaf values of most cases)"},
		Run: func(c *C) {
			o := genOpt{maxTrees: 12, maxGroups: 6, maxFeat: 20, maxLeaves: 40, exact: true, permute: true, shape: -1}
			switch c.Idx {
			case 0:
				o.leaves, o.iters, o.groups, o.nfeat, o.search = 70000, 1, 1, 30, true
			case 1:
				o.nfeat, o.iters, o.groups, o.leaves = 70000, 3, 1, 60
			case 2:
				o.leaves, o.iters, o.groups, o.nfeat, o.shape = 3000, 1, 1, 3000, 0
			case 3:
				o.leaves, o.iters, o.groups, o.nfeat, o.shape = 3000, 1, 1, 3000, 1
			case 4:
				o.iters, o.groups, o.leaves = 1500, 1, 4
			case 5:
				o.iters, o.groups, o.leaves = 2, 300, 5
			case 6:
				o.iters, o.groups, o.leaves = 70000, 1, 2
			case 7:
				o.iters, o.groups, o.leaves = 17500, 4, 2
			case 8, 9: // more than 2^16 groups
				o.iters, o.groups, o.leaves = 1, 66000, 2
			case 10, 11: // deep with a split on the other side at every level
				o.leaves, o.iters, o.groups, o.nfeat, o.shape = 9600, 1, 1, 9600, c.Idx-4
			default:
				if c.R.N(8) == 0 {
					o.maxLeaves = 300
				}
				if c.R.N(6) == 0 {
					o.nfeat = c.R.Range(1, 2)
				}
			}
			x := genXG(c.R, o)
			anyObjective(c, &x.Objective)
			b := x.emit(c.R)
			c.Dump("model", b)
			e, err := loadXG(b, false)
			if err != nil {
				c.Fail("a well-formed XGBoost model was rejected: %v (%s)", err, x.describe())
			}
			c.Count("models", 1)
			if x.Dart {
				c.Count("dart models", 1)
			} else {
				c.Count("gbtree models", 1)
			}
			if x.Deleted {
				c.Count("models with deleted nodes", 1)
			}
			for i, t := range x.Trees {
				if len(t.Nodes) == 0 && x.rootPruned[i] {
					c.Count("pruned-to-root trees", 1)
				}
			}
			c.Sample("%s", x.describe())
			n := 60
			if x.Search > 0 {
				n = 2000
			}
			rows := rowsFor(c, x.Model, n, xgGoesLeft, 0.15)
			for i := range rows {
				for k := 0; k < x.Wide; k++ {
					rows[i] = append(rows[i], float64(k))
				}
			}
			checkRows(c, e, x.Model, "XGBoost", rows, func(row []float64, ev map[string]int) refResult { return x.refXG(row, 0, ev) })
		},
	})
	register(&Property{
		ID: "C04", Level: "exploration", Quick: 200000, Thorough: 3000000,
		Rule: "One case = one generated XGBoost gblinear model (1..40 features, 1..6 groups) and 30 rows, dense and as CSR with absent and NaN entries (a fifth of them with infinities, the largest and the smallest float32); an evaluation is one prediction compared with base score + bias + sum of weight*value over present values. Non-trivial: at least one present value; distinct: different model or row.",
		Need: []string{"rows with missing values", "rows without missing values", "csr rows", "rows with extreme values", "rows with tiny or huge values", "models with infinite weights"},
		Run: func(c *C) {
			nfeat, groups := 0, 0
			switch c.Idx {
			case 0:
				nfeat, groups = 70000, 2
			case 1:
				nfeat, groups = 5, 300
			case 2:
				nfeat, groups = 257, 257
			case 3:
				nfeat, groups = 3, 70000
			}
			l := genLin(c.R, nfeat, groups)
			diverged := c.Idx > 3 && c.R.N(6) == 0
			if diverged {
				// the learning rate was too big: a value of such a feature makes the output infinite or NaN, a missing one does not
				for i := c.R.Range(1, 3); i > 0; i-- {
					l.W[c.R.N(l.NFeat*l.Groups)] = float32(c.R.PickF(math.Inf(1), math.Inf(-1), math.NaN()))
				}
				c.Count("models with infinite weights", 1)
			}
			anyObjective(c, &l.Objective)
			b := l.emit()
			c.Dump("model", b)
			e, err := loadXGLin(b, false)
			if err != nil {
				c.Fail("a well-formed gblinear model was rejected: %v", err)
			}
			c.Sample("gblinear: %d features, %d groups, base %v", l.NFeat, l.Groups, l.Base)
			for i := 0; i < 30; i++ {
				row := make([]float64, l.NFeat)
				nan := c.R.PickF(0, 0, 0.3, 1)
				wild := c.R.N(5) == 0
				miss, present := false, false
				h := uint64(c.Idx)
				var cols []int
				var vals []float64
				for f := range row {
					if c.R.N(4) == 0 {
						row[f] = 0
					} else if l.Exact {
						row[f] = float64(c.R.Range(-2048, 2048)) / 64
					} else {
						row[f] = f32(c.R.Norm() * 10)
						if l.Scale != nil {
							row[f] = f32(row[f] * l.Scale[f])
							c.Count("rows with tiny or huge values", 1)
						}
					}
					if wild && c.R.N(l.NFeat) < 2 {
						// any value a feature can have
						row[f] = f32(c.R.PickF(math.Inf(1), math.Inf(-1), math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, 1e-38, -1e30, math.Copysign(0, -1), 1<<31, 1<<24+1))
						c.Count("rows with extreme values", 1)
					}
					if c.R.P(nan) {
						row[f] = c.R.NaN()
						miss = true
					} else {
						present = true
					}
					// a value that is left out is missing, which for finite weights is the same as zero
					if v := row[f]; (v != 0 || diverged) && (!math.IsNaN(v) || c.R.N(3) == 0) {
						cols = append(cols, f)
						vals = append(vals, v)
					}
				}
				h = hashF(h, row)
				want, abs := l.ref(row)
				got := predictRow(c, e, row, c.R.Pick(0, 1, -1, 7), l.Groups)
				for k := range want {
					if !same(got[k], want[k]) && (l.Exact && !wild || !closeTo(got[k], want[k], abs*10)) {
						c.Dump("row", row)
						c.Fail("gblinear group %d: got %v, want %v for row %v", k, got[k], want[k], trunc(fmtRow(row), 300))
					}
				}
				if l.Groups == 1 {
					if s := e.PredictSingle(row, 0); !same(s, got[0]) {
						c.Fail("PredictSingle gives %v, Predict %v", s, got[0])
					}
				}
				// CSR: absent entries are missing values
				out := make([]float64, l.Groups)
				if err := e.PredictCSR([]int{0, len(cols)}, cols, vals, out, 0, 1); err != nil {
					c.Fail("PredictCSR: %v", err)
				}
				for k := range want {
					if !same(out[k], want[k]) && (l.Exact && !wild || !closeTo(out[k], want[k], abs*10)) {
						c.Dump("row", row)
						c.Fail("gblinear CSR group %d: got %v, want %v", k, out[k], want[k])
					}
				}
				c.Count("csr rows", 1)
				if miss {
					c.Count("rows with missing values", 1)
				} else {
					c.Count("rows without missing values", 1)
				}
				c.Eval(h, present)
			}
		},
	})
	register(&Property{
		ID: "C05", Level: "exploration", Quick: 30000, Thorough: 600000,
		Rule:   "One case = one generated scikit-learn GradientBoostingClassifier written as a protocol-0 pickle (random node numbering, dict order, memo use, integer opcode, byte order of values, escapes of old and new Python) and 30 rows; an evaluation is one prediction compared with prior + learning_rate * sum of leaf values. Non-trivial: the model has a split; distinct: different model or decision paths.",
		Need:   []string{"numeric left", "numeric right", "numeric equal", "binary models", "multiclass models", "models with max_features_ < n_features_", "models without n_features_", "models that stopped early", "pickles with shared objects", "stump"},
		Assume: []string{"input values are finite and float32-representable (sklearn casts X to float32 and rejects NaN)"},
		Run: func(c *C) {
			o := genOpt{maxTrees: 10, maxFeat: 20, maxLeaves: 30, exact: true, permute: false, shape: -1}
			if c.Idx == 0 {
				o.leaves, o.iters, o.groups, o.search = 70000, 1, 1, true
			}
			if c.Idx == 1 {
				o.iters, o.groups, o.leaves = 300, 1, 4
			}
			switch c.Idx {
			case 2:
				o.nfeat, o.iters, o.groups, o.leaves = 70000, 3, 1, 60
			case 3:
				o.iters, o.groups, o.leaves = 3, 300, 5
			case 4:
				o.leaves, o.iters, o.groups, o.nfeat, o.shape = 3000, 1, 1, 3000, 0
			case 5:
				o.leaves, o.iters, o.groups, o.nfeat, o.shape = 3000, 1, 1, 3000, 1
			case 6:
				o.iters, o.groups, o.leaves, o.nfeat = 66000, 1, 2, 3
			case 7: // more than 2^16 classes
				o.iters, o.groups, o.leaves, o.nfeat = 1, 66000, 2, 3
			}
			if c.Idx > 7 && c.R.N(5) == 0 {
				o.nfeat = c.R.Range(1, 2)
			}
			s := genSK(c.R, o)
			em := randSKEmit(c.R)
			em.newEsc = c.R.N(3) == 0
			if s.MaxFeat == s.NFeat && c.R.N(4) == 0 {
				em.noNFeat = true
				c.Count("models without n_features_", 1)
			}
			if c.R.N(4) == 0 {
				// newer versions stop early: n_estimators is what was asked for, n_estimators_ what was fitted
				em.fitted, em.nEst = s.Iters(), s.Iters()+c.R.Pick(0, 0, 1, 5, 1000)
				if em.nEst > em.fitted {
					c.Count("models that stopped early", 1)
				}
			}
			b := s.emit(c.R, em)
			c.Dump("model", b)
			e, err := loadSK(b)
			if err != nil {
				c.Fail("a well-formed pickle was rejected: %v (%s, %+v)", err, s.describe(), em)
			}
			c.Count("models", 1)
			if s.Groups == 1 {
				c.Count("binary models", 1)
			} else {
				c.Count("multiclass models", 1)
			}
			if s.MaxFeat < s.NFeat {
				c.Count("models with max_features_ < n_features_", 1)
			}
			if em.share && !em.noMemo {
				c.Count("pickles with shared objects", 1)
			}
			c.Sample("%s %+v", s.describe(), em)
			g := newRowGen(s.Model, 0)
			g.noInf = true
			n := 30
			if s.Search > 0 {
				n = 2000
			}
			rows := make([][]float64, n)
			for i := range rows {
				rows[i] = g.row(c.R, skGoesLeft)
			}
			checkRows(c, e, s.Model, "sklearn", rows, func(row []float64, ev map[string]int) refResult { return s.refSK(row, 0, ev) })
		},
	})
}

// anyObjective gives the model another objective half of the time: what an
// XGBoost model predicts without transformation does not depend on it.
func anyObjective(c *C, objective *string) {
	if c.R.Bool() {
		*objective = xgObjectives[c.R.N(len(xgObjectives))]
		c.Count("models of any objective", 1)
	}
}
