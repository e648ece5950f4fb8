package main

import (
	"fmt"
	"math"
	"runtime"
	"strings"

	"github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/transformation"
	"github.com/dmitryikh/leaves/util"
)

func smallOpt() genOpt {
	return genOpt{maxTrees: 10, maxGroups: 5, maxFeat: 14, maxLeaves: 16, exact: true, shape: -1}
}

// trType maps the name of a reference transformation to the public constant.
var trType = map[string]transformation.TransformType{
	"raw": transformation.Raw, "logistic": transformation.Logistic, "softmax": transformation.Softmax, "exponential": transformation.Exponential,
	"leaf_index": transformation.LeafIndex,
}

// constant-leaf models whose raw output is exactly raw[k] for class k
func constModel(raw []float64) *Model {
	m := &Model{Groups: len(raw), NFeat: 2, Style: "lg"}
	for _, v := range raw {
		m.Trees = append(m.Trees, &Tree{Leaves: []float64{v}})
	}
	return m
}

var extremes = []float64{0, math.Copysign(0, -1), 1, -1, 0.5, -0.5, 1e-300, -1e-300, 1e-17, 36, -36, 37.5, -37.5, 40, -40, 88, -88, 100, -100, 300, -300, 700, -700, 709, -709, 710, -710, 744, -744, 746, -746, 1000, -1000, 1e4, -1e4, 1e10, -1e10, 1e300, -1e300, math.MaxFloat64, -math.MaxFloat64}

func checkTransformed(c *C, what, tr string, raw, got []float64) {
	want := refTransform(tr, raw)
	sum := 0.0
	for k := range want {
		if !closeRel(got[k], want[k]) {
			c.Fail("%s: %s of raw %v gives %v, want %v", what, tr, raw, got, want)
		}
		sum += got[k]
		if tr != "raw" && (math.IsNaN(got[k]) || got[k] < 0 || (tr != "exponential" && got[k] > 1)) {
			c.Fail("%s: %s of raw %v gives %v: not a probability / non-negative number", what, tr, raw, got)
		}
	}
	if tr == "softmax" && math.Abs(sum-1) > 1e-9 {
		c.Fail("%s: softmax of raw %v gives %v, which sums to %v", what, raw, got, sum)
	}
	c.Count("transformed "+tr, 1)
}

type objCase struct {
	obj    string
	groups int
	want   string // transformation name, or "error", or "" when either a correct result or an error is fine
}

func lgObjectives(r *Rng) objCase {
	k := r.Range(2, 9)
	if r.N(30) == 0 {
		k = r.Pick(10, 16, 17, 40, 100, 300)
	}
	all := []objCase{
		{"regression", 1, "raw"}, {"regression_l1", 1, "raw"}, {"regression_l2", 1, "raw"},
		{"poisson", 1, "exponential"}, {"gamma", 1, "exponential"}, {"tweedie", 1, "exponential"},
		{"binary sigmoid:1", 1, "logistic"},
		{fmt.Sprintf("multiclass num_class:%d", k), k, "softmax"},
		{"huber", 1, "raw?"}, {"fair", 1, "raw?"}, {"quantile", 1, "raw?"}, {"mape", 1, "raw?"},
		{"binary sigmoid:2", 1, "error"}, {"binary sigmoid:" + r.PickS("1.5", "1.25", "1.000001", "1.99", "0.999", "11", "-1", "1e1", "nan", "0", "1,5", "1x", ""), 1, "error"}, {"binary sigmoid:" + r.PickS("1.0", "1.", "01", "1e0", "+1"), 1, "logistic?"}, {"binary sigmoid:0.5", 1, "error"}, {"binary sigmoid:0.7", 1, "error"}, {"binary sigmoid:10", 1, "error"},
		{fmt.Sprintf("multiclassova num_class:%d sigmoid:1", k), k, "error"},
		{fmt.Sprintf("multiclass num_class:%d", k+1), k, "error"},
		{"cross_entropy_lambda", 1, "error"}, {"xentlambda", 1, "error"},
		{"regression sqrt", 1, "error"}, {"regression_l1 sqrt", 1, "error"},
		{"cross_entropy", 1, "logistic?"}, {"xentropy", 1, "logistic?"},
		{"lambdarank", 1, "raw?"}, {"rank_xendcg", 1, "raw?"}, {"no_such_objective", 1, "error"}, {"", 1, "error"},
		{"poisson num_class:3", 1, "error"},
		{"cross_entropy sigmoid:1", 1, "logistic?"}, {"lambdarank sigmoid:1", 1, "raw?"}, {"no_such_objective sigmoid:1", 1, "error"}, {"cross_entropy_lambda sigmoid:1", 1, "error"},
		{"multiclass sigmoid:1", k, "error"}, {fmt.Sprintf("multiclassova num_class:%d", k), k, "error"}, {fmt.Sprintf("no_such_objective num_class:%d", k), k, "error"}, {"custom", 1, "error"},
		{"binary sigmoid:1", 3, "error"}, {"poisson", 4, "error"}, {"tweedie", 2, "error"},
	}
	oc := all[r.N(len(all))]
	if r.N(4) == 0 {
		// a name nobody knows that looks like one
		if v := nearName(r, oc.obj); v != oc.obj && !knownObj(v) {
			oc.want = "error"
			if strings.HasPrefix(v, "regression") && !strings.HasSuffix(v, " sqrt") && oc.groups == 1 {
				oc.want = "raw?" // taken for one of its relatives
			}
			oc.obj = v
		}
	}
	return oc
}

// nearName changes a name in one place.
func nearName(r *Rng, s string) string {
	first, rest := s, ""
	if i := strings.IndexByte(s, ' '); i >= 0 {
		first, rest = s[:i], s[i:]
	}
	if first == "" {
		return s
	}
	i := r.N(len(first))
	switch r.N(9) {
	case 0:
		first = first[:r.Range(1, len(first))]
	case 1:
		first = first[i:]
	case 2:
		first += r.PickS("2", "x", "_l3", "_", "ed", "raw", ":1", "s", ".", "=", "-")
	case 3:
		first = r.PickS("x", "log_", "neg_", "my", "_", "1", "no_", "non") + first
	case 4:
		first = strings.ToUpper(first)
	case 5:
		first = strings.ToUpper(first[:1]) + first[1:]
	case 6:
		first = first[:i] + first[i+1:]
	case 7:
		first = first[:i] + string(rune('a'+r.N(26))) + first[i+1:]
	default:
		first = first[:i] + r.PickS("_", "-", ":", "e", "\x01", "é") + first[i:]
	}
	return first + rest
}

// knownObj: the first word of a LightGBM objective names an objective that
// exists (under any of its aliases).
func knownObj(s string) bool {
	if i := strings.IndexByte(s, ' '); i >= 0 {
		s = s[:i]
	}
	for _, k := range strings.Fields("regression regression_l1 regression_l2 l1 l2 l2_root rmse root_mean_squared_error mean_squared_error mse mean_absolute_error mae mean_average_error poisson gamma tweedie huber fair quantile mape mean_absolute_percentage_error binary multiclass softmax multiclassova multiclass_ova ova ovr cross_entropy cross_entropy_lambda xentropy xentlambda lambdarank rank_xendcg xendcg xe_ndcg xe_ndcg_mart xendcg_mart custom none null na") {
		if s == k {
			return true
		}
	}
	return false
}

var xgObjectives = []string{"binary:logistic", "reg:logistic", "binary:logitraw", "binary:hinge", "reg:linear", "reg:squarederror", "reg:squaredlogerror", "reg:pseudohubererror",
	"reg:absoluteerror", "reg:gamma", "reg:tweedie", "count:poisson", "survival:cox", "survival:aft", "multi:softmax", "multi:softprob", "rank:pairwise", "rank:ndcg", "rank:map",
	"binary:logi", "binary:logist", "binary", "logistic", "binary:", "binary:logistic2", "binary:logistic ", " binary:logistic", "Binary:logistic", "BINARY:LOGISTIC", "binary:logistic\x00", "binary:logistic_raw", "binary-logistic", "", "rank:binary:logistic", "gpu:binary:logistic", "binary:logistica", "binary:logisti"}

// runXGObjective: whatever an XGBoost model's objective is called, loading with
// transformation gives its link function or an error.
func runXGObjective(c *C) {
	r := c.R
	obj := xgObjectives[r.N(len(xgObjectives))]
	if r.N(4) == 0 {
		obj = nearName(r, r.PickS("binary:logistic", "binary:logistic", "reg:logistic", "count:poisson", "multi:softprob"))
	}
	kind := r.PickS("xgtree", "xgdart", "xglin")
	z := makeZoo(c, kind, smallOpt(), false)
	if kind == "xglin" {
		z.l.Objective = obj
		z.bytes = z.l.emit()
	} else {
		z.x.Objective = obj
		z.bytes = z.x.emit(r)
	}
	c.Dump("objective", obj)
	c.Dump("model", z.bytes)
	c.Sample("%s, objective %q, %d classes", kind, obj, z.groups)
	want := ""
	switch obj {
	case "binary:logistic", "reg:logistic":
		want = "logistic"
	case "multi:softprob":
		want = "softmax"
	case "count:poisson", "reg:gamma", "reg:tweedie", "survival:cox":
		want = "exponential"
	case "reg:linear", "reg:squarederror", "binary:logitraw", "rank:pairwise", "rank:ndcg", "rank:map", "reg:squaredlogerror", "reg:pseudohubererror", "reg:absoluteerror":
		want = "raw"
	}
	if want != "softmax" && z.groups > 1 {
		want = ""
	}
	e0 := z.mustLoad(c, false)
	e, err := z.load(z.bytes, true)
	if err != nil {
		if obj == "binary:logistic" && z.groups == 1 {
			c.Fail("%s: objective %q was rejected: %v", kind, obj, err)
		}
		c.Count("objective rejected", 1)
		c.Eval(hashStr(obj+kind), true)
		return
	}
	if want == "" {
		c.Fail("%s: objective %q of %d classes was loaded with transformation %q", kind, obj, z.groups, e.Transformation().Name())
	}
	for i := 0; i < 6; i++ {
		row := z.row(r)
		raw := predictRow(c, e0, row, 0, z.groups)
		got := predictRow(c, e, row, 0, z.groups)
		if i := finite(raw); i >= 0 {
			continue
		}
		checkTransformed(c, kind+" objective "+obj, want, raw, got)
		c.Count("xgboost logistic", 1)
		c.Eval(hashF(hashStr(obj+kind), raw), true)
	}
}

// finite returns the index of the first value that is not, or -1.
func finite(v []float64) int {
	for i, x := range v {
		if math.IsNaN(x) || math.IsInf(x, 0) {
			return i
		}
	}
	return -1
}

func init() {
	register(&Property{
		ID: "C06", Level: "exploration", Quick: 300000, Thorough: 4000000,
		Rule: "One case = one model with an objective string (known, unknown, or a variant whose link function differs), loaded with and without transformation, evaluated on raw scores that include saturating and overflowing ones; plus direct calls of every exported transformation with offsets and wrong lengths. An evaluation compares the transformed output with a careful evaluation of the link function on the raw output. Non-trivial: a non-identity transformation or a rejected objective; distinct: different objective or raw scores.",
		Need: []string{"transformed logistic", "transformed softmax", "transformed exponential", "transformed raw", "objective rejected", "direct transform calls", "xgboost logistic"},
		Run: func(c *C) {
			r := c.R
			switch c.Idx % 4 {
			case 0, 1: // constant models, exact raw values
				oc := lgObjectives(r)
				raw := make([]float64, oc.groups)
				for k := range raw {
					if r.Bool() {
						raw[k] = extremes[r.N(len(extremes))]
					} else {
						raw[k] = r.Norm() * r.PickF(1, 10, 1000)
					}
				}
				if oc.groups > 1 && r.N(3) == 0 {
					sh := r.PickF(1000, -1000, 1e5, -1e5, 750, -750)
					for k := range raw {
						raw[k] = sh + r.Norm()
					}
				}
				m := constModel(raw)
				em := randLGText(r)
				em.objective = oc.obj
				b := em.emit(m)
				c.Dump("model", b)
				c.Dump("objective", oc.obj)
				e, err := loadLG(b, true)
				c.Sample("objective %q, raw %v -> %s", oc.obj, raw, oc.want)
				h := hashF(hashStr(oc.obj), raw)
				if oc.want == "error" {
					if err == nil {
						c.Fail("objective %q with %d classes was loaded with transformation %q: its link function is a different one, so loading has to fail", oc.obj, oc.groups, e.Transformation().Name())
					}
					c.Count("objective rejected", 1)
					c.Eval(h, true)
					return
				}
				want := oc.want
				if want[len(want)-1] == '?' {
					want = want[:len(want)-1]
					if err != nil {
						c.Count("objective rejected", 1)
						c.Eval(h, true)
						return
					}
				}
				if err != nil {
					c.Fail("objective %q (transformation %s) was rejected: %v", oc.obj, want, err)
				}
				row := []float64{r.Norm(), r.Norm()}
				if e.NOutputGroups() != oc.groups {
					c.Fail("objective %q: NOutputGroups = %d for %d classes", oc.obj, e.NOutputGroups(), oc.groups)
				}
				got := predictRow(c, e, row, 0, oc.groups)
				checkTransformed(c, "objective "+oc.obj, want, raw, got)
				if e.Transformation().Type() != trType[want] {
					c.Fail("objective %q: transformation type is %v", oc.obj, e.Transformation().Name())
				}
				rawE := predictRow(c, e.EnsembleWithRawPredictions(), row, 0, oc.groups)
				if sameSlice(rawE, raw) >= 0 {
					c.Fail("raw view gives %v, the leaves say %v", rawE, raw)
				}
				if oc.groups == 1 {
					if v := e.PredictSingle(row, 0); !same(v, got[0]) {
						c.Fail("PredictSingle %v, Predict %v", v, got[0])
					}
				}
				e0, err := loadLG(b, false)
				if err != nil {
					c.Fail("objective %q is rejected although no transformation was asked for: %v", oc.obj, err)
				}
				got0 := predictRow(c, e0, row, 0, oc.groups)
				if sameSlice(got0, raw) >= 0 {
					c.Fail("objective %q without transformation: %v, want raw %v", oc.obj, got0, raw)
				}
				c.Eval(h, want != "raw")
			case 2: // real models: transformed = f(raw)
				if r.N(3) == 0 {
					runXGObjective(c)
					return
				}
				kind := r.PickS("lgtext", "lgtext", "xgtree", "xgdart", "xglin", "lgrf")
				z := makeZoo(c, kind, smallOpt(), true)
				if z.tr == "" {
					// objective without a supported link: loading with transformation must fail
					if kind != "lgjson" {
						if e, err := z.load(z.bytes, true); err == nil {
							c.Fail("%s with an objective without supported link function was loaded with transformation %q", kind, e.Transformation().Name())
						}
						c.Count("objective rejected", 1)
						c.Eval(uint64(c.Idx), true)
					}
					return
				}
				e := z.mustLoad(c, true)
				e0 := z.mustLoad(c, false)
				for i := 0; i < 12; i++ {
					row := z.row(r)
					raw := predictRow(c, e0, row, 0, z.groups)
					got := predictRow(c, e, row, 0, z.groups)
					bad := false
					for _, v := range raw {
						if math.IsNaN(v) || math.IsInf(v, 0) {
							bad = true
						}
					}
					if bad {
						continue
					}
					checkTransformed(c, kind, z.tr, raw, got)
					if z.x != nil || z.l != nil {
						c.Count("xgboost logistic", 1)
					}
					rv := predictRow(c, e.EnsembleWithRawPredictions(), row, 0, z.groups)
					if sameSlice(rv, raw) >= 0 {
						c.Fail("%s: raw view of the transformed model gives %v, the untransformed model %v", kind, rv, raw)
					}
					c.Eval(hashF(hashStr(z.tr+kind), raw), z.tr != "raw")
				}
			case 3: // the transformation package and the helpers on their own
				n := r.Range(1, 8)
				if r.N(20) == 0 {
					n = r.Pick(16, 17, 31, 33, 64, 100, 257, 1000, 5000)
				}
				raw := make([]float64, n)
				for k := range raw {
					if r.N(3) == 0 {
						raw[k] = extremes[r.N(len(extremes))]
					} else {
						raw[k] = r.Norm() * r.PickF(1, 30, 800)
					}
				}
				start := r.N(5)
				type tc struct {
					t    transformation.Transform
					name string
					n    int
				}
				for _, t := range []tc{{&transformation.TransformRaw{NumOutputGroups: n}, "raw", n}, {&transformation.TransformLogistic{}, "logistic", 1},
					{&transformation.TransformSoftmax{NClasses: n}, "softmax", n}, {&transformation.TransformExponential{}, "exponential", 1},
					{&transformation.TransformLeafIndex{NumOutputGroups: n}, "leaf_index", n}} {
					in := append([]float64(nil), raw[:t.n]...)
					out := make([]float64, start+t.n+3)
					for i := range out {
						out[i] = -77
					}
					if err := t.t.Transform(in, out, start); err != nil {
						c.Fail("%s.Transform: %v", t.name, err)
					}
					ref := t.name
					if ref == "leaf_index" {
						ref = "raw"
					}
					checkTransformed(c, "transformation."+t.name, ref, raw[:t.n], out[start:start+t.n])
					if ref == "raw" && !bitsSame(out[start:start+t.n], raw[:t.n]) {
						c.Fail("%s.Transform turns %v into %v", t.name, raw[:t.n], out[start:start+t.n])
					}
					for i := range out {
						if (i < start || i >= start+t.n) && out[i] != -77 {
							c.Fail("%s.Transform wrote outside [%d,%d): index %d", t.name, start, start+t.n, i)
						}
					}
					if sameSlice(in, raw[:t.n]) >= 0 {
						c.Fail("%s.Transform changed its input", t.name)
					}
					if t.t.NOutputGroups() != t.n {
						c.Fail("%s.NOutputGroups() = %d, want %d", t.name, t.t.NOutputGroups(), t.n)
					}
					if t.t.Name() != t.name || t.t.Type().Name() != t.name || t.t.Type() != trType[t.name] {
						c.Fail("transformation %s calls itself %q, its type %q", t.name, t.t.Name(), t.t.Type().Name())
					}
					if t.name == "logistic" || t.name == "exponential" || t.name == "softmax" {
						bad := make([]float64, t.n+1)
						cp := append([]float64(nil), out...)
						if err := t.t.Transform(bad, out, start); err == nil {
							c.Fail("%s.Transform accepted %d raw values, expects %d", t.name, len(bad), t.n)
						}
						if !bitsSame(cp, out) {
							c.Fail("%s.Transform wrote although it returned an error", t.name)
						}
					}
					c.Count("direct transform calls", 1)
				}
				if s := util.Sigmoid(raw[0]); !closeRel(s, refTransform("logistic", raw[:1])[0]) {
					c.Fail("Sigmoid(%v) = %v", raw[0], s)
				}
				v := append([]float64(nil), raw...)
				util.SigmoidFloat64SliceInplace(v)
				if w := refTransform("logistic", raw); true {
					for i := range w {
						if !closeRel(v[i], w[i]) {
							c.Fail("SigmoidFloat64SliceInplace(%v) = %v", raw, v)
						}
					}
				}
				for _, t := range []int{-5, -1, 5, 6, 100} {
					if nm := transformation.TransformType(t).Name(); nm != "unknown" {
						c.Fail("TransformType(%d).Name() = %q", t, nm)
					}
				}
				c.Eval(hashF(5, raw), true)
			}
		},
	})

	register(&Property{
		ID: "C07", Level: "exploration", Quick: 24000, Thorough: 800000, Procs: 4,
		Rule: "One case = one model of any kind (raw, transformed or leaf view), a matrix of 0..1000 rows (now and then 4096..70001; the first cases have matrices of 2^19 to 2^24 rows, of 70000 columns and of 66000 outputs), and calls of PredictDense and PredictCSR over thread counts {0,1,2,3,4,5,8,16,-1,1000} and the limits of int, GOMAXPROCS 1..8 and 40, padded widths, sparsity patterns (now and then up to 400 features of which a row has none to four), shuffled columns, surplus columns and offset row pointers; an evaluation is one matrix call compared bit for bit with the row-by-row Predict results. Non-trivial: more than one batch of rows and more than one thread; distinct: different call or data.",
		Need: []string{"dense calls", "csr calls", "parallel calls", "calls with a partial last batch", "csr with surplus columns", "csr with absent entries", "leaf views", "transformed", "large matrices", "wide sparse matrices", "huge matrices"},
		Run: func(c *C) {
			if c.Idx < len(huges) {
				runHuge(c)
				return
			}
			r := c.R
			kind := kinds[c.Idx%len(kinds)]
			o := smallOpt()
			o.exact = r.N(4) == 0
			if r.N(5) == 0 {
				o.nfeat = 1
			}
			sparse := r.N(4) == 0
			if sparse {
				o.nfeat = r.Pick(20, 50, 120, 400)
			}
			z := makeZoo(c, kind, o, r.Bool())
			var used []int
			if sparse {
				c.Count("wide sparse matrices", 1)
				used = z.usedFeatures()
			}
			e := z.mustLoad(c, z.tr != "" && z.tr != "raw")
			if z.tr != "" && z.tr != "raw" {
				c.Count("transformed", 1)
			}
			if z.l == nil && r.N(4) == 0 {
				e = e.EnsembleWithLeafPredictions()
				c.Count("leaf views", 1)
			}
			nEst := 0
			if e.Transformation().Type() != transformation.LeafIndex {
				nEst = r.Pick(0, 0, -1, 1, 2, z.iters, z.iters+5)
			}
			ng := e.NOutputGroups()
			n := r.Pick(0, 1, 2, 5, 15, 16, 17, 18, 31, 32, 33, 47, 48, 49, 64, 100, 257)
			if r.N(40) == 0 {
				n = 1000
			}
			if r.N(150) == 0 && ng*10000 < 1<<21 && z.nfeat < 50 {
				n = r.Pick(4096, 4097, 5000, 16385)
				if ng <= 8 && z.nfeat <= 8 {
					n = r.Pick(65536, 65537, 70001)
				}
				c.Count("large matrices", 1)
			}
			rows := make([][]float64, n)
			want := make([]float64, 0, n*ng)
			for i := range rows {
				if i >= 300 { // rows come back in another order
					j := (i*7 + i/300) % 300
					rows[i] = rows[j]
					want = append(want, want[j*ng:(j+1)*ng]...)
					continue
				}
				rows[i] = z.row(r)
				if sparse {
					z.thin(r, rows[i], used)
				}
				want = append(want, predictRow(c, e, rows[i], nEst, ng)...)
			}
			old := runtime.GOMAXPROCS(0)
			defer runtime.GOMAXPROCS(old)
			for call := 0; call < 6; call++ {
				th := r.Pick(0, 1, 2, 3, 4, 5, 8, 16, -1, 1000, math.MinInt64, math.MaxInt64)
				gp := r.Pick(1, 2, 3, 4, 8, 40)
				runtime.GOMAXPROCS(gp)
				off := r.Pick(0, 0, 3)
				buf := make([]float64, off+n*ng+r.Pick(0, 0, 5))
				for i := range buf {
					buf[i] = -4242
				}
				out := buf[off:]
				what := ""
				var err error
				if call%2 == 0 {
					width := z.nfeat + r.Pick(0, 0, 1, 7)
					vals := flatten(rows, width, r)
					what = fmt.Sprintf("PredictDense(%d rows, %d columns of %d features, nEstimators %d, threads %d, GOMAXPROCS %d)", n, width, z.nfeat, nEst, th, gp)
					if msg, p := c.Try(func() { err = e.PredictDense(vals, n, width, out, nEst, th) }); p {
						c.Fail("%s panicked: %s", what, msg)
					}
					c.Count("dense calls", 1)
				} else {
					expl := r.PickF(0, 0.5, 1)
					extra := r.N(3) == 0
					lead := r.Pick(0, 0, 4)
					indptr, cols, vals := z.toCSR(r, rows, expl, r.Bool(), lead, extra)
					if cols == nil {
						cols, vals = []int{}, []float64{}
					}
					what = fmt.Sprintf("PredictCSR(%d rows, %d entries, first offset %d, surplus columns %v, nEstimators %d, threads %d, GOMAXPROCS %d)", n, len(cols), lead, extra, nEst, th, gp)
					if msg, p := c.Try(func() { err = e.PredictCSR(indptr, cols, vals, out, nEst, th) }); p {
						c.Fail("%s panicked: %s", what, msg)
					}
					c.Count("csr calls", 1)
					if extra {
						c.Count("csr with surplus columns", 1)
					}
					if expl < 1 {
						c.Count("csr with absent entries", 1)
					}
				}
				if err != nil {
					c.Fail("%s: %v", what, err)
				}
				if n > 16 && th != 0 && th != 1 {
					c.Count("parallel calls", 1)
					if n%16 != 0 {
						c.Count("calls with a partial last batch", 1)
					}
				}
				for i := range want {
					if !same(out[i], want[i]) {
						c.Dump("row", rows[i/ng])
						c.Fail("%s %s: output %d of row %d is %v, Predict says %v (%s)", kind, what, i%ng, i/ng, out[i], want[i], z.describe())
					}
				}
				for i := 0; i < off; i++ {
					if buf[i] != -4242 {
						c.Fail("%s wrote before its output", what)
					}
				}
				for i := n * ng; i < len(out); i++ {
					if out[i] != -4242 {
						c.Fail("%s wrote behind its %d outputs", what, n*ng)
					}
				}
				if call == 0 {
					c.Sample("%s on %s", what, z.describe())
				}
				c.Eval(hashF(hashStr(what)^uint64(c.Idx), want), n > 16 && th != 0 && th != 1)
			}
			if ng == 1 {
				for i, row := range rows {
					if i > 20 {
						break
					}
					if v := e.PredictSingle(row, nEst); !same(v, want[i]) {
						c.Dump("row", row)
						c.Fail("PredictSingle says %v, Predict %v", v, want[i])
					}
				}
			}
		},
	})

	register(&Property{
		ID: "C09", Level: "exploration", Quick: 100000, Thorough: 2000000, Procs: 2,
		Rule: "One case = one model of any kind and about 12 calls with output slices that are exact, longer, too short or empty, rows and matrices that are too narrow or too short, sizes below zero, and unsupported estimator counts (now and then a model without features). Monitors: canaries around every output, bitwise copies of every input, error expected or not, nothing written on error. Non-trivial: every call; distinct: different call shape or model.",
		Need: []string{"accepted calls", "rejected: short predictions", "rejected: short row", "rejected: few columns", "rejected: short values", "rejected: broken sparse matrix", "rejected: sizes that overflow", "rejected: broken sparse matrix", "rejected: sizes that overflow", "rejected: leaf view with fewer estimators", "quiet zero", "single answers", "single leaf answers", "zero rows", "rejected: leaf view of a linear model", "models without features", "rows without features answered", "sizes below zero"},
		Run:  runBuffers,
	})

	register(&Property{
		ID: "C10", Level: "exploration", Quick: 12000, Thorough: 200000,
		Rule: "One case = one tree model of any kind and 40 rows; for each row the leaf view's output is decoded (layout group*NEstimators+estimator) and compared with the leaf the reference interpreter reaches: identical index for LightGBM text, a one-to-one numbering within [0, NLeaves) for the other formats; the leaf values selected that way sum to the raw prediction. Non-trivial: trees with at least two leaves; distinct: different model or leaves.",
		Need: []string{"models lgtext", "models lgrf", "models lgjson", "models xgtree", "models xgdart", "models sk", "index pairs", "matrix leaf calls", "models with equal leaf values", "models with more than 65536 leaves"},
		Run:  runLeafIdx,
	})

	register(&Property{
		ID: "C11", Level: "exploration", Quick: 12000, Thorough: 400000,
		Rule: "One case = one model of any kind with N iterations; for every k in -1..N+2 (sampled when N is large) predictions limited to k estimators are compared with the reference prefix and with a separately serialised and loaded model that only contains the first k iterations. Non-trivial: 0 < k < N; distinct: different (model, k).",
		Need: []string{"proper prefixes", "k <= 0", "k > N", "truncated models loaded", "transformed prefixes", "models with many estimators", "matrices of several batches"},
		Run:  runPrefix,
	})

	register(&Property{
		ID: "C16", Level: "exploration", Quick: 30000, Thorough: 800000,
		Rule: "One case = one model of any kind whose class count, feature count, estimator count, leaf counts and objective are known; every reported fact (Name, NFeatures, NEstimators, NRawOutputGroups, NOutputGroups, NLeaves, Transformation) of the model and of its raw and leaf views is compared, and the reported width is used to allocate rows that must be accepted (one less must not). Non-trivial: all; distinct: different facts.",
		Need: []string{"models lgtext", "models lgrf", "models lgjson", "models xgtree", "models xgdart", "models xglin", "models sk", "single-feature models", "views"},
		Run:  runMeta,
	})
}

// breakCSR makes a sparse matrix that points outside its arrays; "" if there is
// nothing to break.
func breakCSR(r *Rng, indptr []int, cols *[]int, vals *[]float64) string {
	if len(*cols) == 0 || indptr[len(indptr)-1] == indptr[0] {
		return ""
	}
	// a row with entries
	var full []int
	for i := 0; i+1 < len(indptr); i++ {
		if indptr[i+1] > indptr[i] {
			full = append(full, i)
		}
	}
	if len(full) == 0 {
		return ""
	}
	i := full[r.N(len(full))]
	if r.N(3) == 0 {
		i = full[len(full)-1]
	}
	last := indptr[full[len(full)-1]+1]
	switch r.N(5) {
	case 0:
		*cols = (*cols)[:r.Range(0, last-1)]
		return "few columns"
	case 1:
		*vals = (*vals)[:r.Range(0, last-1)]
		return "few values"
	case 2:
		m := len(*cols)
		if len(*vals) > m {
			m = len(*vals)
		}
		indptr[i+1] = m + r.Pick(1, 2, 1000, 1<<40)
		return "row ends too far"
	case 3:
		indptr[i] = -r.Range(1, 3)
		return "row starts before the first entry"
	}
	(*cols)[indptr[i]+r.N(indptr[i+1]-indptr[i])] = r.Pick(-1, -2, -1<<31, math.MinInt64)
	return "negative column"
}

// runNoFeatures asks a model without features: a matrix has no columns, or
// columns nobody looks at.
func runNoFeatures(c *C) {
	r := c.R
	m := &Model{Groups: r.Range(1, 3), NFeat: 0, Style: "lg", Exact: true}
	iters := r.Range(1, 3)
	raw := make([]float64, m.Groups)
	for i := 0; i < iters*m.Groups; i++ {
		v := float64(r.Range(-64, 64)) / 8
		raw[i%m.Groups] += v
		m.Trees = append(m.Trees, &Tree{Leaves: []float64{v}})
	}
	var e *leaves.Ensemble
	var err error
	em := randLGText(r)
	b := em.emit(m)
	if r.Bool() {
		b = (&lgJSON{}).emit(m)
		e, err = loadJSON(b)
	} else {
		e, err = loadLG(b, false)
	}
	c.Dump("model", b)
	if err != nil {
		c.Fail("a model of leaves without features was rejected: %v", err)
	}
	want := raw
	if r.N(3) == 0 {
		e = e.EnsembleWithLeafPredictions()
		want = make([]float64, iters*m.Groups)
	}
	ng := e.NOutputGroups()
	for call := 0; call < 12; call++ {
		n := r.Pick(0, 1, 2, 17, 40, -1, -20, math.MinInt64)
		rows := n
		if n < 0 {
			rows = 0
		}
		ncols := r.Pick(0, 0, 1, 3, -1, math.MinInt64)
		vals := make([]float64, r.Pick(0, rows*3))
		if ncols > 0 {
			vals = make([]float64, rows*ncols)
		}
		th := r.Pick(0, 1, 4, -1)
		out := make([]float64, rows*ng+2)
		for i := range out {
			out[i] = -4242
		}
		mode := r.N(4)
		wantErr, anyErr := false, false
		var what, msg string
		p := false
		switch mode {
		case 0:
			n, rows = 1, 1
			out = append(out[:0:0], make([]float64, ng+2)...)
			for i := range out {
				out[i] = -4242
			}
			what = "Predict of an empty row"
			row := [][]float64{nil, {}, {1, 2}}[r.N(3)]
			msg, p = c.Try(func() { err = e.Predict(row, 0, out) })
		case 1:
			what = fmt.Sprintf("PredictCSR of %d empty rows", rows)
			n = rows
			indptr := make([]int, rows+1)
			msg, p = c.Try(func() { err = e.PredictCSR(indptr, nil, nil, out, 0, th) })
		default:
			what = fmt.Sprintf("PredictDense(%d values, %d rows, %d columns, threads %d)", len(vals), n, ncols, th)
			wantErr = ncols < 0
			anyErr = ncols <= 0 || n < 0
			msg, p = c.Try(func() { err = e.PredictDense(vals, n, ncols, out, 0, th) })
		}
		what += " by a model without features"
		c.Dump("call", what)
		if p {
			c.Fail("%s panicked: %s", what, msg)
		}
		if wantErr && err == nil && rows > 0 {
			c.Fail("%s was accepted", what)
		}
		if !anyErr && err != nil {
			c.Fail("%s was rejected: %v", what, err)
		}
		if err != nil {
			rows = 0
		}
		for i, v := range out {
			if i >= rows*ng && v != -4242 {
				c.Fail("%s wrote at output index %d (its outputs are [0,%d), error: %v)", what, i, rows*ng, err)
			}
			if i < rows*ng && v != want[i%ng] {
				c.Fail("%s: output %d is %v, want %v", what, i, v, want[i%ng])
			}
		}
		if rows > 0 {
			c.Count("rows without features answered", rows)
		}
		c.Eval(hashStr(what)^uint64(c.Idx), true)
	}
	c.Count("models without features", 1)
}

func runBuffers(c *C) {
	r := c.R
	if c.Idx%40 == 39 {
		runNoFeatures(c)
		return
	}
	kind := kinds[c.Idx%len(kinds)]
	o := smallOpt()
	o.maxLeaves = 6
	if r.N(4) == 0 {
		o.nfeat = 1
	}
	if r.N(6) == 0 {
		// one tree: its leaf view has one output
		o.maxTrees, o.maxGroups = 1, 1
	}
	z := makeZoo(c, kind, o, r.Bool())
	useTr := z.tr != "" && z.tr != "raw" && r.Bool()
	e := z.mustLoad(c, useTr)
	leaf := false
	if r.N(3) == 0 {
		e = e.EnsembleWithLeafPredictions()
		leaf = true
	}
	ng := e.NOutputGroups()
	linearLeaf := leaf && kind == "xglin"
	for call := 0; call < 12; call++ {
		n := r.Pick(0, 1, 2, 16, 17, 33, 50)
		rows := make([][]float64, n)
		for i := range rows {
			rows[i] = z.row(r)
		}
		th := r.Pick(0, 1, 2, 4, -1)
		nEst := r.Pick(0, -3, z.iters, z.iters+2)
		short := ""
		if r.N(2) == 0 {
			short = r.PickS("predictions", "row", "columns", "values", "estimators", "sparse", "huge")
		}
		if short == "estimators" {
			if !leaf || z.iters < 2 {
				short = ""
			} else {
				nEst = r.Range(1, z.iters-1)
			}
		}
		mode := r.N(3) // 0 single row, 1 dense, 2 csr
		if short == "row" {
			mode = 0
		}
		if short == "columns" || short == "values" || short == "huge" {
			mode = 1
		}
		if short == "sparse" {
			mode = 2
		}
		if mode == 0 {
			n = 1
			rows = [][]float64{z.row(r)}
		}
		if (short == "values" || short == "predictions") && n == 0 {
			short = ""
		}
		need := n * ng
		pre, post := r.Pick(0, 0, 2), r.Pick(0, 1, 9)
		outLen := need + post
		if short == "predictions" {
			outLen = r.N(need)
			if r.N(3) == 0 {
				outLen = need - 1
			}
		}
		buf := make([]float64, pre+outLen+8)
		for i := range buf {
			buf[i] = -4242
		}
		out := buf[pre : pre+outLen : pre+outLen]
		if r.Bool() {
			out = buf[pre : pre+outLen] // spare capacity must not be used
		}
		var err error
		what := ""
		var in []float64
		var inI [][]int
		switch mode {
		case 0:
			row := append([]float64(nil), rows[0]...)
			if short == "row" {
				row = row[:r.N(len(row))]
			} else if r.Bool() {
				row = append(row, 1, 2, 3)
			}
			in = row
			cp := append([]float64(nil), row...)
			what = fmt.Sprintf("Predict(row of %d of %d, nEstimators %d of %d, %d of %d outputs)", len(row), z.nfeat, nEst, z.iters, outLen, need)
			if msg, p := c.Try(func() { err = e.Predict(row, nEst, out) }); p {
				c.Fail("%s panicked: %s", what, msg)
			}
			if !bitsSame(cp, in) {
				c.Fail("%s changed its input row", what)
			}
			// the convenience call stays quiet
			if ng != 1 || short == "row" || short == "estimators" {
				var v float64
				if msg, p := c.Try(func() { v = e.PredictSingle(row, nEst) }); p {
					c.Fail("PredictSingle panicked: %s (%s)", msg, what)
				}
				if v != 0 {
					c.Fail("PredictSingle returned %v where it should quietly return 0 (%s)", v, what)
				}
				c.Count("quiet zero", 1)
			} else if short == "" {
				want := 0.0
				if err == nil {
					want = out[0]
				}
				if v := e.PredictSingle(row, nEst); !same(v, want) {
					c.Fail("PredictSingle returned %v, Predict %v with error %v (%s)", v, out[:1], err, what)
				}
				c.Count("single answers", 1)
				if leaf {
					c.Count("single leaf answers", 1)
				}
			}
		case 1:
			width := z.nfeat + r.Pick(0, 2)
			vals := flatten(rows, width, r)
			ncols := width
			if short == "columns" {
				ncols = r.N(z.nfeat)
			}
			if short == "values" {
				d := r.Pick(1, width, 2*width)
				if d > len(vals) {
					d = len(vals)
				}
				vals = vals[: len(vals)-d : len(vals)-d]
			}
			if short == "huge" {
				// sizes whose product overflows
				switch r.N(4) {
				case 0:
					n = 1 << uint(r.Range(40, 62))
				case 1:
					n = math.MaxInt64 - r.N(3)
				case 2:
					n = math.MaxInt64 - r.N(9)
					if ncols > 1 {
						n = math.MaxInt64/ncols + r.Range(0, 2)
					}
				case 3:
					if n == 0 {
						n = 1
						outLen = ng
						buf = append(buf, make([]float64, ng)...)
						for i := range buf {
							buf[i] = -4242
						}
						out = buf[pre : pre+outLen]
					}
					ncols = r.Pick(math.MaxInt64, 1<<62, 1<<63-2, 1<<61)
					if ncols/2 < len(vals) {
						panic("harness")
					}
				}
			}
			if short == "" && r.N(12) == 0 {
				// sizes below zero: no row, or no columns
				short = "negative"
				need = 0
				if r.Bool() {
					n = r.Pick(-1, -2, -17, -1000, math.MinInt64)
				} else {
					ncols = r.Pick(-1, -width, -1<<40, math.MinInt64)
				}
			}
			cp := append([]float64(nil), vals...)
			what = fmt.Sprintf("PredictDense(%d values, %d rows, %d columns of %d, nEstimators %d of %d, threads %d, %d of %d outputs)", len(vals), n, ncols, z.nfeat, nEst, z.iters, th, outLen, need)
			if short == "values" {
				th = 1 // a panic in a worker goroutine would end the process
				if r.N(8) == 0 {
					th = 3
				}
			}
			if msg, p := c.Try(func() { err = e.PredictDense(vals, n, ncols, out, nEst, th) }); p {
				c.Fail("%s panicked: %s", what, msg)
			}
			if !bitsSame(cp, vals) {
				c.Fail("%s changed its input", what)
			}
		case 2:
			indptr, cols, vals := z.toCSR(r, rows, 0.5, r.Bool(), r.Pick(0, 3), r.N(3) == 0)
			if short == "sparse" {
				if f := breakCSR(r, indptr, &cols, &vals); f == "" {
					short = ""
				} else {
					c.Count("sparse matrix broken: "+f, 1)
				}
			}
			if short == "" && r.N(8) == 0 {
				short = "no pointers"
				indptr = [][]int{nil, {}, {0}, {len(vals)}}[r.N(4)]
			}
			inI = [][]int{append([]int(nil), indptr...), append([]int(nil), cols...)}
			cp := append([]float64(nil), vals...)
			what = fmt.Sprintf("PredictCSR(%d rows, %d entries, nEstimators %d of %d, threads %d, %d of %d outputs)", n, len(vals), nEst, z.iters, th, outLen, need)
			if msg, p := c.Try(func() { err = e.PredictCSR(indptr, cols, vals, out, nEst, th) }); p {
				c.Fail("%s panicked: %s", what, msg)
			}
			if !bitsSame(cp, vals) || fmtInts(indptr) != fmtInts(inI[0]) || fmtInts(cols) != fmtInts(inI[1]) {
				c.Fail("%s changed its input", what)
			}
		}
		c.Dump("call", what)
		wantErr := short != "" || linearLeaf
		lin := linearLeaf
		if short == "negative" && n <= 0 {
			// no rows: either answer is fine
			wantErr = err != nil
		}
		if lin && n == 0 {
			// nothing to predict: either answer is fine
			wantErr = err != nil
		}
		if short == "no pointers" {
			// no row at all: either answer is fine
			wantErr = err != nil
			need = 0
		}
		if wantErr && err == nil {
			c.Fail("%s %s was accepted (%s too short; leaf view of a linear model: %v)", kind, what, short, lin)
		}
		if !wantErr && err != nil {
			c.Fail("%s %s was rejected: %v", kind, what, err)
		}
		wrote := need
		if err != nil {
			wrote = 0
		}
		for i, v := range buf {
			inside := i >= pre && i < pre+wrote
			if !inside && v != -4242 {
				c.Fail("%s %s wrote at output index %d (its outputs are [0,%d), error: %v)", kind, what, i-pre, wrote, err)
			}
			if inside && v == -4242 {
				c.Fail("%s %s did not write output index %d of %d", kind, what, i-pre, wrote)
			}
		}
		switch {
		case short == "negative":
			c.Count("sizes below zero", 1)
		case short == "no pointers":
			c.Count("sparse matrices without row pointers", 1)
		case err == nil && n == 0:
			c.Count("zero rows", 1)
		case err == nil:
			c.Count("accepted calls", 1)
		case lin:
			c.Count("rejected: leaf view of a linear model", 1)
		case short == "predictions":
			c.Count("rejected: short predictions", 1)
		case short == "row":
			c.Count("rejected: short row", 1)
		case short == "columns":
			c.Count("rejected: few columns", 1)
		case short == "values":
			c.Count("rejected: short values", 1)
		case short == "sparse":
			c.Count("rejected: broken sparse matrix", 1)
		case short == "huge":
			c.Count("rejected: sizes that overflow", 1)
		case short == "estimators":
			c.Count("rejected: leaf view with fewer estimators", 1)
		}
		if call == 0 {
			c.Sample("%s %s -> error %v", kind, what, err)
		}
		c.Eval(hashStr(what)^uint64(c.Idx), true)
	}
}

// huges are matrices that counters of 16 to 24 bits do not hold.
var huges = []struct {
	kind        string
	rows, nfeat int
	groups      int
	csr         bool
	th          int
}{
	{"lgtext", 1<<24 + 1, 1, 1, false, 4}, {"xglin", 1<<24 + 1, 1, 1, true, 3},
	{"xgtree", 1<<20 + 33, 2, 1, false, 2}, {"sk", 1<<20 + 17, 2, 1, true, 8}, {"lgjson", 1<<19 + 1, 1, 3, true, 5}, {"xgdart", 1<<19 + 49, 3, 2, false, 3},
	{"lgtext", 40, 70000, 1, false, 4}, {"xglin", 33, 70000, 2, false, 3}, {"sk", 49, 70000, 1, true, 2},
	{"xgtree", 35, 3, 66000, false, 4}, {"lgjson", 33, 2, 66000, true, 2}, {"xglin", 50, 3, 66000, true, 4}, {"lgtext", 1<<16 + 17, 33, 33, false, 7},
}

// runHuge predicts one huge matrix in parallel. The rows repeat a few; what
// is expected of them comes from Predict.
func runHuge(c *C) {
	r := c.R
	h := huges[c.Idx]
	o := smallOpt()
	o.nfeat, o.groups, o.iters, o.leaves, o.exact = h.nfeat, h.groups, 1, 2, false
	z := makeZoo(c, h.kind, o, false)
	e := z.mustLoad(c, false)
	h.nfeat = z.nfeat
	ng := e.NOutputGroups()
	k := minI(61, h.rows)
	var base [][]float64
	var want []float64
	for i := 0; i < k; i++ {
		base = append(base, z.row(r))
		want = append(want, predictRow(c, e, base[i], 0, ng)...)
	}
	at := func(i int) int { return (i*7 + i/k) % k }
	old := runtime.GOMAXPROCS(0)
	defer runtime.GOMAXPROCS(old)
	runtime.GOMAXPROCS(8)
	out := make([]float64, h.rows*ng)
	for i := range out {
		out[i] = -4242
	}
	var err error
	if h.csr {
		ip, cols, vals := make([]int, 1, h.rows+1), []int{}, []float64{}
		if z.nfeat == 1 {
			cols, vals = make([]int, 0, h.rows), make([]float64, 0, h.rows)
		}
		for i := 0; i < h.rows; i++ {
			for j, v := range base[at(i)] {
				cols, vals = append(cols, j), append(vals, v)
			}
			ip = append(ip, len(cols))
		}
		err = e.PredictCSR(ip, cols, vals, out, 0, h.th)
	} else {
		vals := make([]float64, 0, h.rows*h.nfeat)
		for i := 0; i < h.rows; i++ {
			vals = append(vals, base[at(i)]...)
		}
		err = e.PredictDense(vals, h.rows, h.nfeat, out, 0, h.th)
	}
	if err != nil {
		c.Fail("%s: a matrix of %d rows and %d columns: %v", h.kind, h.rows, h.nfeat, err)
	}
	for i := 0; i < h.rows; i++ {
		a := at(i)
		for j := 0; j < ng; j++ {
			if !same(out[i*ng+j], want[a*ng+j]) {
				c.Dump("row", base[a])
				c.Fail("%s, matrix of %d rows and %d columns (CSR %v, threads %d): output %d of row %d is %v, Predict says %v (%s)", h.kind, h.rows, h.nfeat, h.csr, h.th, j, i, out[i*ng+j], want[a*ng+j], z.describe())
			}
		}
	}
	c.Count("huge matrices", 1)
	c.Sample("%d rows of %d columns, CSR %v, %d threads, %s", h.rows, h.nfeat, h.csr, h.th, z.describe())
	c.Eval(hashF(uint64(c.Idx), want), true)
}

func runLeafIdx(c *C) {
	r := c.R
	tk := []string{"lgtext", "lgrf", "lgjson", "xgtree", "xgdart", "sk"}
	kind := tk[c.Idx%len(tk)]
	o := smallOpt()
	if r.N(6) == 0 {
		o.maxLeaves = 400
	}
	if c.Idx < len(tk) {
		o.leaves, o.iters, o.groups, o.search = 70000, 2, 1, true
	} else if r.N(3) == 0 {
		o.dupLeaves = true
		c.Count("models with equal leaf values", 1)
	}
	z := makeZoo(c, kind, o, r.Bool())
	e := z.mustLoad(c, z.tr != "" && z.tr != "raw" && r.Bool())
	lv := e.EnsembleWithLeafPredictions()
	N, G := z.iters, z.groups
	if lv.NOutputGroups() != N*G {
		c.Fail("leaf view: NOutputGroups = %d, want %d groups x %d estimators", lv.NOutputGroups(), G, N)
	}
	nl := e.NLeaves()
	if len(nl) != N*G {
		c.Fail("NLeaves has %d entries, want %d", len(nl), N*G)
	}
	for est := 0; est < N; est++ {
		for g := 0; g < G; g++ {
			if w := len(z.m.Trees[est*G+g].Leaves); nl[g*N+est] != w {
				c.Fail("%s: NLeaves of group %d, estimator %d is %d, the tree has %d leaves", kind, g, est, nl[g*N+est], w)
			}
		}
	}
	c.Sample("%s", z.describe())
	fwd := make([]map[int]int, N*G)
	bwd := make([]map[int]int, N*G)
	for i := range fwd {
		fwd[i], bwd[i] = map[int]int{}, map[int]int{}
	}
	var rows [][]float64
	var all []float64
	ev := map[string]int{}
	n := 40
	if z.m.Search > 0 {
		n = 2000
		c.Count("models with more than 65536 leaves", 1)
	}
	for i := 0; i < n; i++ {
		row := z.row(r)
		rows = append(rows, row)
		ref := z.ref(row, 0, ev)
		got := predictRow(c, lv, row, r.Pick(0, -1, N, N+3), N*G)
		all = append(all, got...)
		for est := 0; est < N; est++ {
			for g := 0; g < G; g++ {
				t := est*G + g
				v := got[g*N+est]
				leaf := ref.Leaf[t]
				if v != math.Trunc(v) || v < 0 || v >= float64(len(z.m.Trees[t].Leaves)) {
					c.Dump("row", row)
					c.Fail("%s: leaf index %v of group %d, estimator %d is outside [0,%d)", kind, v, g, est, len(z.m.Trees[t].Leaves))
				}
				if z.leafIdx && int(v) != leaf {
					c.Dump("row", row)
					c.Fail("%s: leaf index of group %d, estimator %d is %v, the row falls into leaf %d", kind, g, est, v, leaf)
				}
				if p, ok := fwd[t][leaf]; ok && p != int(v) {
					c.Dump("row", row)
					c.Fail("%s: leaf %d of tree %d was reported as %d and as %d", kind, leaf, t, p, int(v))
				}
				if p, ok := bwd[t][int(v)]; ok && p != leaf {
					c.Dump("row", row)
					c.Fail("%s: leaf index %d of tree %d was reported for leaf %d and for leaf %d", kind, int(v), t, p, leaf)
				}
				fwd[t][leaf], bwd[t][int(v)] = int(v), leaf
				c.Count("index pairs", 1)
			}
		}
		// the raw prediction is the sum of the leaves selected
		raw := predictRow(c, e.EnsembleWithRawPredictions(), row, 0, G)
		for g := range raw {
			if !z.rawOK(raw[g], ref.Raw[g], ref.Abs) {
				c.Fail("%s: raw prediction %v, the leaves of the leaf view sum to %v", kind, raw[g], ref.Raw[g])
			}
		}
		c.Eval(mix(ref.Hash^uint64(c.Idx)<<30), true)
	}
	// matrix calls give the same indices
	th := r.Pick(1, 2, 4)
	out := make([]float64, len(all))
	if err := lv.PredictDense(flatten(rows, z.nfeat, r), len(rows), z.nfeat, out, 0, th); err != nil {
		c.Fail("leaf view: PredictDense: %v", err)
	}
	if i := sameSlice(out, all); i >= 0 {
		c.Fail("leaf view: PredictDense output %d is %v, Predict says %v", i, out[i], all[i])
	}
	indptr, cols, vals := z.toCSR(r, rows, 0.3, true, 0, false)
	for i := range out {
		out[i] = -1
	}
	if err := lv.PredictCSR(indptr, cols, vals, out, 0, th); err != nil {
		c.Fail("leaf view: PredictCSR: %v", err)
	}
	if i := sameSlice(out, all); i >= 0 {
		c.Fail("leaf view: PredictCSR output %d is %v, Predict says %v", i, out[i], all[i])
	}
	c.Count("matrix leaf calls", 2)
}

// truncated returns the model that consists of the first k iterations.
func (z *zoo) truncated(c *C, k int) []byte {
	r := newRng(uint64(c.Idx), uint64(k), 99)
	cut := func(m *Model) *Model {
		mm := *m
		mm.Trees = m.Trees[:k*m.Groups]
		return &mm
	}
	switch {
	case z.x != nil:
		x := *z.x
		x.Model = cut(z.x.Model)
		if x.Weights != nil {
			x.Weights = x.Weights[:k*x.Groups]
		}
		return x.emit(r)
	case z.s != nil:
		s := *z.s
		s.Model = cut(z.s.Model)
		return s.emit(r, skEmit{})
	case z.kind == "lgjson":
		return (&lgJSON{}).emit(cut(z.m))
	default:
		em := randLGText(r)
		switch z.tr {
		case "logistic":
			em.objective = "binary sigmoid:1"
		case "softmax":
			em.objective = fmt.Sprintf("multiclass num_class:%d", z.groups)
		case "exponential":
			em.objective = "gamma"
		default:
			em.objective = "regression"
		}
		return em.emit(cut(z.m))
	}
}

func runPrefix(c *C) {
	r := c.R
	kind := kinds[c.Idx%len(kinds)]
	if kind == "xglin" && r.N(3) != 0 {
		kind = "xgdart"
	}
	o := smallOpt()
	o.iters = r.Range(1, 12)
	if r.N(40) == 0 {
		o.iters, o.maxLeaves = r.Pick(40, 70, 130, 140, 260, 300, 600), 4
		if o.iters > 140 {
			o.groups = 1
		}
	}
	z := makeZoo(c, kind, o, r.Bool())
	useTr := z.tr != "" && z.tr != "raw"
	e := z.mustLoad(c, useTr)
	N := z.iters
	c.Sample("%s, %d iterations", z.describe(), N)
	ks := []int{-1, 0}
	if N <= 12 {
		for k := 1; k <= N; k++ {
			ks = append(ks, k)
		}
	} else {
		c.Count("models with many estimators", 1)
		for _, k := range []int{1, N - 1, N, r.Range(1, N), r.Range(1, N), r.Pick(16, 32, 64), r.Pick(127, 128, 129), r.Pick(255, 256, 257)} {
			if k <= N {
				ks = append(ks, k)
			}
		}
	}
	ks = append(ks, N+1, N+2)
	ks = append(ks, N*z.groups, 1<<30)
	// numbers no counter of 8, 16 or 32 bits can hold
	ks = append(ks, r.Pick(1<<8, 1<<16)+r.Range(1, N), 1<<32+r.Range(0, N), r.Pick(1<<31, 1<<31-1, 1<<31+1, 1<<32-1, 1<<62, math.MaxInt64))
	ks = append(ks, r.Pick(-1<<31, -1<<31-1, -1<<32, math.MinInt64), -(1<<r.Pick(8, 16, 32))+r.Range(1, N))
	rows := make([][]float64, r.Pick(8, 8, 20, 40))
	for i := range rows {
		rows[i] = z.row(r)
	}
	if len(rows) > 16 {
		c.Count("matrices of several batches", 1)
	}
	rawV := e.EnsembleWithRawPredictions()
	for _, k := range ks {
		eff := k
		if eff <= 0 || eff > N {
			eff = N
		}
		var te *leaves.Ensemble
		if z.l == nil && eff < N && r.N(2) == 0 {
			var err error
			tb := z.truncated(c, eff)
			te, err = z.load(tb, useTr)
			if err != nil {
				c.Fail("truncated %s model was rejected: %v", kind, err)
			}
			c.Count("truncated models loaded", 1)
		}
		dense := make([]float64, len(rows)*z.groups)
		csr := make([]float64, len(rows)*z.groups)
		th := r.Pick(0, 1, 2, 3, 8)
		if err := e.PredictDense(flatten(rows, z.nfeat, r), len(rows), z.nfeat, dense, k, th); err != nil {
			c.Fail("PredictDense with %d of %d estimators: %v", k, N, err)
		}
		indptr, cols, vals := z.toCSR(r, rows, 0.3, false, 0, false)
		if err := e.PredictCSR(indptr, cols, vals, csr, k, th); err != nil {
			c.Fail("PredictCSR with %d of %d estimators: %v", k, N, err)
		}
		for i, row := range rows {
			ev := map[string]int{}
			ref := z.ref(row, eff, ev)
			raw := predictRow(c, rawV, row, k, z.groups)
			got := predictRow(c, e, row, k, z.groups)
			for g := range raw {
				if !z.rawOK(raw[g], ref.Raw[g], ref.Abs) {
					c.Dump("row", row)
					c.Fail("%s: with nEstimators=%d of %d the raw prediction is %v, the first %d iterations give %v", kind, k, N, raw[g], eff, ref.Raw[g])
				}
			}
			if useTr {
				checkTransformed(c, fmt.Sprintf("%s nEstimators=%d", kind, k), z.tr, raw, got)
				c.Count("transformed prefixes", 1)
			} else if sameSlice(raw, got) >= 0 {
				c.Fail("%s: raw view %v, untransformed model %v", kind, raw, got)
			}
			for g := range got {
				if !same(dense[i*z.groups+g], got[g]) || !same(csr[i*z.groups+g], got[g]) {
					c.Fail("%s nEstimators=%d: Predict %v, PredictDense %v, PredictCSR %v", kind, k, got[g], dense[i*z.groups+g], csr[i*z.groups+g])
				}
			}
			if z.groups == 1 {
				if v := e.PredictSingle(row, k); !same(v, got[0]) {
					c.Fail("%s nEstimators=%d: Predict %v, PredictSingle %v", kind, k, got[0], v)
				}
			}
			if te != nil {
				tg := predictRow(c, te, row, 0, z.groups)
				for g := range got {
					if !same(tg[g], got[g]) && !closeTo(got[g], tg[g], ref.Abs) && !closeRel(got[g], tg[g]) {
						c.Dump("row", row)
						c.Fail("%s: nEstimators=%d of %d predicts %v, the model truncated to %d iterations %v", kind, k, N, got[g], eff, tg[g])
					}
				}
			}
			c.Eval(mix(ref.Hash^uint64(c.Idx)<<24^uint64(k+2)), eff < N)
		}
		switch {
		case k <= 0:
			c.Count("k <= 0", 1)
		case k > N:
			c.Count("k > N", 1)
		case k < N:
			c.Count("proper prefixes", 1)
		}
	}
}

func runMeta(c *C) {
	r := c.R
	kind := kinds[c.Idx%len(kinds)]
	o := smallOpt()
	o.maxLeaves = 5
	switch r.N(6) {
	case 0:
		o.nfeat = 1
	case 1:
		o.nfeat = r.Pick(2, 255, 256, 257, 65535, 65536, 65537)
	case 2:
		o.groups = r.Pick(1, 2, 3, 17, 40)
		if kind == "sk" && o.groups == 2 {
			o.groups = 3
		}
	case 3:
		o.iters = r.Pick(1, 2, 50)
	}
	z := makeZoo(c, kind, o, r.Bool())
	useTr := z.tr != "" && z.tr != "raw" && r.Bool()
	e := z.mustLoad(c, useTr)
	if z.nfeat == 1 {
		c.Count("single-feature models", 1)
	}
	tr := "raw"
	if useTr {
		tr = z.tr
	}
	type view struct {
		e  *leaves.Ensemble
		tr string
		n  int
		nm string
	}
	vs := []view{{e, tr, z.groups, "model"}, {e.EnsembleWithRawPredictions(), "raw", z.groups, "raw view"}}
	if z.l == nil {
		vs = append(vs, view{e.EnsembleWithLeafPredictions(), "leaf_index", z.groups * z.iters, "leaf view"},
			view{e.EnsembleWithLeafPredictions().EnsembleWithRawPredictions(), "raw", z.groups, "raw view of the leaf view"},
			view{e.EnsembleWithRawPredictions().EnsembleWithLeafPredictions(), "leaf_index", z.groups * z.iters, "leaf view of the raw view"})
	}
	for i := 0; i < 2; i++ {
		ve, nm, what := composeView(r, e, z.l == nil, r.Range(2, 3))
		if what == "leaf" {
			vs = append(vs, view{ve, "leaf_index", z.groups * z.iters, nm})
		} else {
			vs = append(vs, view{ve, "raw", z.groups, nm})
		}
	}
	c.Sample("%s transformation %s", z.describe(), tr)
	for _, v := range vs {
		c.Count("views", 1)
		ck := func(what string, got, want interface{}) {
			if got != want {
				c.Fail("%s, %s: %s is %v, want %v (%s)", kind, v.nm, what, got, want, z.describe())
			}
		}
		ck("Name", v.e.Name(), z.name)
		ck("NFeatures", v.e.NFeatures(), z.nfeat)
		ck("NEstimators", v.e.NEstimators(), z.iters)
		ck("NRawOutputGroups", v.e.NRawOutputGroups(), z.groups)
		ck("NOutputGroups", v.e.NOutputGroups(), v.n)
		ck("Transformation().Type()", v.e.Transformation().Type(), trType[v.tr])
		ck("Transformation().Name()", v.e.Transformation().Name(), v.tr)
		ck("Transformation().NOutputGroups()", v.e.Transformation().NOutputGroups(), v.n)
		nl := v.e.NLeaves()
		if z.l != nil {
			ck("len(NLeaves)", len(nl), 0)
		} else {
			ck("len(NLeaves)", len(nl), z.groups*z.iters)
			for i := range nl {
				g, est := i/z.iters, i%z.iters
				ck(fmt.Sprintf("NLeaves of group %d, estimator %d", g, est), nl[i], len(z.m.Trees[est*z.groups+g].Leaves))
			}
			// what was handed out belongs to the caller
			was := append([]int(nil), nl...)
			for i := range nl {
				nl[i] = r.Pick(-7, 0, 1000000)
			}
			_ = append(nl[:len(nl)/2], -5)
			for _, w := range vs {
				again := w.e.NLeaves()
				ck("len(NLeaves) of the "+w.nm+" after its result was overwritten", len(again), len(was))
				for i := range again {
					ck(fmt.Sprintf("(after the result was overwritten) NLeaves[%d] of the %s", i, w.nm), again[i], was[i])
				}
			}
			c.Count("NLeaves results overwritten", 1)
		}
		// the reported width and output size are sufficient, and one less is not
		out := make([]float64, v.e.NOutputGroups())
		row := make([]float64, v.e.NFeatures())
		var err error
		if msg, p := c.Try(func() { err = v.e.Predict(row, 0, out) }); p || err != nil {
			c.Fail("%s, %s: a row of NFeatures() values with NOutputGroups() outputs is not accepted: %v %s", kind, v.nm, err, msg)
		}
		if err := v.e.Predict(row[:len(row)-1], 0, out); err == nil {
			c.Fail("%s, %s: a row of NFeatures()-1 values was accepted", kind, v.nm)
		}
		if err := v.e.Predict(row, 0, out[:len(out)-1]); err == nil {
			c.Fail("%s, %s: NOutputGroups()-1 outputs were accepted", kind, v.nm)
		}
	}
	c.Eval(hashStr(fmt.Sprintf("%s %d %d %d %s %v", kind, z.nfeat, z.groups, z.iters, tr, e.NLeaves())), true)
}
