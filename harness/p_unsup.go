package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"
)

// A refusal is a change that takes a supported model out of what the library
// documents as supported; make returns nil when it does not apply to the model.
type refusal struct {
	name string
	make func(c *C, z *zoo) []byte
	tr   int // 0 without transformation, 1 with, 2 either
}

func subst(re, with string) func(c *C, z *zoo) []byte {
	x := regexp.MustCompile("(?m)" + re)
	return func(c *C, z *zoo) []byte {
		loc := x.FindAllIndex(z.bytes, -1)
		if len(loc) == 0 {
			return nil
		}
		p := loc[c.R.N(len(loc))]
		rep := x.ReplaceAll(z.bytes[p[0]:p[1]], []byte(with))
		out := append(cutCopy(z.bytes[:p[0]]), rep...)
		return append(out, z.bytes[p[1]:]...)
	}
}

// substAll replaces every match.
func substAll(re, with string) func(c *C, z *zoo) []byte {
	x := regexp.MustCompile("(?m)" + re)
	return func(c *C, z *zoo) []byte {
		out := x.ReplaceAll(z.bytes, []byte(with))
		if bytes.Equal(out, z.bytes) {
			return nil
		}
		return out
	}
}

// substPrev replaces the module (what mod matches, with the opcode) of the
// classes of a pickle whose name matches name.
func substPrev(mod, name, with string) func(c *C, z *zoo) []byte {
	x := regexp.MustCompile("(?m)" + mod + "\n(" + strings.TrimPrefix(name, "^") + ")")
	return func(c *C, z *zoo) []byte {
		n := 0
		out := x.ReplaceAllFunc(z.bytes, func(b []byte) []byte {
			n++
			return append([]byte(with), b[bytes.IndexByte(b, '\n'):]...)
		})
		if n == 0 {
			return nil
		}
		return out
	}
}

// lineVal edits the value of one key=value line of the text format.
func lineVal(key string, f func(r *Rng, v string) (string, bool)) func(c *C, z *zoo) []byte {
	return func(c *C, z *zoo) []byte {
		lines := strings.Split(string(z.bytes), "\n")
		var at []int
		for i, l := range lines {
			if strings.HasPrefix(l, key+"=") {
				at = append(at, i)
			}
		}
		for t := 0; t < 20 && len(at) > 0; t++ {
			i := at[c.R.N(len(at))]
			l := strings.TrimRight(lines[i], "\r")
			if v, ok := f(c.R, l[len(key)+1:]); ok {
				if v == "\x00" {
					lines = append(lines[:i], lines[i+1:]...)
				} else {
					lines[i] = key + "=" + v
				}
				return []byte(strings.Join(lines, "\n"))
			}
		}
		return nil
	}
}

func drop(r *Rng, v string) (string, bool) { return "\x00", true }

func addInt(ds ...int) func(r *Rng, v string) (string, bool) {
	return func(r *Rng, v string) (string, bool) {
		n, err := strconv.Atoi(v)
		if err != nil {
			return "", false
		}
		return strconv.Itoa(n + ds[r.N(len(ds))]), true
	}
}

func oneToken(f func(r *Rng, t string) (string, bool)) func(r *Rng, v string) (string, bool) {
	return func(r *Rng, v string) (string, bool) {
		toks := strings.Split(v, " ")
		if v == "" {
			return "", false
		}
		i := r.N(len(toks))
		t, ok := f(r, toks[i])
		if !ok {
			return "", false
		}
		toks[i] = t
		return strings.Join(toks, " "), true
	}
}

// xgSet overwrites a 32-bit field chosen by name.
func xgSet(name string, f func(r *Rng, z *zoo, cur uint32) (uint32, bool)) func(c *C, z *zoo) []byte {
	return func(c *C, z *zoo) []byte {
		var at []xgField
		for _, g := range xgFields(z) {
			if g.name == name {
				at = append(at, g)
			}
		}
		if len(at) == 0 {
			return nil
		}
		b := cutCopy(z.bytes)
		for t := 0; t < 20; t++ {
			g := at[c.R.N(len(at))]
			if v, ok := f(c.R, z, binary.LittleEndian.Uint32(b[g.off:])); ok {
				binary.LittleEndian.PutUint32(b[g.off:], v)
				return b
			}
		}
		return nil
	}
}

func xgRename(kind int, names ...string) func(c *C, z *zoo) []byte {
	return func(c *C, z *zoo) []byte {
		var o int
		for _, g := range xgFields(z) {
			if (kind == 0 && g.name == "len(obj)") || (kind == 1 && g.name == "len(gbm)") {
				o = g.off
			}
		}
		n := int(binary.LittleEndian.Uint64(z.bytes[o:]))
		old := string(z.bytes[o+8 : o+8+n])
		name := names[c.R.N(len(names))]
		if name == old {
			return nil
		}
		var b bytes.Buffer
		b.Write(z.bytes[:o])
		xgString(&b, name)
		b.Write(z.bytes[o+8+n:])
		return b.Bytes()
	}
}

func xgCut(name string, f func(c *C, z *zoo, b []byte, off int) []byte) func(c *C, z *zoo) []byte {
	return func(c *C, z *zoo) []byte {
		for _, g := range xgFields(z) {
			if g.name == name {
				return f(c, z, cutCopy(z.bytes), g.off)
			}
		}
		return nil
	}
}

var refLG = []refusal{
	{"version not v2 or v3", lineVal("version", func(r *Rng, v string) (string, bool) {
		return r.PickS("v1", "v4", "v5", "", "2", "v22", "V2", "v2.0"), true
	}), 2},
	{"num_class differs from num_tree_per_iteration", lineVal("num_tree_per_iteration", addInt(1, -1, 2)), 2},
	{"num_class differs", lineVal("num_class", addInt(1, -1, 3)), 2},
	{"no classes", func(c *C, z *zoo) []byte {
		v := c.R.PickS("0", "-1", "-3")
		b := regexp.MustCompile(`(?m)^num_class=.*$`).ReplaceAll(z.bytes, []byte("num_class="+v))
		return regexp.MustCompile(`(?m)^num_tree_per_iteration=.*$`).ReplaceAll(b, []byte("num_tree_per_iteration="+v))
	}, 0},
	{"number of trees is not a multiple of the number of classes", func(c *C, z *zoo) []byte {
		k := z.groups + 1 + c.R.N(3)
		for len(z.m.Trees)%k == 0 {
			k++
		}
		b := regexp.MustCompile(`(?m)^num_class=.*$`).ReplaceAll(z.bytes, []byte(fmt.Sprintf("num_class=%d", k)))
		return regexp.MustCompile(`(?m)^num_tree_per_iteration=.*$`).ReplaceAll(b, []byte(fmt.Sprintf("num_tree_per_iteration=%d", k)))
	}, 0},
	{"tree_sizes announces more trees than there are", lineVal("tree_sizes", func(r *Rng, v string) (string, bool) { return v + strings.Repeat(" 100", r.Range(1, 3)*60), true }), 0},
	{"no version", lineVal("version", drop), 2},
	{"no num_class", lineVal("num_class", drop), 2},
	{"no num_tree_per_iteration", lineVal("num_tree_per_iteration", drop), 2},
	{"no max_feature_idx", lineVal("max_feature_idx", drop), 2},
	{"max_feature_idx below a used feature", func(c *C, z *zoo) []byte {
		mx := -1
		for _, t := range z.m.Trees {
			for _, n := range t.Nodes {
				if n.Feat > mx {
					mx = n.Feat
				}
			}
		}
		if mx < 0 {
			return nil
		}
		return regexp.MustCompile(`(?m)^max_feature_idx=[0-9]*`).ReplaceAll(z.bytes, []byte(fmt.Sprintf("max_feature_idx=%d", c.R.N(mx+1)-1)))
	}, 0},
	{"no tree_sizes", lineVal("tree_sizes", drop), 2},
	{"no num_leaves", lineVal("num_leaves", drop), 0},
	{"no num_cat", lineVal("num_cat", drop), 0},
	{"no leaf_value", lineVal("leaf_value", drop), 0},
	{"linear tree", func(c *C, z *zoo) []byte {
		if b := substAll(`^is_linear=0`, "is_linear=1")(c, z); b != nil {
			return b
		}
		return subst(`^shrinkage=.*$`, "is_linear=1\nleaf_const=1\n$0")(c, z)
	}, 2},
	{"missing type 3", lineVal("decision_type", oneToken(func(r *Rng, t string) (string, bool) {
		n, err := strconv.Atoi(t)
		return strconv.Itoa(n | 12), err == nil
	})), 2},
	{"unknown objective", lineVal("objective", func(r *Rng, v string) (string, bool) {
		return r.PickS("lambdarank", "xentropy", "xentlambda", "multiclassova num_class:3 sigmoid:1", "rank_xendcg", "custom", "", "cross_entropy", "binary", "multiclass", "binary sigmoid:2", "binary sigmoid:0.5", "multiclass num_class:99", "softmax num_class:3", "regression sqrt", "mape"), true
	}), 1},
	{"no objective", func(c *C, z *zoo) []byte {
		if z.kind == "lgrf" {
			return nil
		}
		return lineVal("objective", drop)(c, z)
	}, 1},
	{"no field of a split", func(c *C, z *zoo) []byte {
		if z.m.Nodes() == 0 {
			return nil
		}
		key := c.R.PickS("left_child", "right_child", "decision_type", "split_feature", "threshold")
		// only trees with splits need the field
		return lineVal(key, func(r *Rng, v string) (string, bool) { return "\x00", v != "" })(c, z)
	}, 0},
	{"no bit set of a categorical split", func(c *C, z *zoo) []byte {
		return lineVal(c.R.PickS("cat_boundaries", "cat_threshold"), drop)(c, z)
	}, 0},
	{"empty bit set of a categorical split", func(c *C, z *zoo) []byte {
		return lineVal("cat_threshold", func(r *Rng, v string) (string, bool) {
			return strings.TrimSpace(strings.Repeat("0 ", len(strings.Fields(v)))), true
		})(c, z)
	}, 0},
}

var refJSON = []refusal{
	{"another document", subst(`"name":\s*"tree"`, `"name":"forest"`), 0},
	{"another version", func(c *C, z *zoo) []byte {
		return subst(`"version":\s*"v2"`, `"version":"`+c.R.PickS("v1", "v4", "", "2")+`"`)(c, z)
	}, 0},
	{"transformation requested", func(c *C, z *zoo) []byte { return z.bytes }, 1},
	{"num_class differs from num_tree_per_iteration", subst(`"num_class":\s*(\d+)`, `"num_class":${1}1`), 0},
	{"no classes", func(c *C, z *zoo) []byte {
		b := regexp.MustCompile(`"num_class":\s*\d+`).ReplaceAll(z.bytes, []byte(`"num_class":0`))
		return regexp.MustCompile(`"num_tree_per_iteration":\s*\d+`).ReplaceAll(b, []byte(`"num_tree_per_iteration":0`))
	}, 0},
	{"number of trees is not a multiple of the number of classes", func(c *C, z *zoo) []byte {
		k := z.groups + 1
		for len(z.m.Trees)%k == 0 {
			k++
		}
		b := regexp.MustCompile(`"num_class":\s*\d+`).ReplaceAll(z.bytes, []byte(fmt.Sprintf(`"num_class":%d`, k)))
		return regexp.MustCompile(`"num_tree_per_iteration":\s*\d+`).ReplaceAll(b, []byte(fmt.Sprintf(`"num_tree_per_iteration":%d`, k)))
	}, 0},
	{"no trees", subst(`"tree_info":`, `"tree_info":[],"x":`), 0},
	{"no tree_info", subst(`"tree_info":`, `"x":`), 0},
	{"no version", subst(`"version":`, `"x":`), 0},
	{"no name", subst(`"name":`, `"x":`), 0},
	{"unknown missing_type", func(c *C, z *zoo) []byte {
		return subst(`"missing_type":\s*"\w+"`, `"missing_type":"`+c.R.PickS("Inf", "none", "nan", "Both")+`"`)(c, z)
	}, 0},
	{"unknown decision_type", func(c *C, z *zoo) []byte {
		return subst(`"decision_type":\s*"[<=]+"`, `"decision_type":"`+c.R.PickS("<", ">", ">=", "is", "in", "")+`"`)(c, z)
	}, 0},
	{"decision_type does not fit the threshold", func(c *C, z *zoo) []byte {
		if c.R.Bool() {
			return subst(`"decision_type":\s*"=="`, `"decision_type":"<="`)(c, z)
		}
		return subst(`"decision_type":\s*"<="`, `"decision_type":"=="`)(c, z)
	}, 0},
	{"leaf without a value", subst(`"leaf_value":`, `"x":`), 0},
	{"leaf value is not a number", func(c *C, z *zoo) []byte {
		return subst(`"leaf_value":\s*[-+0-9.eE]+`, `"leaf_value":`+c.R.PickS("null", `"1"`, "[]", "true"))(c, z)
	}, 0},
	{"categories are not integers", func(c *C, z *zoo) []byte {
		return subst(`"threshold":\s*"[0-9|]+"`, `"threshold":"`+c.R.PickS("a", "1||", "1.5", "-1", "1|2", "", "1||x")+`"`)(c, z)
	}, 0},
	{"used feature above max_feature_idx", subst(`"split_feature":\s*(\d+)`, `"split_feature":9${1}99`), 0},
	{"not JSON", func(c *C, z *zoo) []byte { return append([]byte("tree\n"), z.bytes...) }, 0},
}

var refXG = []refusal{
	{"another booster", xgRename(1, "gblinear", "gbtree2", "", "GBTree", "gbtre", "dart ", "lightgbm"), 2},
	{"no features", xgSet("num_features", func(r *Rng, z *zoo, cur uint32) (uint32, bool) { return 0, true }), 2},
	{"more than one root (model)", xgSet("num_roots", func(r *Rng, z *zoo, cur uint32) (uint32, bool) {
		return uint32(r.Pick(0, 2, 3, -1)), true
	}), 2},
	{"more than one root (tree)", xgSet("tree num_roots", func(r *Rng, z *zoo, cur uint32) (uint32, bool) {
		return uint32(r.Pick(0, 2, 3, -1)), true
	}), 2},
	{"trees are not in the order of the groups", xgSet("tree_info", func(r *Rng, z *zoo, cur uint32) (uint32, bool) {
		v := uint32(r.Pick(0, 1, 2, 7, -1))
		return v, v != cur
	}), 2},
	{"more features in the booster than in the header", xgSet("num_feature", func(r *Rng, z *zoo, cur uint32) (uint32, bool) {
		return uint32(z.nfeat + r.Range(1, 5)), true
	}), 2},
	{"more features in a tree than in the header", xgSet("tree num_feature", func(r *Rng, z *zoo, cur uint32) (uint32, bool) {
		return uint32(z.nfeat + r.Range(1, 5)), true
	}), 2},
	{"fewer features in the header than a tree uses", xgSet("num_features", func(r *Rng, z *zoo, cur uint32) (uint32, bool) {
		mx := 0
		for _, t := range z.m.Trees {
			for _, n := range t.Nodes {
				if n.Feat > mx {
					mx = n.Feat
				}
			}
		}
		if mx == 0 {
			return 0, false
		}
		return uint32(r.Range(1, mx)), true
	}), 2},
	{"no trees", xgCut("num_trees", func(c *C, z *zoo, b []byte, off int) []byte {
		binary.LittleEndian.PutUint32(b[off:], 0)
		b = b[:off+160]
		if z.x.Dart {
			b = append(b, make([]byte, 8)...)
		}
		return b
	}), 2},
	{"number of trees is not a multiple of the groups", xgSet("num_output_group", func(r *Rng, z *zoo, cur uint32) (uint32, bool) {
		k := len(z.m.Trees) + 1 + r.N(3)
		return uint32(k), true
	}), 0},
	{"no groups", xgSet("num_output_group", func(r *Rng, z *zoo, cur uint32) (uint32, bool) {
		return uint32(r.Pick(0, -1, math.MinInt32)), true
	}), 2},
	{"number of dart weights differs", xgCut("len(weight_drop)", func(c *C, z *zoo, b []byte, off int) []byte {
		n := len(z.x.Trees)
		if c.R.Bool() {
			binary.LittleEndian.PutUint64(b[off:], uint64(n+1))
			return append(b[:off+8+4*n], 0, 0, 0x80, 0x3f)
		}
		binary.LittleEndian.PutUint64(b[off:], uint64(n-1))
		return b[:off+8+4*(n-1)]
	}), 2},
	{"unknown objective", xgRename(0, "reg:logistic", "multi:softmax", "multi:softprob", "rank:pairwise", "count:poisson", "reg:gamma", "binary:logitraw", "reg:linear", "", "binary:logistic "), 1},
	{"logistic objective with several groups", func(c *C, z *zoo) []byte {
		if z.groups == 1 {
			return nil
		}
		return xgRename(0, "binary:logistic")(c, z)
	}, 1},
	{"tree without nodes", xgSet("tree num_nodes", func(r *Rng, z *zoo, cur uint32) (uint32, bool) {
		return uint32(r.Pick(0, -1, math.MinInt32)), true
	}), 2},
}

var refLin = []refusal{
	{"another booster", xgRename(1, "gbtree", "dart", "", "gblinear2", "GBLinear"), 2},
	{"no features", xgSet("num_features", func(r *Rng, z *zoo, cur uint32) (uint32, bool) { return 0, true }), 2},
	{"no groups", xgSet("lin groups", func(r *Rng, z *zoo, cur uint32) (uint32, bool) {
		return uint32(r.Pick(0, -1)), true
	}), 2},
	{"number of weights differs (features)", xgSet("lin num_feature", func(r *Rng, z *zoo, cur uint32) (uint32, bool) {
		return cur + uint32(r.Pick(1, 2, -1)), true
	}), 2},
	{"number of weights differs (groups)", xgSet("lin groups", func(r *Rng, z *zoo, cur uint32) (uint32, bool) {
		return cur + uint32(r.Range(1, 4)), true
	}), 2},
	{"number of weights differs", xgCut("lin len(weights)", func(c *C, z *zoo, b []byte, off int) []byte {
		n := len(z.l.W)
		if c.R.Bool() {
			binary.LittleEndian.PutUint64(b[off:], uint64(n-1))
			return b[:off+8+4*(n-1)]
		}
		binary.LittleEndian.PutUint64(b[off:], uint64(n+1))
		return append(b[:off+8+4*n], 0, 0, 0x80, 0x3f)
	}), 2},
	{"unknown objective", xgRename(0, "reg:logistic", "multi:softprob", "count:poisson", "reg:gamma", "binary:logitraw", "reg:linear", ""), 1},
	{"logistic objective with several groups", func(c *C, z *zoo) []byte {
		if z.groups == 1 {
			return nil
		}
		return xgRename(0, "binary:logistic")(c, z)
	}, 1},
}

func skWith(f func(e *skEmit, s *skModel)) func(c *C, z *zoo) []byte {
	return func(c *C, z *zoo) []byte {
		e := randSKEmit(c.R)
		s := *z.s
		f(&e, &s)
		return s.emit(c.R, e)
	}
}

var refSK = []refusal{
	{"regressor", substAll(`^GradientBoostingClassifier$`, "GradientBoostingRegressor"), 2},
	{"another class", func(c *C, z *zoo) []byte {
		return substAll(`^GradientBoostingClassifier$`, c.R.PickS("RandomForestClassifier", "AdaBoostClassifier", "BaggingClassifier", "VotingClassifier"))(c, z)
	}, 2},
	{"another module", substAll(`csklearn.ensemble.gradient_boosting$`, "csklearn.ensemble._gb"), 2},
	{"another base estimator", func(c *C, z *zoo) []byte {
		return substAll(`^DecisionTreeRegressor$`, c.R.PickS("ExtraTreeRegressor", "DecisionTreeClassifier", "ExtraTreeClassifier", "decisiontreeregressor", "DecisionTreeRegressor2"))(c, z)
	}, 2},
	{"base estimator of another module", func(c *C, z *zoo) []byte {
		return substPrev(`csklearn\.tree\.tree$`, `^DecisionTreeRegressor$`, c.R.PickS("cmypackage.tree", "csklearn.tree", "csklearn.tree._classes", "csklearn.ensemble.forest", "c"))(c, z)
	}, 2},
	{"initial estimator of another module", func(c *C, z *zoo) []byte {
		return substPrev(`csklearn\.ensemble\.gradient_boosting$`, `^(LogOddsEstimator|PriorProbabilityEstimator)$`, c.R.PickS("cmypackage.estimators", "csklearn.dummy", "csklearn.ensemble._gb_losses", "csklearn.ensemble", "c"))(c, z)
	}, 2},
	{"tree data of another class", func(c *C, z *zoo) []byte {
		if c.R.Bool() {
			return substPrev(`csklearn\.tree\._tree$`, `^Tree$`, c.R.PickS("cmypackage._tree", "csklearn.tree.tree", "c"))(c, z)
		}
		return substAll(`^Tree$`, c.R.PickS("BinaryTree", "tree", "KDTree"))(c, z)
	}, 2},
	{"arrays of another class", func(c *C, z *zoo) []byte {
		return substAll(`^_reconstruct$`, c.R.PickS("_reconstruct2", "fromstring", "frombuffer"))(c, z)
	}, 2},
	{"unknown initial estimator", func(c *C, z *zoo) []byte {
		return substAll(`^(LogOddsEstimator|PriorProbabilityEstimator)$`, c.R.PickS("ScaledLogOddsEstimator", "MeanEstimator", "ZeroEstimator", "QuantileEstimator", "DummyClassifier"))(c, z)
	}, 2},
	{"single precision arrays", substAll(`Vf8$`, "Vf4"), 2},
	{"32-bit integers", substAll(`Vi8$`, "Vi4"), 2},
	{"another node layout", substAll(`VV56$`, "VV64"), 2},
	{"number of estimators differs", func(c *C, z *zoo) []byte {
		return skWith(func(e *skEmit, s *skModel) {
			e.nEst = s.Iters() + c.R.Pick(-1, 1, 5)
			if e.nEst == 0 {
				e.nEst = 2
			}
		})(c, z)
	}, 2},
	{"number of fitted estimators differs", func(c *C, z *zoo) []byte {
		return skWith(func(e *skEmit, s *skModel) {
			e.fitted = s.Iters() + c.R.Pick(-1, 1, 5)
			if e.fitted == 0 {
				e.fitted = 2
			}
			e.nEst = c.R.Pick(0, e.fitted, e.fitted+3)
		})(c, z)
	}, 2},
	{"no estimators", skWith(func(e *skEmit, s *skModel) { e.nEst = -1 }), 2},
	{"number of classes differs", func(c *C, z *zoo) []byte {
		return skWith(func(e *skEmit, s *skModel) { s.NClasses += c.R.Pick(1, 2) })(c, z)
	}, 2},
	{"Fortran order", skWith(func(e *skEmit, s *skModel) { e.fortran = true }), 2},
	{"table of estimators in Fortran order", func(c *C, z *zoo) []byte {
		if z.groups < 2 || z.iters < 2 {
			return nil
		}
		return skWith(func(e *skEmit, s *skModel) { e.fortran2 = true })(c, z)
	}, 2},
	{"table of estimators has another shape", func(c *C, z *zoo) []byte {
		n, k := z.iters, z.groups
		var list [][]int
		if k > 1 {
			list = append(list, []int{n * k, 1})
			if n != k {
				list = append(list, []int{k, n})
			}
		}
		if n > 1 {
			list = append(list, []int{1, n * k})
		}
		list = append(list, []int{n * k}, []int{n, k, 1})
		shape := list[c.R.N(len(list))]
		return skWith(func(e *skEmit, s *skModel) { e.estShape = shape })(c, z)
	}, 2},
	{"big-endian class labels", skWith(func(e *skEmit, s *skModel) { e.bigInts = true }), 2},
	{"protocol 2", func(c *C, z *zoo) []byte { return append([]byte("\x80\x02"), z.bytes...) }, 2},
	{"missing attribute", func(c *C, z *zoo) []byte {
		return substAll(`V`+c.R.PickS("n_estimators", "learning_rate", "n_classes_", "classes_", "init_", "estimators_", "tree_", "nodes", "values", "node_count")+`$`, "Vsomething_else")(c, z)
	}, 2},
	{"used feature above n_features_", skWith(func(e *skEmit, s *skModel) {
		m := *s.Model
		s.Model = &m
		mx := 0
		for _, t := range m.Trees {
			for _, n := range t.Nodes {
				if n.Feat > mx {
					mx = n.Feat
				}
			}
		}
		s.NFeat = mx
		if mx == 0 {
			s.NFeat = 0
		}
	}), 2},
}

// lgNumber replaces one number of a field of a split by one that makes no
// sense; f gets the number of leaves of the tree and of features of the model.
func lgNumber(f func(r *Rng, leaves, nfeat, at int, cur int64) (string, bool), keys ...string) func(c *C, z *zoo) []byte {
	return func(c *C, z *zoo) []byte {
		lines := strings.Split(string(z.bytes), "\n")
		key := keys[c.R.N(len(keys))]
		nl := 0
		var at, leaves []int
		for i, l := range lines {
			l = strings.TrimRight(l, "\r")
			if strings.HasPrefix(l, "num_leaves=") {
				nl, _ = strconv.Atoi(l[11:])
			}
			if strings.HasPrefix(l, key+"=") && nl > 1 {
				at, leaves = append(at, i), append(leaves, nl)
			}
		}
		if len(at) == 0 {
			return nil
		}
		k := c.R.N(len(at))
		l := lines[at[k]]
		end := ""
		if strings.HasSuffix(l, "\r") {
			l, end = l[:len(l)-1], "\r"
		}
		toks := strings.Split(l[len(key)+1:], " ")
		i := c.R.N(len(toks))
		cur, err := strconv.ParseInt(toks[i], 10, 64)
		if err != nil {
			return nil
		}
		v, ok := f(c.R, leaves[k], z.nfeat, i, cur)
		if !ok || v == toks[i] {
			return nil
		}
		toks[i] = v
		lines[at[k]] = key + "=" + strings.Join(toks, " ") + end
		return []byte(strings.Join(lines, "\n"))
	}
}

func itoa(v int64) string { return strconv.FormatInt(v, 10) }

func pickI64(r *Rng, vs ...int64) int64 { return vs[r.N(len(vs))] }

// xgNode edits a field of an inner node that rows can reach.
func xgNode(field int, f func(r *Rng, z *zoo, nn, at int, cur int32) (int32, bool)) func(c *C, z *zoo) []byte {
	return func(c *C, z *zoo) []byte {
		type nd struct{ off, nn, at int }
		var list []nd
		b := cutCopy(z.bytes)
		nn := 0
		i32 := func(o int) int32 { return int32(binary.LittleEndian.Uint32(b[o:])) }
		for _, g := range xgFields(z) {
			if g.name == "tree num_nodes" {
				nn = int(i32(g.off))
				base := g.off - 4 + 148
				todo := []int{0}
				for len(todo) > 0 {
					k := todo[0]
					todo = todo[1:]
					if l := i32(base + 20*k + 4); nn > 1 && l != -1 {
						list = append(list, nd{base + 20*k, nn, k})
						todo = append(todo, int(l), int(i32(base+20*k+8)))
					}
				}
			}
		}
		if len(list) == 0 {
			return nil
		}
		n := list[c.R.N(len(list))]
		o := n.off + 4*field
		v, ok := f(c.R, z, n.nn, n.at, i32(o))
		if !ok {
			return nil
		}
		binary.LittleEndian.PutUint32(b[o:], uint32(v))
		return b
	}
}

// skNode edits an inner node of one of the trees.
func skNode(f func(r *Rng, z *zoo, at, total int, l, rt, f uint64) (uint64, uint64, uint64)) func(c *C, z *zoo) []byte {
	return func(c *C, z *zoo) []byte {
		var with []int
		for i, t := range z.m.Trees {
			if len(t.Nodes) > 0 {
				with = append(with, i)
			}
		}
		if len(with) == 0 {
			return nil
		}
		ti := with[c.R.N(len(with))]
		nd := c.R.N(len(z.m.Trees[ti].Nodes))
		return skWith(func(e *skEmit, s *skModel) {
			e.node = func(tree, id, pos, total int, l, rt, ft uint64) (uint64, uint64, uint64) {
				if tree != ti || id != nd {
					return l, rt, ft
				}
				return f(c.R, z, pos, total, l, rt, ft)
			}
		})(c, z)
	}
}

func init() {
	child := func(r *Rng, leaves, nfeat, at int, cur int64) (string, bool) {
		return itoa(pickI64(r, int64(leaves-1), int64(leaves), int64(leaves+100), math.MaxInt32, -int64(leaves)-1, -int64(leaves)-2, math.MinInt32, 1<<31, 1<<32+cur, -1<<32+cur, 1<<16+cur, 1<<63-1)), true
	}
	refLG = append(refLG,
		refusal{"child that does not exist", lgNumber(child, "left_child", "right_child"), 2},
		refusal{"node that is its own descendant", lgNumber(func(r *Rng, leaves, nfeat, at int, cur int64) (string, bool) {
			return itoa(pickI64(r, 0, int64(at))), true
		}, "left_child", "right_child"), 2},
		refusal{"split on a feature that does not exist", lgNumber(func(r *Rng, leaves, nfeat, at int, cur int64) (string, bool) {
			return itoa(pickI64(r, int64(nfeat), int64(nfeat)+1, 1<<16+int64(nfeat), math.MaxInt32, 1<<31, 1<<32+cur, 1<<40+cur, -1, -2, math.MinInt32, 1<<32)), true
		}, "split_feature"), 2},
		refusal{"field of the splits too short", lineVal2([]string{"left_child", "right_child", "split_feature", "threshold", "decision_type", "leaf_value"}, func(r *Rng, v string) (string, bool) {
			k := strings.LastIndex(v, " ")
			if k < 0 {
				return "", false
			}
			return v[:k], true
		}), 2},
		refusal{"max_feature_idx below -1", func(c *C, z *zoo) []byte {
			return regexp.MustCompile(`(?m)^max_feature_idx=[0-9]*`).ReplaceAll(z.bytes, []byte("max_feature_idx="+c.R.PickS("-2", "-3", "-100", "-2147483648", "2147483647", "2147483648", "4294967296")))
		}, 2},
		refusal{"category sets that do not exist", lineVal("cat_boundaries", oneToken(func(r *Rng, t string) (string, bool) {
			if t == "0" {
				return "", false
			}
			return r.PickS("1000000", "2147483647", "-1", "4294967296"), true
		})), 2},
	)
	refJSON = append(refJSON,
		refusal{"split on a feature that does not exist", func(c *C, z *zoo) []byte {
			return subst(`"split_feature":\s*(\d+)`, `"split_feature":`+c.R.PickS("-1", "-2", "4294967296", "4294967297", "1.5", `"0"`, "null.", itoa(int64(z.nfeat)), itoa(int64(z.nfeat)+65536), itoa(int64(z.nfeat)+1<<32)))(c, z)
		}, 0},
		refusal{"split without a child", func(c *C, z *zoo) []byte {
			return subst(`"`+c.R.PickS("left", "right")+`_child":`, `"x":`)(c, z)
		}, 0},
		refusal{"child that is no node", func(c *C, z *zoo) []byte {
			return subst(`"left_child":`, `"left_child":`+c.R.PickS("null", "3", "[]", `"x"`, "true")+`,"y":`)(c, z)
		}, 0},
		refusal{"max_feature_idx below -1", func(c *C, z *zoo) []byte {
			return subst(`"max_feature_idx":\s*-?\d+`, `"max_feature_idx":`+c.R.PickS("-2", "-3", "-100", "-2147483648", "2147483647", "2147483648", "4294967296", "1.5"))(c, z)
		}, 0},
	)
	xgChild := func(r *Rng, z *zoo, nn, at int, cur int32) (int32, bool) {
		return int32(pickI64(r, int64(nn), int64(nn)+1, int64(nn)+1000, math.MaxInt32, -2, -3, math.MinInt32, int64(cur)+1<<16)), true
	}
	xgLoop := func(r *Rng, z *zoo, nn, at int, cur int32) (int32, bool) {
		return int32(r.Pick(0, at)), true
	}
	refXG = append(refXG,
		refusal{"left child that does not exist", xgNode(1, xgChild), 2},
		refusal{"right child that does not exist", xgNode(2, xgChild), 2},
		refusal{"inner node without a right child", xgNode(2, func(r *Rng, z *zoo, nn, at int, cur int32) (int32, bool) { return -1, true }), 2},
		refusal{"left child is an ancestor", xgNode(1, xgLoop), 2},
		refusal{"right child is an ancestor", xgNode(2, xgLoop), 2},
		refusal{"split on a feature that does not exist", xgNode(3, func(r *Rng, z *zoo, nn, at int, cur int32) (int32, bool) {
			f := pickI64(r, int64(z.nfeat), int64(z.nfeat)+1, 1<<16+int64(z.nfeat), math.MaxInt32, 1<<30)
			return int32(uint32(cur)&(1<<31) | uint32(f)), true
		}), 2},
	)
	refSK = append(refSK,
		refusal{"child that does not exist", skNode(func(r *Rng, z *zoo, at, total int, l, rt, f uint64) (uint64, uint64, uint64) {
			n := uint64(total)
			bad := func(cur uint64) uint64 {
				return []uint64{n, n + 1, n + 1000, 1<<16 + cur, 1<<32 + cur, 1 << 31, 1<<31 + cur, 1<<63 - 1}[r.N(8)]
			}
			switch r.N(3) {
			case 0:
				return bad(l), rt, f
			case 1:
				return l, bad(rt), f
			}
			return l, []uint64{math.MaxUint64, math.MaxUint64 - 1, 1 << 63}[r.N(3)], f
		}), 2},
		refusal{"node that is its own descendant", skNode(func(r *Rng, z *zoo, at, total int, l, rt, f uint64) (uint64, uint64, uint64) {
			if r.Bool() {
				return uint64(r.Pick(0, at)), rt, f
			}
			return l, uint64(r.Pick(0, at)), f
		}), 2},
		refusal{"split on a feature that does not exist", skNode(func(r *Rng, z *zoo, at, total int, l, rt, f uint64) (uint64, uint64, uint64) {
			n := uint64(z.nfeat)
			return l, rt, []uint64{n, n + 1, 1<<16 + n, 1<<31 - 1, 1 << 31, 1<<32 + f, 1 << 32, 1<<40 + f, math.MaxUint64, math.MaxUint64 - 1, 1 << 63, 1<<63 + f}[r.N(12)]
		}), 2},
		refusal{"big-endian arrays", substAll(`^V<$`, "V>"), 2},
	)
}

// lineVal2 is lineVal for one of several keys.
func lineVal2(keys []string, f func(r *Rng, v string) (string, bool)) func(c *C, z *zoo) []byte {
	return func(c *C, z *zoo) []byte { return lineVal(keys[c.R.N(len(keys))], f)(c, z) }
}

func (m *Model) Nodes() int {
	n := 0
	for _, t := range m.Trees {
		n += len(t.Nodes)
	}
	return n
}

func runRefuse(c *C) {
	r := c.R
	kind := kinds[c.Idx%len(kinds)]
	z := makeZoo(c, kind, smallOpt(), r.Bool())
	z.mustLoad(c, false)
	c.Count("unchanged models accepted", 1)
	if z.tr != "" && z.tr != "raw" {
		z.mustLoad(c, true)
		c.Count("unchanged models accepted with transformation", 1)
	}
	var list []refusal
	switch {
	case kind == "lgjson":
		list = refJSON
	case z.x != nil:
		list = refXG
	case z.l != nil:
		list = refLin
	case z.s != nil:
		list = refSK
	default:
		list = refLG
	}
	done := 0
	for _, f := range list {
		if kind == "lgrf" && f.tr == 1 {
			continue // random forests are not transformed
		}
		if f.name == "used feature above n_features_" && z.m.Nodes() == 0 {
			continue
		}
		b := f.make(c, z)
		if b == nil || (bytes.Equal(b, z.bytes) && f.tr != 1) {
			continue
		}
		if kind == "sk" && bytes.Equal(b, z.bytes) {
			continue
		}
		tr := f.tr == 1 || (f.tr == 2 && r.Bool())
		if kind == "lgjson" {
			tr = f.tr == 1
		}
		c.Dump("refusal", f.name)
		c.Dump("bytes", b)
		var err error
		var loaded bool
		load := z.load
		if kind == "lgjson" {
			load = loadJSONtr
		}
		if kind == "sk" {
			load = loadSKtr
		}
		if m, p := c.Try(func() {
			e, er := load(b, tr)
			err, loaded = er, e != nil
		}); p {
			c.Fail("%s: loading a model with %q panicked: %s", kind, f.name, m)
		}
		if err == nil {
			c.Fail("%s: a model the library cannot evaluate (%s; transformation %v) was loaded without an error", kind, f.name, tr)
		}
		if loaded {
			c.Fail("%s: refused (%s) with %v, but an ensemble was returned as well", kind, f.name, err)
		}
		c.Count("refused "+kind+": "+f.name, 1)
		c.Count("models refused", 1)
		c.Eval(hashBytes(b)^hashStr(f.name), true)
		done++
	}
	c.Sample("%s: %d refusals", z.describe(), done)
}

func init() {
	register(&Property{
		ID: "C20", Level: "exploration", Quick: 20000, Thorough: 600000,
		Rule:   "One case = one supported model, which has to load, and every applicable entry of a list of changes that take it out of the supported set or make it contradict itself (20 to 30 per format: versions, boosters, classes, objectives when a transformation is asked for, missing types, multi-root trees, unusual group orders, dart weights, missing fields, array layouts, pickle protocols; features, children and category sets that do not exist, also modulo 2^16 and 2^32, nodes that are their own descendants, fields that are too short), each of which has to be refused with an error and no ensemble. An evaluation is one refusal; non-trivial: all; distinct: different bytes.",
		Need:   []string{"models refused", "unchanged models accepted", "unchanged models accepted with transformation"},
		Assume: []string{"the list of unsupported features is the one in p_unsup.go, taken from the README's limitations and the checks of the loaders"},
		Run:    runRefuse,
	})
}
