package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	"github.com/dmitryikh/leaves"
)

// lgText describes how a model is written as LightGBM text.
type lgText struct {
	version   string
	objective string
	crlf      bool
	short     bool // shortest float format instead of %.17g
	padWords  bool // bitsets with trailing zero words
	extra     bool // additional keys LightGBM versions write
	oddNames  bool // feature names with '=', ':' and non-ASCII characters
	footer    string
	names     []string
	avgTail   string
	noise     uint64 // what the fields that predictions do not depend on say (0: something usual)
}

// oddNumber is a value of a field that predictions do not depend on
func oddNumber(r *Rng) string {
	switch r.N(3) {
	case 0:
		return r.PickS("0", "-0", "1", "-1", "0.5", "1e+300", "-1e-300", "inf", "-inf", "nan", "100", "1e-35")
	case 1:
		return strconv.FormatFloat(r.Norm()*10, 'g', -1, 64)
	}
	return strconv.Itoa(r.N(1000))
}

func oddCount(r *Rng) string {
	return r.PickS("0", "1", "2", "20", "2147483647", "-1", strconv.Itoa(r.N(100000)))
}

func randLGText(r *Rng) lgText {
	e := lgText{
		version:   r.PickS("v2", "v3"),
		objective: "regression",
		crlf:      r.N(10) == 0,
		short:     r.N(3) == 0,
		padWords:  r.N(6) == 0,
		extra:     r.Bool(),
		oddNames:  r.N(5) == 0,
	}
	if r.N(4) == 0 {
		e.avgTail = r.PickS("=", "=1", "=true")
	}
	if r.N(3) != 0 {
		e.noise = r.U64() | 1
	}
	switch r.N(4) {
	case 0:
		e.footer = ""
	case 1:
		e.footer = "\nfeature importances:\nf0=3\nf1=1\n"
	case 2:
		e.footer = "end of trees\n\nfeature importances:\nf0=3\n\nparameters:\n[boosting: gbdt]\n[objective: regression]\nend of parameters\n\npandas_categorical:null\n"
	default:
		e.footer = "\nfeature importances:\n\npandas_categorical:[[1, 2], [3]]\n"
	}
	return e
}

func (e *lgText) num(v float64) string {
	if e.short {
		return strconv.FormatFloat(v, 'g', -1, 64)
	}
	return strconv.FormatFloat(v, 'g', 17, 64)
}

func bitset(cats []uint32, pad int) []uint32 {
	n := int(cats[len(cats)-1])/32 + 1 + pad
	b := make([]uint32, n)
	for _, c := range cats {
		b[c/32] |= 1 << (c % 32)
	}
	return b
}

func joinInts(vs []int) string {
	var b strings.Builder
	for i, v := range vs {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(strconv.Itoa(v))
	}
	return b.String()
}

func (e *lgText) tree(i int, t *Tree) string {
	var b strings.Builder
	odd, oddN := func(s string) func(int) string { return func(int) string { return s } }, func(s string) func(int) string { return func(int) string { return s } }
	shrinkage := "0.1"
	if e.noise != 0 {
		r := newRng(e.noise, uint64(i))
		odd = func(string) func(int) string { return func(int) string { return oddNumber(r) } }
		oddN = func(string) func(int) string { return func(int) string { return oddCount(r) } }
		shrinkage = r.PickS("1", "0.1", "0", "0.05", "1e-05", "0.3", "-1", "2", "0.10000000000000001")
	}
	nn := len(t.Nodes)
	fl := func(key string, n int, f func(i int) string) {
		b.WriteString(key)
		b.WriteByte('=')
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(f(i))
		}
		b.WriteByte('\n')
	}
	ncat := 0
	bounds := []int{0}
	var words []uint32
	thr := make([]string, nn)
	dec := make([]int, nn)
	for k := range t.Nodes {
		n := &t.Nodes[k]
		if n.Cat {
			thr[k] = strconv.Itoa(ncat)
			pad := 0
			if e.padWords {
				pad = ncat % 3
			}
			words = append(words, bitset(n.Cats, pad)...)
			bounds = append(bounds, len(words))
			ncat++
			dec[k] = 1
		} else {
			thr[k] = e.num(n.Thr)
		}
		if n.DefLeft {
			dec[k] |= 2
		}
		dec[k] |= n.Missing << 2
	}
	fmt.Fprintf(&b, "Tree=%d\nnum_leaves=%d\nnum_cat=%d\n", i, len(t.Leaves), ncat)
	fl("split_feature", nn, func(i int) string { return strconv.Itoa(t.Nodes[i].Feat) })
	fl("split_gain", nn, odd("1"))
	fl("threshold", nn, func(i int) string { return thr[i] })
	fl("decision_type", nn, func(i int) string { return strconv.Itoa(dec[i]) })
	fl("left_child", nn, func(i int) string { return strconv.Itoa(t.Nodes[i].L) })
	fl("right_child", nn, func(i int) string { return strconv.Itoa(t.Nodes[i].R) })
	fl("leaf_value", len(t.Leaves), func(i int) string { return e.num(t.Leaves[i]) })
	if e.extra && e.version == "v3" {
		fl("leaf_weight", len(t.Leaves), odd("12.5"))
	}
	nlc := len(t.Leaves)
	if nn == 0 {
		nlc = 0
	}
	fl("leaf_count", nlc, oddN("20"))
	fl("internal_value", nn, odd("0.25"))
	if e.extra && e.version == "v3" {
		fl("internal_weight", nn, odd("0"))
	}
	fl("internal_count", nn, oddN("40"))
	if ncat > 0 {
		b.WriteString("cat_boundaries=" + joinInts(bounds) + "\n")
		fl("cat_threshold", len(words), func(i int) string { return strconv.FormatUint(uint64(words[i]), 10) })
	}
	if e.extra && e.version == "v3" {
		b.WriteString("is_linear=0\n")
	}
	b.WriteString("shrinkage=" + shrinkage + "\n")
	return b.String()
}

func (e *lgText) emit(m *Model) []byte {
	var h strings.Builder
	h.WriteString("tree\nversion=" + e.version + "\n")
	label, info := 0, func(i int) string { return "[-1:1]" }
	constraint := "0 "
	if e.noise != 0 {
		r := newRng(e.noise, 1<<40)
		label = r.Pick(0, 1, 2, r.N(m.NFeat+1), m.NFeat, 100000)
		constraint = r.PickS("0 ", "1 ", "-1 ")
		info = func(i int) string {
			switch r.N(4) {
			case 0:
				return "none"
			case 1:
				return r.PickS("0:1:2:3", "-1:5:7", "0", "1:0", "100")
			}
			v := r.Norm()
			return fmt.Sprintf("[%v:%v]", v, v+r.F()*r.F())
		}
	}
	fmt.Fprintf(&h, "num_class=%d\nnum_tree_per_iteration=%d\nlabel_index=%d\nmax_feature_idx=%d\n", m.Groups, m.Groups, label, m.NFeat-1)
	if e.objective != "" {
		h.WriteString("objective=" + e.objective + "\n")
	}
	if m.Average {
		// a flag without a value; LightGBM looks for the key only
		h.WriteString("average_output" + e.avgTail + "\n")
	}
	names := make([]string, m.NFeat)
	infos := make([]string, m.NFeat)
	for i := range names {
		names[i] = fmt.Sprintf("Column_%d", i)
		infos[i] = info(i)
		if i%7 == 3 {
			infos[i] = "none"
		}
	}
	if e.names != nil {
		names = e.names
	} else if e.oddNames {
		for i := range names {
			names[i] = []string{"a=b", "price=", "=x", "x==y=1", "caf\u00e9", "tree=3", "feature_names=", "a:b;c", "two words ", "a  b"}[(i+len(m.Trees))%10] + fmt.Sprint(i)
		}
	}
	h.WriteString("feature_names=" + strings.Join(names, " ") + "\n")
	if e.extra && e.version == "v3" && m.NFeat < 50 {
		h.WriteString("monotone_constraints=" + strings.TrimSpace(strings.Repeat(constraint, m.NFeat)) + "\n")
	}
	h.WriteString("feature_infos=" + strings.Join(infos, " ") + "\n")
	trees := make([]string, len(m.Trees))
	sizes := make([]int, len(m.Trees))
	for i, t := range m.Trees {
		trees[i] = e.tree(i, t) + "\n\n"
		sizes[i] = len(trees[i])
	}
	h.WriteString("tree_sizes=" + joinInts(sizes) + "\n\n")
	s := h.String() + strings.Join(trees, "") + e.footer
	if e.crlf {
		s = strings.Replace(s, "\n", "\r\n", -1)
	}
	return []byte(s)
}

// ---------- JSON ----------

type ordered []interface{} // key, value, key, value...

type lgJSON struct {
	indent  bool
	shuffle *Rng // shuffle keys inside objects
	mixCats *Rng // category sets in any order, with repetitions
	mixed   int  // sets written out of order
}

var missNames = []string{"None", "Zero", "NaN"}

func (e *lgJSON) obj(o ordered) ordered {
	if e.shuffle == nil {
		return o
	}
	n := len(o) / 2
	p := e.shuffle.Perm(n)
	out := make(ordered, 0, len(o))
	for _, i := range p {
		out = append(out, o[2*i], o[2*i+1])
	}
	return out
}

func (e *lgJSON) child(t *Tree, c int) interface{} {
	odd := func(f float64) interface{} {
		if e.mixCats == nil || e.mixCats.Bool() {
			return f
		}
		return e.mixCats.PickF(0, 1, -1, 1e300, -1e-300, 7)
	}
	if c < 0 {
		o := ordered{"leaf_index", ^c, "leaf_value", t.Leaves[^c], "leaf_count", odd(20)}
		if e.mixCats != nil && e.mixCats.N(3) == 0 {
			o = append(o, "leaf_weight", odd(3))
		}
		return e.obj(o)
	}
	n := &t.Nodes[c]
	o := ordered{"split_index", c, "split_feature", n.Feat, "split_gain", odd(1.5)}
	if n.Cat {
		s := make([]string, len(n.Cats))
		for i, v := range n.Cats {
			s[i] = strconv.Itoa(int(v))
		}
		if e.mixCats != nil && len(s) > 1 && e.mixCats.Bool() {
			p := e.mixCats.Perm(len(s))
			q := make([]string, len(s))
			for i, j := range p {
				q[i] = s[j]
			}
			if s = q; e.mixCats.N(4) == 0 {
				s = append(s, s[e.mixCats.N(len(s))])
			}
			e.mixed++
		}
		o = append(o, "threshold", strings.Join(s, "||"), "decision_type", "==")
	} else {
		o = append(o, "threshold", n.Thr, "decision_type", "<=")
	}
	o = append(o, "default_left", n.DefLeft, "missing_type", missNames[n.Missing],
		"internal_value", odd(0.25), "internal_count", odd(40),
		"left_child", e.child(t, n.L), "right_child", e.child(t, n.R))
	return e.obj(o)
}

// writeJSON writes v in time linear in its length, however deeply it is nested.
func writeJSON(w *bytes.Buffer, v interface{}) {
	switch v := v.(type) {
	case ordered:
		w.WriteByte('{')
		for i := 0; i < len(v); i += 2 {
			if i > 0 {
				w.WriteByte(',')
			}
			writeJSON(w, v[i])
			w.WriteByte(':')
			writeJSON(w, v[i+1])
		}
		w.WriteByte('}')
	case []interface{}:
		w.WriteByte('[')
		for i, x := range v {
			if i > 0 {
				w.WriteByte(',')
			}
			writeJSON(w, x)
		}
		w.WriteByte(']')
	default:
		b, err := json.Marshal(v)
		if err != nil {
			panic(err)
		}
		w.Write(b)
	}
}

func (e *lgJSON) emit(m *Model) []byte {
	trees := make([]interface{}, len(m.Trees))
	for i, t := range m.Trees {
		ncat := 0
		for k := range t.Nodes {
			if t.Nodes[k].Cat {
				ncat++
			}
		}
		var root interface{}
		if len(t.Nodes) == 0 {
			root = ordered{"leaf_value", t.Leaves[0]}
		} else {
			root = e.child(t, 0)
		}
		shrinkage := 0.1
		if e.mixCats != nil {
			shrinkage = e.mixCats.PickF(0.1, 1, 0, 0.05, 1e-5, 2, -1)
		}
		trees[i] = e.obj(ordered{"tree_index", i, "num_leaves", len(t.Leaves), "num_cat", ncat, "shrinkage", shrinkage, "tree_structure", root})
	}
	names := make([]string, m.NFeat)
	for i := range names {
		names[i] = fmt.Sprintf("Column_%d", i)
	}
	label := 0
	if e.mixCats != nil {
		label = e.mixCats.Pick(0, 0, 1, 2, m.NFeat)
	}
	doc := e.obj(ordered{"name", "tree", "version", "v2", "num_class", m.Groups, "num_tree_per_iteration", m.Groups,
		"label_index", label, "max_feature_idx", m.NFeat - 1, "feature_names", names, "tree_info", trees})
	var w bytes.Buffer
	writeJSON(&w, doc)
	b := bytes.Replace(w.Bytes(), []byte(`\u003c`), []byte("<"), -1)
	if e.indent {
		var o bytes.Buffer
		json.Indent(&o, b, "", "  ")
		b = o.Bytes()
	}
	return b
}

// ---------- loaders ----------

func loadLG(b []byte, transform bool) (*leaves.Ensemble, error) {
	return leaves.LGEnsembleFromReader(bufio.NewReader(bytes.NewReader(b)), transform)
}

func loadJSON(b []byte) (*leaves.Ensemble, error) {
	return leaves.LGEnsembleFromJSON(bytes.NewReader(b), false)
}

func loadJSONtr(b []byte, transform bool) (*leaves.Ensemble, error) {
	return leaves.LGEnsembleFromJSON(bytes.NewReader(b), transform)
}

func loadSKtr(b []byte, transform bool) (*leaves.Ensemble, error) {
	return leaves.SKEnsembleFromReader(bufio.NewReader(bytes.NewReader(b)), transform)
}

func loadXG(b []byte, transform bool) (*leaves.Ensemble, error) {
	return leaves.XGEnsembleFromReader(bufio.NewReader(bytes.NewReader(b)), transform)
}

func loadXGLin(b []byte, transform bool) (*leaves.Ensemble, error) {
	return leaves.XGBLinearFromReader(bufio.NewReader(bytes.NewReader(b)), transform)
}

func loadSK(b []byte) (*leaves.Ensemble, error) {
	return leaves.SKEnsembleFromReader(bufio.NewReader(bytes.NewReader(b)), false)
}
