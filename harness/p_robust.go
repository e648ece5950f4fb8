package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"

	"github.com/dmitryikh/leaves"
)

// ---------- mutation of serialised models ----------

var numRe = regexp.MustCompile(`[-+]?[0-9]+(\.[0-9]+)?([eE][-+]?[0-9]+)?`)

var boundaryNums = []string{"-1", "0", "1", "2", "3", "7", "31", "32", "63", "100", "-2", "-3", "-2147483648", "2147483647", "2147483648",
	"4294967295", "4294967296", "-9223372036854775808", "9223372036854775807", "9223372036854775806", "18446744073709551615", "99999999999999999999",
	"1e9", "1e308", "-1e308", "1e400", "nan", "NaN", "inf", "-inf", "0.5", "", "x", "-0", "1e-320", "65535", "65536", "1000000"}

var boundary32 = []uint32{0, 1, 2, 3, 0xffffffff, 0xfffffffe, 0x7fffffff, 0x80000000, 0x80000001, 16, 255, 256, 65536, 1 << 20, 1 << 24, 1 << 28, 0x7f800000, 0x7fc00000}

func cutCopy(b []byte) []byte { return append([]byte(nil), b...) }

func mutBytes(r *Rng, b []byte) ([]byte, string) {
	b = cutCopy(b)
	if len(b) == 0 {
		return []byte{byte(r.U64())}, "one byte"
	}
	switch r.N(7) {
	case 0:
		n := r.Range(1, 6)
		for i := 0; i < n; i++ {
			b[r.N(len(b))] ^= 1 << uint(r.N(8))
		}
		return b, "bit flips"
	case 1:
		n := r.Range(1, 6)
		for i := 0; i < n; i++ {
			b[r.N(len(b))] = byte(r.Pick(0, 255, 127, 128, '\n', ' ', '-', '=', '0', '9', '.', int(r.U64()&255)))
		}
		return b, "byte replacement"
	case 2:
		i := r.N(len(b))
		j := i + r.N(minI(64, len(b)-i)) + 1
		if j > len(b) {
			j = len(b)
		}
		return append(b[:i], b[j:]...), "deleted range"
	case 3:
		i := r.N(len(b))
		j := minI(len(b), i+r.Range(1, 64))
		seg := cutCopy(b[i:j])
		k := r.N(len(b))
		out := append(cutCopy(b[:k]), seg...)
		return append(out, b[k:]...), "duplicated range"
	case 4:
		k := r.N(len(b))
		ins := make([]byte, r.Range(1, 12))
		for i := range ins {
			ins[i] = byte(r.U64())
		}
		out := append(cutCopy(b[:k]), ins...)
		return append(out, b[k:]...), "inserted bytes"
	case 5:
		return b[:r.N(len(b))], "truncation"
	}
	i, j := r.N(len(b)), r.N(len(b))
	n := minI(r.Range(1, 32), minI(len(b)-i, len(b)-j))
	copy(b[i:i+n], b[j:j+n])
	return b, "copied range"
}

func minI(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// mutNumber replaces one number of a textual model.
func mutNumber(r *Rng, b []byte, times int) ([]byte, string) {
	what := ""
	for k := 0; k < times; k++ {
		loc := numRe.FindAllIndex(b, -1)
		if len(loc) == 0 {
			return b, "no number"
		}
		p := loc[r.N(len(loc))]
		var nv string
		switch r.N(4) {
		case 0, 1:
			nv = boundaryNums[r.N(len(boundaryNums))]
		case 2: // a number from elsewhere in the file
			q := loc[r.N(len(loc))]
			nv = string(b[q[0]:q[1]])
		default:
			v, err := strconv.Atoi(string(b[p[0]:p[1]]))
			if err != nil {
				v = r.N(10)
			}
			nv = strconv.Itoa(v + r.Pick(-2, -1, 1, 2))
		}
		what += fmt.Sprintf("number %q at %d -> %q; ", b[p[0]:p[1]], p[0], nv)
		out := append(cutCopy(b[:p[0]]), nv...)
		b = append(out, b[p[1]:]...)
	}
	return b, what
}

// mutKeyed replaces one number in the values of one key=... line, so that
// small structural fields are hit as often as the long arrays.
func mutKeyed(r *Rng, b []byte) ([]byte, string) {
	lines := strings.Split(string(b), "\n")
	var idx []int
	key := r.PickS("num_class", "num_tree_per_iteration", "max_feature_idx", "tree_sizes", "num_leaves", "num_cat", "split_feature", "threshold", "decision_type", "left_child", "right_child", "leaf_value", "cat_boundaries", "cat_threshold", "version", "objective")
	for i, l := range lines {
		if strings.HasPrefix(l, key+"=") {
			idx = append(idx, i)
		}
	}
	if len(idx) == 0 {
		return mutNumber(r, b, 1)
	}
	i := idx[r.N(len(idx))]
	l := lines[i]
	var what string
	switch r.N(7) {
	case 0:
		lines = append(lines[:i], lines[i+1:]...)
		what = "deleted line " + key
	case 1:
		lines[i] = l + " " + boundaryNums[r.N(len(boundaryNums))]
		what = "longer " + key
	case 2:
		if j := strings.LastIndex(l, " "); j > 0 {
			lines[i] = l[:j]
		} else {
			lines[i] = key + "="
		}
		what = "shorter " + key
	case 3:
		lines[i] = l + "\n" + l
		what = "doubled " + key
	default:
		nb, w := mutNumber(r, []byte(l[len(key)+1:]), r.Range(1, 2))
		lines[i] = key + "=" + string(nb)
		what = key + ": " + w
	}
	return []byte(strings.Join(lines, "\n")), what
}

var jsonVals = []string{"null", "{}", "[]", "true", `"x"`, `""`, "0", "-1", "1e400", "4294967296", `"1||2"`, `"||"`, `"-1"`, `"99999999999"`, `"4294967295"`, `"2147483648"`, `"0||0"`, "[1]", `{"a":1}`, "18446744073709551616", "0.5"}

var jsonFieldRe = regexp.MustCompile(`"(\w+)":\s*("[^"]*"|-?[0-9][0-9.eE+-]*|true|false|null)`)

func mutJSON(r *Rng, b []byte) ([]byte, string) {
	loc := jsonFieldRe.FindAllSubmatchIndex(b, -1)
	if len(loc) == 0 {
		return mutBytes(r, b)
	}
	p := loc[r.N(len(loc))]
	if r.N(3) == 0 { // prefer the header
		p = loc[r.N(minI(8, len(loc)))]
	}
	var out []byte
	name := string(b[p[2]:p[3]])
	switch r.N(5) {
	case 0: // rename the key
		out = append(cutCopy(b[:p[2]]), "zzz"...)
		out = append(out, b[p[3]:]...)
		return out, "renamed " + name
	case 1: // drop the tree below
		if i := bytes.Index(b, []byte(`"left_child":`)); i >= 0 && r.Bool() {
			out = append(cutCopy(b[:i]), `"left_child":`+r.PickS("null", "{}", "3", `{"leaf_value":"x"}`, "[]")+`,"q":`...)
			return append(out, b[i+len(`"left_child":`):]...), "replaced left_child"
		}
		fallthrough
	default:
		v := jsonVals[r.N(len(jsonVals))]
		out = append(cutCopy(b[:p[4]]), v...)
		return append(out, b[p[5]:]...), name + " -> " + v
	}
}

type xgField struct {
	off  int
	size int
	name string
}

// xgFields lists the fields of an XGBoost binary the loader cares about.
func xgFields(z *zoo) []xgField {
	b := z.bytes
	var fs []xgField
	add := func(off, size int, name string) { fs = append(fs, xgField{off, size, name}) }
	add(0, 4, "base_score")
	add(4, 4, "num_features")
	add(8, 4, "num_class")
	add(12, 4, "extra attrs")
	o := 136
	add(o, 8, "len(obj)")
	o += 8 + int(binary.LittleEndian.Uint64(b[o:]))
	add(o, 8, "len(gbm)")
	o += 8 + int(binary.LittleEndian.Uint64(b[o:]))
	if z.l != nil {
		add(o, 4, "lin num_feature")
		add(o+4, 4, "lin groups")
		add(o+8+128, 8, "lin len(weights)")
		add(o+8+128+8, 4, "weight")
		return fs
	}
	for i, n := range []string{"num_trees", "num_roots", "num_feature", "pad"} {
		add(o+4*i, 4, n)
	}
	add(o+24, 4, "num_output_group")
	add(o+28, 4, "size_leaf_vector")
	nt := int(binary.LittleEndian.Uint32(b[o:]))
	o += 160
	for t := 0; t < nt; t++ {
		for i, n := range []string{"tree num_roots", "tree num_nodes", "tree num_deleted", "tree depth", "tree num_feature", "tree leaf vector"} {
			add(o+4*i, 4, n)
		}
		nn := int(binary.LittleEndian.Uint32(b[o+4:]))
		lv := int(binary.LittleEndian.Uint32(b[o+20:]))
		o += 148
		for k := 0; k < nn; k++ {
			for i, n := range []string{"parent", "left", "right", "sindex", "info"} {
				add(o+20*k+4*i, 4, "node "+n)
			}
		}
		o += 36 * nn
		if lv > 0 {
			add(o, 8, "len(leaf vector)")
			o += 8 + 4*int(binary.LittleEndian.Uint64(b[o:]))
		}
	}
	for t := 0; t < nt; t++ {
		add(o+4*t, 4, "tree_info")
	}
	o += 4 * nt
	if z.x.Dart {
		add(o, 8, "len(weight_drop)")
	}
	return fs
}

// wrapLin is a gblinear model with sizes whose product is the number of
// weights only if it is computed with too few bits.
func wrapLin(r *Rng, z *zoo) ([]byte, string) {
	b := cutCopy(z.bytes)
	o := 136
	o += 8 + int(binary.LittleEndian.Uint64(b[o:]))
	o += 8 + int(binary.LittleEndian.Uint64(b[o:]))
	bits := uint(r.Pick(16, 31, 32, 32, 32))
	var f1, g, w uint64
	if r.Bool() {
		a := uint(r.Range(1, int(bits)-1))
		j := uint64(r.Pick(0, 0, 1, 1, 2, 3))
		g = 1 << a
		f1 = (uint64(r.Pick(1, 1, 1, 2, 3)) << (bits - a)) + j
	} else { // an odd factor has an inverse
		g = uint64(r.Range(1, 40))*2 + 1
		inv := g
		for i := 0; i < 6; i++ {
			inv *= 2 - g*inv
		}
		f1 = inv * uint64(r.N(50)) & (1<<bits - 1)
		if r.Bool() {
			f1, g = g, f1
		}
	}
	w = f1 * g & (1<<bits - 1)
	if w > 1<<20 {
		w &= 0xffff
	}
	head := []uint32{uint32(f1 - 1), uint32(f1 - 1), uint32(f1), binary.LittleEndian.Uint32(b[4:])}[r.N(4)]
	binary.LittleEndian.PutUint32(b[4:], head)
	if r.Bool() {
		binary.LittleEndian.PutUint32(b[8:], uint32(g))
	}
	out := cutCopy(b[:o+136])
	binary.LittleEndian.PutUint32(out[o:], uint32(f1-1))
	binary.LittleEndian.PutUint32(out[o+4:], uint32(g))
	var n8 [8]byte
	binary.LittleEndian.PutUint64(n8[:], w)
	out = append(out, n8[:]...)
	out = append(out, make([]byte, 4*w)...)
	return out, fmt.Sprintf("%d features, %d groups and %d weights (num_features %d)", f1-1, g, w, head)
}

func mutXG(r *Rng, z *zoo, fs []xgField) ([]byte, string) {
	if z.l != nil && r.N(6) == 0 {
		return wrapLin(r, z)
	}
	b := cutCopy(z.bytes)
	what := ""
	n := r.Pick(1, 1, 1, 2, 3)
	for k := 0; k < n; k++ {
		f := fs[r.N(len(fs))]
		if r.Bool() { // pick by name first, so that rare fields get their share
			name := fs[r.N(len(fs))].name
			var same []xgField
			want := r.PickS("num_features", "len(obj)", "len(gbm)", "num_trees", "num_roots", "num_feature", "num_output_group", "size_leaf_vector",
				"tree num_roots", "tree num_nodes", "tree num_feature", "tree leaf vector", "node left", "node right", "node sindex", "len(leaf vector)", "tree_info", "len(weight_drop)", "lin num_feature", "lin groups", "lin len(weights)", name)
			for _, g := range fs {
				if g.name == want {
					same = append(same, g)
				}
			}
			if len(same) > 0 {
				f = same[r.N(len(same))]
			}
		}
		if f.off+f.size > len(b) {
			continue
		}
		cur := binary.LittleEndian.Uint32(b[f.off:])
		v := boundary32[r.N(len(boundary32))]
		switch r.N(3) {
		case 0:
			v = cur + uint32(r.Pick(-2, -1, 1, 2))
		case 1:
			v = uint32(r.N(8))
		}
		binary.LittleEndian.PutUint32(b[f.off:], v)
		if f.size == 8 && r.Bool() {
			binary.LittleEndian.PutUint32(b[f.off+4:], boundary32[r.N(len(boundary32))])
		}
		what += fmt.Sprintf("%s at %d: %d -> %d; ", f.name, f.off, cur, v)
	}
	return b, what
}

var pickleLineRe = regexp.MustCompile(`(?m)^.*$`)

func mutPickle(r *Rng, b []byte) ([]byte, string) {
	lines := strings.SplitAfter(string(b), "\n")
	i := r.N(len(lines))
	what := ""
	switch r.N(8) {
	case 0: // another memo reference
		for t := 0; t < 50; t++ {
			j := r.N(len(lines))
			if k := strings.LastIndex(lines[j], "g"); k >= 0 && numRe.MatchString(lines[j][k:]) {
				lines[j] = lines[j][:k] + fmt.Sprintf("g%d\n", r.N(60))
				what = "memo reference " + lines[j]
				break
			}
		}
	case 1: // another store position
		for t := 0; t < 50; t++ {
			j := r.N(len(lines))
			if k := strings.LastIndex(lines[j], "p"); k >= 0 && k+2 <= len(lines[j]) && numRe.MatchString(lines[j][k:]) {
				lines[j] = lines[j][:k] + fmt.Sprintf("p%d\n", r.N(60))
				what = "memo store " + lines[j]
				break
			}
		}
	case 2: // insert opcodes
		op := r.PickS("(", "t", "R", "b", "0", "1", "2", "a", "s", "u", "d", "l", ".", "N", "I01\n", "I00\n", "F1.5\n", "F\n", "L5L\n", "L5\n", "I\n", "Vx\n", "V\\u00\n", "S'x'\n", "g0\n", "g1\n", "g5\n", "p0\n", "p1\n", "cnumpy\nndarray\n", "cnumpy\ndtype\n", "ccopy_reg\n_reconstructor\n", "(t", "(l", "(d", ")", "]", "}", "\x80\x02", "e", "o", "i")
		if r.N(8) == 0 {
			op = pyCycles[r.N(len(pyCycles))] + r.PickS("", "", "a", "s", "b", "R", "t", "g987651\nb")
		}
		lines[i] = lines[i] + op
		what = fmt.Sprintf("inserted %q", op)
	case 3:
		what = fmt.Sprintf("deleted %q", lines[i])
		lines = append(lines[:i], lines[i+1:]...)
	case 4:
		j := r.N(len(lines))
		what = fmt.Sprintf("swapped %q and %q", lines[i], lines[j])
		lines[i], lines[j] = lines[j], lines[i]
	case 5:
		j := r.N(len(lines))
		what = fmt.Sprintf("%q over %q", lines[j], lines[i])
		lines[i] = lines[j]
	case 6: // number in an argument
		for t := 0; t < 50; t++ {
			j := r.N(len(lines))
			if numRe.MatchString(lines[j]) {
				nb, w := mutNumber(r, []byte(lines[j]), 1)
				lines[j] = string(nb)
				what = w
				break
			}
		}
	default:
		cls := []string{"_reconstructor", "_reconstruct", "scalar", "ndarray", "dtype", "encode", "Tree", "DecisionTreeRegressor", "LogOddsEstimator", "PriorProbabilityEstimator", "GradientBoostingClassifier", "object"}
		for t := 0; t < 200; t++ {
			j := r.N(len(lines))
			for _, cl := range cls {
				if strings.HasPrefix(lines[j], cl) {
					lines[j] = cls[r.N(len(cls))] + "\n"
					what = "class " + cl + " -> " + lines[j]
					t = 1000
					break
				}
			}
		}
	}
	return []byte(strings.Join(lines, "")), what
}

// randPickle is a stream of pickle opcodes that keeps a plausible stack.
func randPickle(r *Rng) []byte {
	var b strings.Builder
	n := r.Range(1, 60)
	memo := 0
	for i := 0; i < n; i++ {
		switch r.N(16) {
		case 0:
			b.WriteString("(")
		case 1:
			b.WriteString(r.PickS("(t", "t", "(l", "l", "(d", "d"))
		case 2:
			fmt.Fprintf(&b, "p%d\n", memo)
			memo++
		case 3:
			fmt.Fprintf(&b, "g%d\n", r.N(memo+2))
		case 4:
			b.WriteString(r.PickS("ccopy_reg\n_reconstructor\n", "c__builtin__\nobject\n", "cnumpy.core.multiarray\n_reconstruct\n", "cnumpy.core.multiarray\nscalar\n", "cnumpy\nndarray\n", "cnumpy\ndtype\n", "c_codecs\nencode\n", "csklearn.tree._tree\nTree\n", "csklearn.ensemble.gradient_boosting\nGradientBoostingClassifier\n"))
		case 5:
			b.WriteString("R")
		case 6:
			b.WriteString("b")
		case 7:
			b.WriteString(r.PickS("a", "s", "0"))
		case 8:
			b.WriteString(r.PickS("N", "I01\n", "I00\n", "I5\n", "L5L\n", "L-1L\n", "L99999999999999999999L\n", "I99999999999999\n"))
		case 9:
			b.WriteString(r.PickS("F0.5\n", "Fnan\n", "Finf\n", "F1e999\n"))
		case 10:
			b.WriteString(r.PickS("Vlatin1\n", "V\n", "Vf8\n", "Vi8\n", "V<\n", "Vn_estimators\n", "V\\u0041\n", "V\\u00\n", "V\\\n", "V\xff\xfe\n"))
		default:
			b.WriteString(r.PickS("(Vf8\nI0\nI1\ntR", "(I1\nI2\nt", "(lp9\ng9\na", "(dp8\nVx\ng8\ns", "(g9\nt", "Na", "Nb", "NR", "(tR", "(Nt"))
		}
	}
	if r.N(4) != 0 {
		b.WriteByte('.')
	}
	return []byte(b.String())
}

// jsonCatAllowance: the documented cost of LightGBM JSON categories is a
// bitset up to the largest category of each node.
func jsonCatAllowance(b []byte) int64 {
	sum := int64(0)
	for _, s := range regexp.MustCompile(`"[^"]*"`).FindAll(b, -1) {
		mx := int64(0)
		for _, t := range strings.Split(strings.Trim(string(s), `"`), "||") {
			v, err := strconv.ParseInt(t, 10, 64)
			if err == nil && v > mx && v <= math.MaxInt32 {
				mx = v
			}
		}
		sum += mx
	}
	return sum // bytes: 8 times the size of the bitsets
}

func allocated() int64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.TotalAlloc)
}

// usePredict runs every prediction entry point of a model whatever bytes it
// came from; the caller watches for panics.
func usePredict(c *C, e *leaves.Ensemble, r *Rng) {
	nf := e.NFeatures()
	ng := e.NRawOutputGroups()
	ne := e.NEstimators()
	nl := e.NLeaves()
	_ = e.Name()
	og := e.NOutputGroups()
	if ng < 1 || ne < 1 || og != ng || nf < 0 {
		c.Fail("a loaded model describes itself as having %d raw outputs, %d outputs, %d estimators, %d features", ng, og, ne, nf)
	}
	linear := e.Name() == "xgboost.gblinear"
	if !linear && len(nl) != ng*ne {
		c.Fail("a loaded model has %d leaf counts for %d estimators and %d groups", len(nl), ne, ng)
	}
	if nf > 1000000 {
		c.Count("loaded with more than 1e6 features (not predicted)", 1)
		return
	}
	width := nf
	if width == 0 {
		width = 1
	}
	specials := []float64{0, math.NaN(), math.Inf(1), math.Inf(-1), -1, 1e300, 0.5, 4294967295, 4294967296, 9e18, 1e19, -9.3e18, 2147483648, 31, 32, 1e-40}
	nrows := 4
	vals := make([]float64, nrows*width)
	for i := range vals {
		vals[i] = specials[r.N(len(specials))]
		if r.N(3) == 0 {
			vals[i] = float64(r.Range(-20, 20))
		}
	}
	out := make([]float64, nrows*ng)
	for i := 0; i < nrows; i++ {
		if err := e.Predict(vals[i*width:(i+1)*width], 0, out[i*ng:]); err != nil {
			c.Fail("Predict on a loaded model: %v", err)
		}
	}
	if ng == 1 {
		e.PredictSingle(vals[:width], 1)
	}
	big := 40
	bv := make([]float64, 0, big*width)
	if width <= 20000 {
		for i := 0; i < big/nrows; i++ {
			bv = append(bv, vals...)
		}
		bo := make([]float64, big*ng)
		if err := e.PredictDense(bv, big, width, bo, 0, 2); err != nil {
			c.Fail("PredictDense on a loaded model: %v", err)
		}
	}
	indptr := []int{0}
	var cols []int
	var cv []float64
	for i := 0; i < 3; i++ {
		for f := 0; f < minI(nf, 30); f++ {
			if r.Bool() {
				cols = append(cols, f)
				cv = append(cv, vals[f])
			}
		}
		indptr = append(indptr, len(cols))
	}
	if err := e.PredictCSR(indptr, cols, cv, make([]float64, 3*ng), 1, 1); err != nil {
		c.Fail("PredictCSR on a loaded model: %v", err)
	}
	if !linear {
		lv := e.EnsembleWithLeafPredictions()
		lo := make([]float64, ng*ne)
		for i := 0; i < nrows; i++ {
			if err := lv.Predict(vals[i*width:(i+1)*width], 0, lo); err != nil {
				c.Fail("leaf prediction on a loaded model: %v", err)
			}
			for k, v := range lo {
				// text models number leaves as in the file, so any model can be checked for range only
				if v < 0 || v != math.Trunc(v) {
					c.Fail("leaf prediction %v for tree %d of a loaded model", v, k)
				}
			}
		}
	}
	c.Count("mutants loaded and predicted", 1)
}

func runCorrupt(c *C) {
	if c.Idx < len(bulks) {
		runBulk(c)
		return
	}
	r := c.R
	kind := kinds[c.Idx%len(kinds)]
	o := smallOpt()
	o.maxTrees = 6
	o.maxLeaves = 12
	o.noBig = true
	z := makeZoo(c, kind, o, r.Bool())
	var fs []xgField
	if z.x != nil || z.l != nil {
		fs = xgFields(z)
	}
	n := 60
	saves := 0
	for k := 0; k < n; k++ {
		var b []byte
		var what string
		mode := r.N(20)
		load := z.load
		switch {
		case mode == 0: // bytes of another format
			k2 := kinds[r.N(len(kinds))]
			z2 := makeZoo(c, k2, o, false)
			c.Dump("kind", kind)
			b, what = z2.bytes, "a "+k2+" model given to the "+kind+" loader"
			if r.Bool() {
				b, what = mutBytes(r, b)
			}
		case mode == 1: // noise
			b = make([]byte, r.N(300))
			for i := range b {
				b[i] = byte(r.U64())
				if r.Bool() {
					b[i] = byte(r.Pick('\n', ' ', '=', '0', '{', '"', '(', '.'))
				}
			}
			what = "noise"
		case mode <= 5:
			b, what = mutBytes(r, z.bytes)
			if r.N(3) == 0 {
				b, what = mutBytes(r, b)
				what = "2x " + what
			}
		case kind == "lgtext" || kind == "lgrf":
			if mode < 14 {
				b, what = mutKeyed(r, z.bytes)
			} else {
				b, what = mutNumber(r, z.bytes, r.Range(1, 3))
			}
		case kind == "lgjson":
			if mode < 14 {
				b, what = mutJSON(r, z.bytes)
			} else {
				b, what = mutNumber(r, z.bytes, r.Range(1, 3))
			}
		case fs != nil:
			b, what = mutXG(r, z, fs)
		default:
			if mode == 6 {
				b, what = randPickle(r), "random opcodes"
			} else if mode < 14 {
				em := randSKEmit(r)
				if saves == 0 {
					em.saves = &saves
					z.s.emit(r, em)
					em.saves = nil
				}
				em.mut = &pyMut{at: 1 + r.N(saves), r: r}
				b = z.s.emit(r, em)
				what = em.mut.what
				c.Count("pickled objects changed", 1)
				if r.N(6) == 0 {
					var w string
					b, w = mutPickle(r, b)
					what += " and " + w
				}
			} else {
				b, what = mutPickle(r, z.bytes)
				if r.N(3) == 0 {
					var w string
					b, w = mutPickle(r, b)
					what += " and " + w
				}
			}
		}
		allow := int64(0)
		if kind == "lgjson" {
			allow = jsonCatAllowance(b)
			if allow > 1<<29 && r.N(20) != 0 {
				continue // keep the cost of huge categories down
			}
		}
		what = strings.TrimSpace(what)
		tr := r.Bool() && kind != "lgjson" && kind != "sk"
		c.Dump("mutation", what)
		c.Dump("bytes", b)
		c.Dump("with transformation", tr)
		var e *leaves.Ensemble
		var err error
		before := allocated()
		if m, p := c.Try(func() { e, err = load(b, tr) }); p {
			c.Fail("loading a damaged %s model (%s) panicked: %s", kind, what, m)
		}
		used := allocated() - before
		if lim := int64(64<<20) + 2000*int64(len(b)) + allow; used > lim {
			c.Fail("loading a damaged %s model of %d bytes (%s) allocated %d bytes", kind, len(b), what, used)
		}
		c.Count("mutants", 1)
		if err == nil && e == nil {
			c.Fail("loading a damaged %s model (%s) returned neither a model nor an error", kind, what)
		}
		if err != nil {
			if m, p := c.Try(func() { _ = err.Error() }); p {
				c.Fail("the error of loading a damaged %s model (%s) cannot be read: %s", kind, what, m)
			}
			c.Count("mutants rejected", 1)
			c.Eval(hashBytes(b), true)
			continue
		}
		if m, p := c.Try(func() { usePredict(c, e, r) }); p {
			c.Fail("predicting with a model loaded from damaged %s bytes (%s) panicked: %s", kind, what, m)
		}
		c.Eval(hashBytes(b), true)
		if allow > 1<<28 {
			runtime.GC()
		}
	}
	c.Sample("%s; %d mutants, last: %v", z.describe(), n, c.dump["mutation"])
}

// ---------- truncation, failing readers, chunking ----------

var errInjected = errors.New("injected read error")

// errTimeout is the kind of error a network connection gives.
type errTimeout struct{}

func (errTimeout) Error() string   { return "injected timeout" }
func (errTimeout) Timeout() bool   { return true }
func (errTimeout) Temporary() bool { return true }

// readErr is an error a reader may fail with.
func readErr(r *Rng) error {
	switch r.N(8) {
	case 0:
		return io.ErrUnexpectedEOF
	case 1:
		return io.ErrClosedPipe
	case 2:
		return os.ErrClosed
	case 3:
		return errTimeout{}
	case 4:
		return io.ErrNoProgress
	}
	// not bufio.ErrBufferFull: bufio itself takes it for its own signal and
	// collects line fragments for ever
	return errInjected
}

// hostileReader serves data in chunks and may fail at an offset.
type hostileReader struct {
	data   []byte
	pos    int
	failAt int // -1: never
	err    error
	mode   int // 0 all, 1 one byte, 2 half, 3 random with zero-length reads, 4 data together with the error
	r      *Rng
	zeros  int
	reads  int
	once   bool // fails only once and goes on
}

func (h *hostileReader) Read(p []byte) (int, error) {
	h.reads++
	end := len(h.data)
	fin := io.EOF
	if h.failAt >= 0 && h.failAt < end {
		end, fin = h.failAt, h.err
	}
	if h.pos >= end {
		if h.once {
			h.failAt = -1
		}
		return 0, fin
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := minI(len(p), end-h.pos)
	switch h.mode {
	case 1:
		n = 1
	case 2:
		n = (n + 1) / 2
	case 3:
		if h.zeros < 3 && h.r.N(3) == 0 {
			h.zeros++
			return 0, nil
		}
		h.zeros = 0
		n = h.r.Range(1, n)
	}
	copy(p, h.data[h.pos:h.pos+n])
	h.pos += n
	if h.mode == 4 && h.pos == end {
		if h.once {
			h.failAt = -1
		}
		return n, fin
	}
	return n, nil
}

func (z *zoo) loadReader(rd io.Reader, size int, tr bool) (*leaves.Ensemble, error) {
	if z.kind == "lgjson" {
		return leaves.LGEnsembleFromJSON(rd, false)
	}
	br := bufio.NewReaderSize(rd, size)
	switch z.kind {
	case "lgtext", "lgrf":
		return leaves.LGEnsembleFromReader(br, tr)
	case "xgtree", "xgdart":
		return leaves.XGEnsembleFromReader(br, tr)
	case "xglin":
		return leaves.XGBLinearFromReader(br, tr)
	}
	return leaves.SKEnsembleFromReader(br, false)
}

type fingerprint struct {
	meta string
	out  []float64
}

func takePrint(c *C, e *leaves.Ensemble, rows [][]float64) fingerprint {
	f := fingerprint{meta: fmt.Sprint(e.Name(), e.NEstimators(), e.NFeatures(), e.NRawOutputGroups(), e.NOutputGroups(), e.NLeaves(), e.Transformation().Name())}
	for _, row := range rows {
		f.out = append(f.out, predictRow(c, e, row, 0, e.NOutputGroups())...)
	}
	return f
}

func (f fingerprint) same(g fingerprint) bool {
	return f.meta == g.meta && sameSlice(f.out, g.out) < 0
}

func runTruncate(c *C) {
	r := c.R
	kind := kinds[c.Idx%len(kinds)]
	o := smallOpt()
	o.maxTrees = 5
	o.maxLeaves = 10
	o.noBig = true
	z := makeZoo(c, kind, o, r.Bool())
	tr := z.tr != "" && z.tr != "raw"
	rows := make([][]float64, 6)
	for i := range rows {
		rows[i] = z.row(r)
	}
	base := takePrint(c, z.mustLoad(c, tr), rows)
	L := len(z.bytes)
	// offsets: every one, or a sample that keeps all line and field boundaries
	step := 1
	maxOff := 2500
	if c.Thorough() {
		maxOff = 20000
	}
	if L > maxOff {
		step = L/maxOff + 1
	}
	check := func(what string, off int, rd io.Reader, size int, mustSame bool) {
		var e *leaves.Ensemble
		var err error
		c.Dump("fault", fmt.Sprintf("%s at %d of %d, buffer %d", what, off, L, size))
		if m, p := c.Try(func() { e, err = z.loadReader(rd, size, tr) }); p {
			c.Fail("%s model, %s at byte %d of %d: loading panicked: %s", kind, what, off, L, m)
		}
		if err != nil {
			if mustSame {
				c.Fail("%s model, %s: rejected with %v", kind, what, err)
			}
			c.Count("faults reported as errors", 1)
			return
		}
		var got fingerprint
		if e == nil {
			c.Fail("%s model, %s at byte %d of %d: neither a model nor an error", kind, what, off, L)
		}
		if m, p := c.Try(func() {
			if e.NFeatures() > 100000 || e.NFeatures() < 0 {
				c.Fail("%s model, %s at byte %d of %d: the loaded model has %d features, the complete one %d", kind, what, off, L, e.NFeatures(), z.nfeat)
			}
			fit := make([][]float64, len(rows))
			for i := range rows {
				fit[i] = rows[i]
				for len(fit[i]) < e.NFeatures() {
					fit[i] = append(fit[i][:len(fit[i]):len(fit[i])], 0)
				}
			}
			got = takePrint(c, e, fit)
		}); p {
			c.Fail("%s model, %s at byte %d of %d: predicting panicked: %s", kind, what, off, L, m)
		}
		if !got.same(base) {
			c.Dump("rows", fmt.Sprint(rows))
			c.Fail("%s model, %s at byte %d of %d: loaded without error as a different model: %s %v, the complete file gives %s %v", kind, what, off, L, got.meta, got.out, base.meta, base.out)
		}
		c.Count("faults after the needed bytes", 1)
	}
	shift := 0
	if step > 1 {
		shift = r.N(step)
	}
	for k := 0; k < L; k++ {
		near := step == 1 || k%step == shift || k > L-60
		if !near {
			continue
		}
		check("truncation", k, bytes.NewReader(z.bytes[:k]), 4096, false)
		c.Eval(mix(uint64(c.Idx)<<32|uint64(k)), true)
		if (k+c.Idx)%5 == 0 {
			check("read error", k, &hostileReader{data: z.bytes, failAt: k, err: readErr(r), mode: r.Pick(0, 4), r: r, once: r.N(3) == 0}, r.Pick(16, 64, 4096), false)
			c.Eval(mix(uint64(c.Idx)<<32|uint64(k)|1<<63), true)
			c.Count("read errors", 1)
		}
		if (k+c.Idx)%11 == 0 {
			check("early io.ErrUnexpectedEOF", k, &hostileReader{data: z.bytes, failAt: k, err: io.ErrUnexpectedEOF, mode: r.N(5), r: r}, 32, false)
		}
	}
	c.Count("truncation points", (L+step-1)/step)
	// the same bytes, however they arrive
	for mode := 0; mode <= 4; mode++ {
		for _, size := range []int{16, r.Range(17, 300), 4096, 1 << 16} {
			check(fmt.Sprintf("delivery mode %d with a buffer of %d", mode, size), L, &hostileReader{data: z.bytes, failAt: -1, mode: mode, r: r}, size, true)
			c.Count("deliveries", 1)
			c.Eval(mix(uint64(c.Idx)<<32|uint64(mode)<<20|uint64(size)|1<<62), true)
		}
	}
	// the bytes after those that were read already, from all kinds of sources
	before := z.sibling(c).bytes
	if r.N(4) == 0 {
		before = []byte(r.PickS("\n", "{}", "version=v2\n\n", "I1\n.", "\x00", "PK\x03\x04"))
	}
	all := append(append([]byte(nil), before...), z.bytes...)
	skip := func(rd io.Reader) io.Reader {
		if _, err := io.CopyN(io.Discard, rd, int64(len(before))); err != nil {
			panic(err)
		}
		return rd
	}
	dir := scratch(c)
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "source")
	if err := os.WriteFile(path, all, 0600); err != nil {
		panic(err)
	}
	file, err := os.Open(path)
	if err != nil {
		panic(err)
	}
	defer file.Close()
	pr, pw := io.Pipe()
	piped := make(chan struct{})
	go func() {
		defer close(piped)
		pw.Write(all)
		pw.Close()
	}()
	for _, s := range []struct {
		what string
		rd   io.Reader
	}{
		{"the rest of a file", skip(file)},
		{"the rest of a bytes.Reader", skip(bytes.NewReader(all))},
		{"the rest of a bytes.Buffer", skip(bytes.NewBuffer(append([]byte(nil), all...)))},
		{"the rest of a strings.Reader", skip(strings.NewReader(string(all)))},
		{"the rest of a bufio.Reader", skip(bufio.NewReaderSize(bytes.NewReader(all), 1<<16))},
		{"a section of a file", io.NewSectionReader(file, int64(len(before)), int64(L))},
		{"a pipe", skip(pr)},
		{"several readers one after another", io.MultiReader(bytes.NewReader(z.bytes[:L/3]), strings.NewReader(string(z.bytes[L/3:])))},
		{"a limited reader", io.LimitReader(bytes.NewReader(append(append([]byte(nil), z.bytes...), before...)), int64(L))},
	} {
		check(s.what, L, s.rd, r.Pick(16, 300, 4096), true)
		c.Count("sources", 1)
		c.Eval(mix(uint64(c.Idx)<<32|hashBytes([]byte(s.what))&0xffff|1<<61), true)
	}
	pr.Close()
	<-piped
	c.Sample("%s, %d bytes, step %d", z.describe(), L, step)
}

func init() {
	register(&Property{
		ID: "C12", Level: "exploration", Quick: 8000, Thorough: 200000,
		Rule: "One case = one well-formed model of a supported kind and 60 damaged versions of it (bit flips, moved ranges, boundary values in every named field, wrong counts, dangling, shared and cyclic children, sizes whose product wraps around, cross-format input, noise, reordered and retargeted pickle opcodes, random opcode streams), loaded with and without transformation; an evaluation is one damaged input. Monitors: recovered panics, a CPU/deadlock watchdog, bytes allocated while loading (64 MiB + 2000 x input length, plus one byte per category number for LightGBM JSON), sanity of the metadata, and every prediction entry point on whatever was accepted. The first cases are bulky inputs of 0.3 to 14 MB instead, each repeating or nesting one thing (opcodes, marks, keys, lines, brackets, trees, classes, category sets, chains of nodes): CPU time at most 4 s + 6 us per byte, at most 48 MB + 200 bytes per byte allocated, and the valid ones have to load and predict. Non-trivial: all; distinct: different bytes.",
		Need: []string{"mutants", "mutants rejected", "mutants loaded and predicted", "pickled objects changed", "bulky inputs", "bulky models loaded"},
		Assume: []string{"inputs are derived from generated models by the mutators in p_robust.go, plus noise; not all byte strings",
			"models that declare more than 1e6 features are loaded but not predicted with (CSR rows cost memory for each declared feature)"},
		Run: runCorrupt,
	})
	register(&Property{
		ID: "C13", Level: "fault_enumeration", Quick: 800, Thorough: 10000,
		Rule: "One case = one model of a supported kind; its bytes are cut at every offset (files above 2500 bytes: every k-th offset, rotating, and the last 60), a reader error is injected at every 5th offset, and the complete bytes are delivered in 5 modes (at once, byte by byte, halved, random chunks with zero-length reads, data together with io.EOF) through 4 buffer sizes, and from 9 other sources, most of them read up to the first byte of the model (files, buffers, pipes, sections) with another model before it. An evaluation is one fault or delivery: the load has to report an error or give the same metadata and bit-identical predictions as the complete bytes; a complete delivery has to succeed. Non-trivial: all; distinct: different case and offset.",
		Need: []string{"truncation points", "read errors", "deliveries", "faults reported as errors", "faults after the needed bytes", "sources"},
		Run:  runTruncate,
	})
}
