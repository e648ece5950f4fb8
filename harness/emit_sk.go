package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"strconv"
)

// ---------- a pickle (protocol 0) writer ----------

type pyNone struct{}
type pyBool bool
type pyInt int
type pyFloat float64
type pyStr struct{ s string } // latin-1 text: one byte per character
type pyTuple struct{ items []interface{} }
type pyList struct{ items []interface{} }
type pyDict struct{ items []interface{} } // key, value, ...
type pyGlobal struct{ mod, name string }
type pyReduce struct {
	fn   interface{}
	args *pyTuple
}
type pyBuild struct {
	obj   interface{}
	state interface{}
}

type pickler struct {
	b      bytes.Buffer
	memo   map[interface{}]int
	next   int
	useInt bool // I instead of L for integers
	newEsc bool // python >= 3.8 escapes \0 \r \x1a too
	noMemo bool // no PUT/GET at all (pickletools.optimize like)
	intern map[string]*pyStr
	memoIx func(int) int
	count  int
	mut    *pyMut
}

// pyRaw is written as it is.
type pyRaw string

// pyCycles are objects that contain themselves.
var pyCycles = []string{
	"(lp987651\ng987651\na",
	"(dp987652\nVx\ng987652\ns",
	"(lp987653\n(g987653\ntp987654\na0g987654\n",
	"(lp987655\n(dp987656\nVx\ng987655\nsVy\ng987656\nsa",
	"(dp987657\nVn_estimators\ng987657\nsVestimators_\ng987657\nsVnodes\ng987657\ns",
	"(lp987658\n(g987658\ng987658\ng987658\ntp987659\na0(lp987660\ng987659\nag987660\na",
}

// pyBomb is a tuple of two tuples of two tuples and so on, 26 times.
func pyBomb() string {
	s := "(I1\nI2\ntp987600\n"
	for i := 0; i < 26; i++ {
		s += fmt.Sprintf("0(g%d\ng%d\ntp%d\n", 987600+i, 987600+i, 987601+i)
	}
	return s
}

// pyMut damages the n-th object that is saved.
type pyMut struct {
	at   int
	r    *Rng
	what string
}

func (m *pyMut) apply(o interface{}) interface{} {
	r := m.r
	was := fmt.Sprintf("%T", o)
	other := func() interface{} {
		switch r.N(14) {
		case 0:
			return pyNone{}
		case 12, 13:
			if r.N(8) == 0 {
				return pyRaw(pyBomb())
			}
			return pyRaw(pyCycles[r.N(len(pyCycles))])
		case 1:
			return pyInt(r.Pick(0, 1, -1, 2, 8, 1<<31, -1<<31, 1<<62))
		case 2:
			return pyFloat(r.PickF(0, 1, -1, math.NaN(), math.Inf(1)))
		case 3:
			return &pyStr{r.PickS("", "<", "f8", "i8", "latin1", "x", "\n", "12345678")}
		case 4:
			return &pyTuple{}
		case 5:
			return &pyList{}
		case 6:
			return &pyDict{}
		case 7:
			return &pyGlobal{"numpy", "ndarray"}
		case 8:
			return pyBool(r.Bool())
		case 9:
			return &pyReduce{&pyGlobal{"_codecs", "encode"}, tup(&pyStr{r.PickS("", "a", "12345678", "123456789")}, "latin1")}
		case 10:
			return &pyTuple{[]interface{}{pyInt(1), pyInt(r.Pick(0, 1, -1, 1<<40))}}
		default:
			return &pyReduce{&pyGlobal{"numpy", "dtype"}, tup(r.PickS("f8", "i8", "V56", "O8", ""), pyInt(0), pyInt(1))}
		}
	}
	items := func(l []interface{}) []interface{} {
		n := append([]interface{}(nil), l...)
		if len(n) == 0 {
			return append(n, other())
		}
		i := r.N(len(n))
		switch r.N(5) {
		case 0: // one less
			n = append(n[:i], n[i+1:]...)
		case 1: // the last ones missing
			n = n[:i]
		case 2: // one more
			n = append(n, n[i])
		case 3:
			n[i] = other()
		default:
			j := r.N(len(n))
			n[i], n[j] = n[j], n[i]
		}
		return n
	}
	var q interface{}
	if r.N(5) == 0 {
		q = other()
	} else {
		switch x := o.(type) {
		case string:
			q = &pyStr{x[:r.N(len(x)+1)]}
		case *pyStr:
			switch n := len(x.s); r.N(3) {
			case 0:
				q = &pyStr{x.s[:r.N(n+1)]}
			case 1:
				q = &pyStr{""}
			default:
				q = &pyStr{x.s + r.PickS("x", "\x00", "12345678", x.s)}
			}
		case pyInt:
			q = pyInt(r.Pick(0, -1, 1, int(x)+1, int(x)-1, -int(x), 2*int(x), 1<<31, 1<<32, 1<<40, 1<<62, -1<<63))
		case pyFloat:
			q = pyFloat(r.PickF(0, -1, math.NaN(), math.Inf(1), math.Inf(-1), 1e308))
		case *pyTuple:
			q = &pyTuple{items(x.items)}
		case *pyList:
			q = &pyList{items(x.items)}
		case *pyDict:
			n := append([]interface{}(nil), x.items...)
			if len(n) > 0 {
				i := r.N(len(n)/2) * 2
				switch r.N(3) {
				case 0:
					n = append(n[:i], n[i+2:]...)
				case 1:
					n[i+1] = other()
				default:
					j := r.N(len(n)/2) * 2
					n[i+1], n[j+1] = n[j+1], n[i+1]
				}
			}
			q = &pyDict{n}
		case *pyGlobal:
			q = &pyGlobal{x.mod, r.PickS("_reconstructor", "_reconstruct", "scalar", "ndarray", "dtype", "encode", "Tree", "DecisionTreeRegressor", "LogOddsEstimator", "PriorProbabilityEstimator", "GradientBoostingClassifier", "")}
		case *pyReduce:
			if r.Bool() {
				q = &pyReduce{x.fn, &pyTuple{items(x.args.items)}}
			} else {
				q = x.args
			}
		case *pyBuild:
			switch r.N(4) {
			case 0:
				q = x.obj
			case 1:
				q = &pyBuild{x.obj, other()}
			case 2:
				q = &pyBuild{&pyBuild{x.obj, x.state}, x.state}
			default:
				q = &pyBuild{other(), x.state}
			}
		default:
			q = other()
		}
	}
	m.what = fmt.Sprintf("object %d, a %s, changed to %T %.40v", m.at, was[5:], q, q)
	return q
}

func (p *pickler) put(o interface{}) {
	if p.noMemo {
		return
	}
	k := p.memoIx(p.next)
	p.memo[o] = k
	p.next++
	fmt.Fprintf(&p.b, "p%d\n", k)
}

func (p *pickler) get(o interface{}) bool {
	if p.noMemo {
		return false
	}
	if k, ok := p.memo[o]; ok {
		fmt.Fprintf(&p.b, "g%d\n", k)
		return true
	}
	return false
}

func (p *pickler) str(s string) *pyStr {
	if v, ok := p.intern[s]; ok {
		return v
	}
	v := &pyStr{s}
	p.intern[s] = v
	return v
}

func pyFloatRepr(v float64) string {
	switch {
	case math.IsNaN(v):
		return "nan"
	case math.IsInf(v, 1):
		return "inf"
	case math.IsInf(v, -1):
		return "-inf"
	}
	s := strconv.FormatFloat(v, 'g', -1, 64)
	return s
}

func (p *pickler) save(o interface{}) {
	p.count++
	if p.mut != nil && p.count == p.mut.at {
		o = p.mut.apply(o)
	}
	switch x := o.(type) {
	case pyRaw:
		p.b.WriteString(string(x))
	case pyNone:
		p.b.WriteByte('N')
	case pyBool:
		if x {
			p.b.WriteString("I01\n")
		} else {
			p.b.WriteString("I00\n")
		}
	case pyInt:
		if p.useInt {
			fmt.Fprintf(&p.b, "I%d\n", int(x))
		} else {
			fmt.Fprintf(&p.b, "L%dL\n", int(x))
		}
	case pyFloat:
		p.b.WriteString("F" + pyFloatRepr(float64(x)) + "\n")
	case string:
		p.save(p.str(x))
	case *pyStr:
		if p.get(x) {
			return
		}
		p.b.WriteByte('V')
		for i := 0; i < len(x.s); i++ {
			c := x.s[i]
			switch {
			case c == '\\':
				p.b.WriteString("\\u005c")
			case c == '\n':
				p.b.WriteString("\\u000a")
			case p.newEsc && (c == 0 || c == '\r' || c == 0x1a):
				fmt.Fprintf(&p.b, "\\u00%02x", c)
			default:
				p.b.WriteByte(c)
			}
		}
		p.b.WriteByte('\n')
		p.put(x)
	case *pyTuple:
		if p.get(x) {
			return
		}
		p.b.WriteByte('(')
		for _, it := range x.items {
			p.save(it)
		}
		p.b.WriteByte('t')
		if len(x.items) > 0 {
			p.put(x)
		}
	case *pyList:
		p.b.WriteString("(l")
		p.put(x)
		for _, it := range x.items {
			p.save(it)
			p.b.WriteByte('a')
		}
	case *pyDict:
		p.b.WriteString("(d")
		p.put(x)
		for i := 0; i < len(x.items); i += 2 {
			p.save(x.items[i])
			p.save(x.items[i+1])
			p.b.WriteByte('s')
		}
	case *pyGlobal:
		if p.get(x) {
			return
		}
		fmt.Fprintf(&p.b, "c%s\n%s\n", x.mod, x.name)
		p.put(x)
	case *pyReduce:
		if p.get(x) {
			return
		}
		p.save(x.fn)
		p.save(x.args)
		p.b.WriteByte('R')
		p.put(x)
	case *pyBuild:
		if p.get(x) {
			return
		}
		p.save(x.obj)
		// the memo refers to the object as it was created by REDUCE
		if k, ok := p.memo[x.obj]; ok && !p.noMemo {
			p.memo[x] = k
		}
		p.save(x.state)
		p.b.WriteByte('b')
	default:
		panic(fmt.Sprintf("pickler: %T", o))
	}
}

func tup(items ...interface{}) *pyTuple { return &pyTuple{items} }

// skModel is an abstract GradientBoostingClassifier.
type skModel struct {
	*Model
	LR       float64
	Prior    []float64
	NClasses int
	MaxFeat  int // max_features_: features considered per split
	Numbered []int
	classes  []int
}

func genSK(r *Rng, o genOpt) *skModel {
	o.style = "sk"
	o.cat = 0
	o.missing = false
	if o.groups == 0 {
		o.groups = r.Pick(1, 1, 3, 3, 4, 5)
	} else if o.groups == 2 {
		o.groups = 3 // two classes have one tree per iteration
	}
	m := genModel(r, o)
	s := &skModel{Model: m, NClasses: m.Groups}
	if m.Groups == 1 {
		s.NClasses = 2
	}
	s.LR = r.PickF(0.125, 0.5, 1, 2, 0.0625)
	if !m.Exact {
		s.LR = r.PickF(0.1, 0.05, 0.3)
		if r.N(8) == 0 {
			s.LR = r.PickF(0, 1e-310, 5e-324, 1e-300, 1e-17, 1e6, 1e300)
		}
	}
	for k := 0; k < m.Groups; k++ {
		if m.Exact {
			s.Prior = append(s.Prior, dyadic(r))
		} else {
			s.Prior = append(s.Prior, r.Norm())
		}
	}
	if len(m.Trees) > 1 && r.N(4) == 0 {
		// equal trees, or trees that differ in their splits only
		for n := r.Range(1, 4); n > 0; n-- {
			i := r.Range(1, len(m.Trees)-1)
			m.Trees[i] = m.Trees[r.N(i)]
			if r.Bool() && len(m.Trees[i].Nodes) > 0 {
				q := *m.Trees[i]
				q.Nodes = append([]TNode(nil), q.Nodes...)
				q.Nodes[r.N(len(q.Nodes))].Feat = r.N(m.NFeat)
				m.Trees[i] = &q
			}
		}
	}
	s.MaxFeat = m.NFeat
	if m.NFeat > 1 && r.N(3) == 0 {
		s.MaxFeat = r.Range(1, m.NFeat-1)
	}
	for k := 0; k < s.NClasses; k++ {
		s.classes = append(s.classes, k)
	}
	return s
}

func (s *skModel) refSK(row []float64, iters int, ev map[string]int) refResult {
	if iters <= 0 || iters > s.Iters() {
		iters = s.Iters()
	}
	res := refResult{Raw: append([]float64(nil), s.Prior...), Hash: 11}
	for k := range s.Prior {
		res.Abs += absFin(s.Prior[k])
	}
	for i := 0; i < iters*s.Groups; i++ {
		l, h := s.Trees[i].leafOf(row, skGoesLeft, ev)
		res.Leaf = append(res.Leaf, l)
		res.Raw[i%s.Groups] += s.Trees[i].Leaves[l] * s.LR
		res.Abs += absFin(s.Trees[i].Leaves[l] * s.LR)
		res.Hash = mix(res.Hash ^ h)
	}
	return res
}

func le8(v uint64) string {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], v)
	return string(b[:])
}

func be8(v uint64) string {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], v)
	return string(b[:])
}

type skEmit struct {
	useInt, newEsc, noMemo, shuffle, bigEndian, randomMemo bool
	loop                                                   bool
	nEst                                                   int // n_estimators that is written (0: the real one, -1: none)
	fitted                                                 int // n_estimators_ that is written (0: none)
	fortran, fortran2, bigInts, shareBig                   bool
	noNFeat                                                bool  // old pickles have only max_features_
	share                                                  bool  // objects with the same content are one object
	estShape                                               []int // shape of the table of estimators (nil: iterations x groups)
	mut                                                    *pyMut
	saves                                                  *int
	// node edits an inner node as it is written: left and right child, feature
	node func(tree, id, pos, total int, l, rt, f uint64) (uint64, uint64, uint64)
}

func randSKEmit(r *Rng) skEmit {
	return skEmit{useInt: r.N(3) == 0, newEsc: false, noMemo: r.N(6) == 0, shuffle: r.N(3) == 0, bigEndian: r.N(6) == 0, shareBig: r.Bool(), randomMemo: r.N(6) == 0, share: r.N(3) == 0}
}

func (s *skModel) emit(r *Rng, e skEmit) []byte {
	p := &pickler{memo: map[interface{}]int{}, useInt: e.useInt, newEsc: e.newEsc, noMemo: e.noMemo, intern: map[string]*pyStr{}, mut: e.mut}
	p.memoIx = func(i int) int { return i }
	if e.randomMemo {
		p.memoIx = func(i int) int { return i*7 + 100 }
	}
	reconstructor := &pyGlobal{"copy_reg", "_reconstructor"}
	object := &pyGlobal{"__builtin__", "object"}
	npReconstruct := &pyGlobal{"numpy.core.multiarray", "_reconstruct"}
	npScalar := &pyGlobal{"numpy.core.multiarray", "scalar"}
	ndarray := &pyGlobal{"numpy", "ndarray"}
	dtypeG := &pyGlobal{"numpy", "dtype"}
	encode := &pyGlobal{"_codecs", "encode"}
	shared := map[string]interface{}{}
	share := func(key string, f func() interface{}) interface{} {
		if !e.share {
			return f()
		}
		if o, ok := shared[key]; ok {
			return o
		}
		o := f()
		shared[key] = o
		return o
	}
	rawBytes := func(b string) interface{} {
		return share("bytes "+b, func() interface{} { return &pyReduce{encode, tup(&pyStr{b}, "latin1")} })
	}
	mkDtype := func(name, endian string, size, align, flags int, fields ...interface{}) *pyBuild {
		st := []interface{}{pyInt(3), endian}
		if len(fields) == 2 {
			st = append(st, pyNone{}, fields[0], fields[1])
		} else {
			st = append(st, pyNone{}, pyNone{}, pyNone{})
		}
		st = append(st, pyInt(size), pyInt(align), pyInt(flags))
		return &pyBuild{&pyReduce{dtypeG, tup(name, pyInt(0), pyInt(1))}, &pyTuple{st}}
	}
	i8 := mkDtype("i8", "<", -1, -1, 0)
	f8 := mkDtype("f8", "<", -1, -1, 0)
	o8 := mkDtype("O8", "|", -1, -1, 63)
	nodeNames := []string{"left_child", "right_child", "feature", "threshold", "impurity", "n_node_samples", "weighted_n_node_samples"}
	var names []interface{}
	var fdict []interface{}
	for i, n := range nodeNames {
		names = append(names, n)
		t := interface{}(i8)
		if n == "threshold" || n == "impurity" || n == "weighted_n_node_samples" {
			t = f8
		}
		fdict = append(fdict, n, tup(t, pyInt(8*i)))
	}
	v56 := mkDtype("V56", "|", 56, 1, 16, &pyTuple{names}, &pyDict{fdict})
	bzero := &pyReduce{encode, tup("b", "latin1")}
	array := func(shape []int, dt interface{}, data interface{}) interface{} {
		var sh []interface{}
		wide := 0
		for _, v := range shape {
			if v > 1 {
				wide++
			}
			sh = append(sh, pyInt(v))
		}
		return &pyBuild{
			&pyReduce{npReconstruct, tup(ndarray, tup(pyInt(0)), bzero)},
			tup(pyInt(1), &pyTuple{sh}, dt, pyBool(e.fortran || e.fortran2 && wide > 1), data),
		}
	}
	instance := func(mod, name string, st *pyDict) interface{} {
		if e.shuffle {
			n := len(st.items) / 2
			q := r.Perm(n)
			out := make([]interface{}, 0, len(st.items))
			for _, k := range q {
				out = append(out, st.items[2*k], st.items[2*k+1])
			}
			st.items = out
		}
		return &pyBuild{&pyReduce{reconstructor, tup(&pyGlobal{mod, name}, object, pyNone{})}, st}
	}
	scalarI8 := func(v int) interface{} {
		return &pyReduce{npScalar, tup(i8, rawBytes(le8(uint64(v))))}
	}
	// big-endian arrays carry a dtype of their own or share one
	var bigShared *pyBuild
	bigF8 := func() *pyBuild {
		if !e.shareBig {
			return mkDtype("f8", ">", -1, -1, 0)
		}
		if bigShared == nil {
			bigShared = mkDtype("f8", ">", -1, -1, 0)
		}
		return bigShared
	}
	floats := func(shape []int, vs []float64) interface{} {
		var b bytes.Buffer
		dt := interface{}(f8)
		for _, v := range vs {
			if e.bigEndian {
				b.WriteString(be8(math.Float64bits(v)))
			} else {
				b.WriteString(le8(math.Float64bits(v)))
			}
		}
		if e.bigEndian {
			dt = bigF8()
		}
		return share(fmt.Sprint("floats ", shape, b.String()), func() interface{} { return array(shape, dt, rawBytes(b.String())) })
	}

	// parameters of the training that predictions do not depend on
	odd := func() interface{} {
		switch r.N(4) {
		case 0:
			return pyInt(r.Pick(0, 1, 2, 3, 5, -1, 1000000))
		case 1:
			return pyFloat(r.PickF(0.1, 0.5, 1, 1e-7))
		case 2:
			return r.PickS("sqrt", "log2", "auto")
		}
		return pyNone{}
	}
	tree := func(ti int, t *Tree) interface{} {
		nn := len(t.Nodes)
		total := nn + len(t.Leaves)
		// depth first numbering (sklearn's own) or a random one with root 0
		pos := map[int]int{}
		var order []int
		var dfs func(id int)
		dfs = func(id int) {
			pos[id] = len(order)
			order = append(order, id)
			if id >= 0 {
				dfs(t.Nodes[id].L)
				dfs(t.Nodes[id].R)
			}
		}
		if nn == 0 {
			dfs(-1)
		} else {
			dfs(0)
		}
		if total > 1 && r.N(3) == 0 {
			// best-first growth gives other numberings (max_leaf_nodes)
			q := r.Perm(total - 1)
			no := make([]int, total)
			no[0] = order[0]
			for i, k := range q {
				no[i+1] = order[k+1]
			}
			order = no
			for i, id := range order {
				pos[id] = i
			}
		}
		var nb bytes.Buffer
		values := make([]float64, total)
		for i, id := range order {
			if id < 0 {
				nb.WriteString(le8(math.MaxUint64))
				nb.WriteString(le8(math.MaxUint64))
				nb.WriteString(le8(math.MaxUint64 - 1))
				nb.WriteString(le8(math.Float64bits(-2)))
				values[i] = t.Leaves[^id]
			} else {
				n := &t.Nodes[id]
				nl, nr, nf := uint64(pos[n.L]), uint64(pos[n.R]), uint64(n.Feat)
				if e.node != nil {
					nl, nr, nf = e.node(ti, id, i, total, nl, nr, nf)
				}
				nb.WriteString(le8(nl))
				nb.WriteString(le8(nr))
				nb.WriteString(le8(nf))
				nb.WriteString(le8(math.Float64bits(n.Thr)))
				values[i] = 555.5 + float64(i) // inner nodes carry values too
			}
			// values that are not used, so any bytes will do: text that looks like an escape, line ends, quotes
			nb.WriteString(r.PickS(le8(math.Float64bits(0.25)), le8(math.Float64bits(0.25)), "\\u000a\\\\", "\\\\u005c0", "\\u0000\n\r", "u000a\\\\\\", "\x00\x1a\n\r\x00.p0", "\\u005cu0"))
			nb.WriteString(le8(uint64(r.Pick(10, 10, 0, 1, 2, 1<<31, -1))))
			nb.WriteString(le8(math.Float64bits(r.PickF(10, 10, 0, 1e-9, 0.5, 1e300, math.NaN()))))
		}
		tr := &pyBuild{
			&pyReduce{&pyGlobal{"sklearn.tree._tree", "Tree"}, tup(pyInt(s.NFeat), array([]int{1}, i8, rawBytes(le8(1))), pyInt(1))},
			&pyDict{[]interface{}{
				"max_depth", pyInt(r.Pick(3, total/2)),
				"node_count", pyInt(total),
				"nodes", array([]int{total}, v56, rawBytes(nb.String())),
				"values", floats([]int{total, 1, 1}, values),
			}},
		}
		return instance("sklearn.tree.tree", "DecisionTreeRegressor", &pyDict{[]interface{}{
			"criterion", "friedman_mse",
			"splitter", "best",
			"max_depth", odd(),
			"min_samples_split", odd(),
			"max_features", odd(),
			"random_state", odd(),
			"n_features_", pyInt(s.NFeat),
			"n_outputs_", pyInt(1),
			"classes_", pyNone{},
			"n_classes_", scalarI8(1),
			"max_features_", pyInt(s.MaxFeat),
			"tree_", tr,
			"presort", pyBool(false),
		}})
	}
	var ests []interface{}
	for ti, t := range s.Trees {
		key := fmt.Sprintf("tree %p", t)
		if e.node != nil {
			key = fmt.Sprintf("tree %d", ti)
		}
		ests = append(ests, share(key, func() interface{} { return tree(ti, t) }))
	}
	nEst := s.Iters()
	if e.nEst != 0 {
		nEst = e.nEst
		if nEst < 0 {
			nEst, ests = 0, nil
		}
	}
	classDtype := i8
	if e.bigInts {
		classDtype = mkDtype("i8", ">", -1, -1, 0)
	}
	var cb bytes.Buffer
	for _, v := range s.classes {
		cb.WriteString(le8(uint64(v)))
	}
	var init interface{}
	if s.Groups == 1 {
		dt, b := f8, le8(math.Float64bits(s.Prior[0]))
		if e.bigEndian {
			dt, b = bigF8(), be8(math.Float64bits(s.Prior[0]))
		}
		init = instance("sklearn.ensemble.gradient_boosting", "LogOddsEstimator", &pyDict{[]interface{}{
			"prior", &pyReduce{npScalar, tup(dt, rawBytes(b))}}})
	} else {
		init = instance("sklearn.ensemble.gradient_boosting", "PriorProbabilityEstimator", &pyDict{[]interface{}{
			"priors", floats([]int{s.Groups}, s.Prior)}})
	}
	loss := instance("sklearn.ensemble.gradient_boosting", "BinomialDeviance", &pyDict{[]interface{}{"K", pyInt(s.Groups)}})
	var lr interface{} = pyFloat(s.LR)
	if s.LR == math.Trunc(s.LR) && s.LR <= 1e6 && r.Bool() {
		lr = pyInt(s.LR) // learning_rate=1
	}
	estShape := []int{len(ests) / s.Groups, s.Groups}
	if e.estShape != nil {
		estShape = e.estShape
	}
	attrs := []interface{}{
		"n_estimators", pyInt(nEst),
		"learning_rate", lr,
		"loss", "deviance",
		"criterion", r.PickS("friedman_mse", "mse", "mae"),
		"min_samples_split", pyInt(2),
		"subsample", pyFloat(r.PickF(1, 1, 0.5, 0.8, 0.01)),
		"max_features", odd(),
		"max_depth", odd(),
		"max_leaf_nodes", odd(),
		"min_impurity_split", odd(),
		"random_state", odd(),
		"verbose", pyInt(r.N(3)),
		"warm_start", pyBool(r.N(3) == 0),
		"presort", r.PickS("auto", "true"),
		"n_features_", pyInt(s.NFeat),
		"classes_", array([]int{s.NClasses}, classDtype, rawBytes(cb.String())),
		"n_classes_", pyInt(s.NClasses),
		"loss_", loss,
		"max_features_", pyInt(s.MaxFeat),
		"init_", init,
		"estimators_", array(estShape, o8, &pyList{ests}),
		"train_score_", floats([]int{s.Iters()}, make([]float64, s.Iters())),
		"_sklearn_version", "0.19.1",
	}
	if e.fitted != 0 {
		attrs = append(attrs, "n_iter_no_change", pyInt(5), "validation_fraction", pyFloat(0.1), "tol", pyFloat(1e-4), "n_estimators_", pyInt(e.fitted))
	}
	if e.noNFeat {
		for i := 0; i < len(attrs); i += 2 {
			if attrs[i] == "n_features_" {
				attrs = append(attrs[:i:i], attrs[i+2:]...)
				break
			}
		}
	}
	top := instance("sklearn.ensemble.gradient_boosting", "GradientBoostingClassifier", &pyDict{attrs})
	p.save(top)
	if e.saves != nil {
		*e.saves = p.count
	}
	p.b.WriteByte('.')
	return p.b.Bytes()
}

func (s *skModel) describe() string {
	return fmt.Sprintf("%s; classes=%d lr=%v max_features_=%d", s.Model.describe(), s.NClasses, s.LR, s.MaxFeat)
}
