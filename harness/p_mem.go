package main

import (
	"bufio"
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"time"

	"github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/mat"
	"github.com/dmitryikh/leaves/util"
)

// C21: what the process keeps alive does not grow with the number of calls.

type memState struct {
	bytes, objects int64
	goroutines     int
	fds            int
}

// memNow looks at what is alive after garbage collections (three, so that
// finalizers have run and pools are empty).
func memNow(goroutines int) memState {
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	for i := 0; i < 400 && runtime.NumGoroutine() > goroutines; i++ {
		time.Sleep(time.Millisecond)
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return memState{int64(m.HeapAlloc), int64(m.HeapObjects), runtime.NumGoroutine(), countFds()}
}

// byteLimit and objectLimit are for what the runtime keeps itself
const (
	memBytes   = 40 << 10
	memObjects = 120
)

// memKinds: the ways the library is used; each gives the number of calls of a
// phase and the call.
var memKinds = []string{"rows", "matrices", "refused calls", "views", "metadata", "loads", "loads of one model", "refused loads", "files", "matrix reads", "refused matrix reads", "matrix files", "matrix writes", "helpers"}

func runMemory(c *C) {
	r := c.R
	kind := memKinds[c.Idx%len(memKinds)]
	model := zooKinds[c.Idx/len(memKinds)%len(zooKinds)]
	n, op := memOp(c, kind, model)
	defer os.RemoveAll(filepath.Join(os.Getenv("VERIF_SCRATCH"), fmt.Sprintf("case%d", c.Idx)))
	phase := func(k int) {
		for ; k > 0; k-- {
			op()
		}
		c.Dump("model", "-")
		c.Dump("kind", kind+" "+model)
	}
	base := runtime.NumGoroutine()
	phase(n)
	h0 := memNow(base)
	phase(2 * n)
	h1 := memNow(base)
	grown := func(a, b memState) string {
		switch {
		case b.goroutines > a.goroutines:
			return fmt.Sprintf("%d more goroutines", b.goroutines-a.goroutines)
		case b.fds > a.fds:
			return fmt.Sprintf("%d more open files", b.fds-a.fds)
		case b.bytes-a.bytes > memBytes:
			return fmt.Sprintf("%d more bytes", b.bytes-a.bytes)
		case b.objects-a.objects > memObjects:
			return fmt.Sprintf("%d more objects", b.objects-a.objects)
		}
		return ""
	}
	if first := grown(h0, h1); first != "" {
		// once is not a leak: caches, pools and the runtime's lists fill up.
		// A leak grows with the number of calls, three times as many for each
		// phase; half of that is enough.
		phase(6 * n)
		h2 := memNow(base)
		if more := grown(h1, h2); more != "" {
			if h2.goroutines > h1.goroutines && h1.goroutines > h0.goroutines || h2.fds > h1.fds && h1.fds > h0.fds {
				c.Fail("%s (%s): %d calls whose results were dropped keep %s alive, %d further ones %s", kind, model, 2*n, first, 6*n, more)
			}
			phase(18 * n)
			h3 := memNow(base)
			steady := func(a, b, c, d, limit int64) bool {
				return b-a > limit && 2*(c-b) > 3*(b-a) && 2*(d-c) > 3*(c-b)
			}
			if steady(h0.bytes, h1.bytes, h2.bytes, h3.bytes, memBytes) || steady(h0.objects, h1.objects, h2.objects, h3.objects, memObjects) {
				c.Fail("%s (%s): %d calls whose results were dropped keep %s alive, %d further ones %s, %d further ones %s", kind, model, 2*n, first, 6*n, more, 18*n, grown(h2, h3))
			}
		}
		c.Count("growth that stopped", 1)
	}
	c.Count("use: "+kind, 1)
	if d := h1.bytes - h0.bytes; d > 8<<10 {
		c.Count("more than 8 KB", 1)
	}
	if h1.objects-h0.objects > 30 {
		c.Count("more than 30 objects", 1)
	}
	c.Count("calls measured", 3*n)
	c.Sample("%s (%s): %d calls, alive after them: %d bytes and %d objects more, %d goroutines", kind, model, 2*n, h1.bytes-h0.bytes, h1.objects-h0.objects, h1.goroutines)
	c.Eval(r.U64(), true)
}

var zooKinds = []string{"lgtext", "xgtree", "sk", "lgjson", "xglin", "lgrf", "xgdart"}

func memOp(c *C, kind, model string) (int, func()) {
	r := c.R
	opt := smallOpt()
	must := func(err error) {
		if err != nil {
			c.Fail("%s (%s): %v", kind, model, err)
		}
	}
	z := makeZoo(c, model, opt, true)
	e := z.mustLoad(c, z.tr != "" && r.Bool())
	// rows and matrices go to one model or to several ones in turns
	type target struct {
		*leaves.Ensemble
		z *zoo
	}
	var targets []target
	var models []*zoo
	add := func(z *zoo, e *leaves.Ensemble) {
		models = append(models, z)
		targets = append(targets, target{e, z}, target{e.EnsembleWithRawPredictions(), z})
		if z.kind != "xglin" {
			targets = append(targets, target{e.EnsembleWithLeafPredictions(), z})
		}
	}
	add(z, e)
	for i := c.Idx / len(memKinds) / len(zooKinds) % 3; i > 0; i-- {
		y := makeZoo(c, r.PickS(zooKinds...), opt, true)
		add(y, y.mustLoad(c, y.tr != "" && r.Bool()))
		c.Count("uses of several models", 1)
	}
	maxOut := 0
	for _, t := range targets {
		if t.NOutputGroups() > maxOut {
			maxOut = t.NOutputGroups()
		}
	}
	dir := ""
	if kind == "files" || kind == "matrix files" || kind == "matrix writes" {
		dir = scratch(c)
	}
	number, turn := 0, 0
	// pick takes the models in turns, and any view
	pick := func() target {
		turn++
		for {
			if t := targets[r.N(len(targets))]; t.z == models[turn%len(models)] {
				return t
			}
		}
	}
	// use makes some call on a model or view that is dropped afterwards
	use := func(x *leaves.Ensemble, y *zoo) {
		if r.N(3) == 0 {
			x, _, _ = composeView(r, x, y.kind != "xglin", r.Range(1, 3))
		}
		og, rows, th := x.NOutputGroups(), r.Pick(1, 2, 20), r.Pick(0, 1, 2, 8)
		out := make([]float64, rows*og)
		row := y.row(r)
		switch r.N(8) {
		case 0:
			x.PredictSingle(row, 0)
		case 1:
			_, _, _ = x.NLeaves(), x.Name(), x.Transformation().Name()
		case 2:
			vals := make([]float64, rows*y.nfeat)
			must(x.PredictDense(vals, rows, y.nfeat, out, 0, th))
		case 3:
			must(x.PredictCSR(make([]int, rows+1), nil, nil, out, 0, th))
		case 4:
			if x.Predict(row, 0, out[:og-1]) == nil {
				c.Fail("an output that is too short was accepted")
			}
		case 5:
			// a limit, refused by leaf views
			x.Predict(row, r.Range(1, 3), out)
		case 6:
			x.PredictDense(row, 1, len(row), out, r.Range(1, 3), 0)
			x.PredictCSR(make([]int, rows+1), nil, nil, out, r.Range(1, 3), th)
		default:
			must(x.Predict(row, 0, out))
		}
	}
	switch kind {
	case "rows":
		out := make([]float64, maxOut)
		return 3000, func() {
			t := pick()
			row := t.z.row(r)
			if r.Bool() {
				must(t.Predict(row, 0, out))
			} else {
				t.PredictSingle(row, r.Range(0, 3))
			}
		}
	case "matrices":
		out := make([]float64, 50*maxOut)
		return 800, func() {
			t := pick()
			rows, th := r.Pick(1, 17, 33, 50), r.Pick(0, 1, 2, 3, 8, -1)
			vals := make([]float64, 0, rows*t.z.nfeat)
			indptr, cols := []int{0}, []int(nil)
			for i := 0; i < rows; i++ {
				for f := 0; f < t.z.nfeat; f++ {
					vals = append(vals, float64(r.Range(-50, 50))/4)
					cols = append(cols, f)
				}
				indptr = append(indptr, len(cols))
			}
			if r.Bool() {
				must(t.PredictDense(vals, rows, t.z.nfeat, out, 0, th))
			} else {
				must(t.PredictCSR(indptr, cols, vals, out, 0, th))
			}
		}
	case "refused calls":
		out := make([]float64, 50*maxOut)
		return 3000, func() {
			t := pick()
			var err error
			switch r.N(5) {
			case 0:
				err = t.Predict(make([]float64, t.z.nfeat), 0, nil)
			case 1:
				err = t.Predict(make([]float64, t.z.nfeat-1), 0, out)
			case 2:
				err = t.PredictDense(make([]float64, t.z.nfeat), 40+r.N(1000), t.z.nfeat, out, 0, 4)
			case 3:
				err = t.PredictCSR(make([]int, 60), []int{0}, []float64{1}, out[:1], 0, 4)
			default:
				p := make([]int, 41)
				for i := range p {
					p[i] = 3 * i
				}
				err = t.PredictCSR(p, []int{0}, []float64{1}, out, 0, 4)
			}
			if err == nil {
				c.Fail("a call with impossible arguments succeeded")
			}
		}
	case "views":
		return 2000, func() {
			v, _, _ := composeView(r, e, model != "xglin", r.Range(1, 3))
			use(v, z)
		}
	case "metadata":
		return 3000, func() {
			t := pick()
			_, _, _, _, _ = t.Name(), t.NLeaves(), t.NFeatures(), t.NEstimators(), t.Transformation().Name()
		}
	case "loads":
		return 60, func() {
			y := makeZoo(c, model, opt, true)
			x := y.mustLoad(c, false)
			use(x, y)
		}
	case "loads of one model":
		return 100, func() {
			x := z.mustLoad(c, false)
			use(x, z)
		}
	case "refused loads":
		return 80, func() {
			if x, err := z.load(z.bytes[:r.N(len(z.bytes)*3/4)], r.Bool()); err == nil && x == nil {
				c.Fail("neither an ensemble nor an error")
			}
			b := append([]byte{}, z.bytes...)
			for i := r.Range(1, 4); i > 0; i-- {
				b[r.N(len(b))] ^= byte(1 << uint(r.N(8)))
			}
			if model != "sk" && model != "lgjson" {
				z.load(b, false)
			}
		}
	case "files":
		return 40, func() {
			number++
			p := filepath.Join(dir, fmt.Sprintf("model%d", number))
			must(os.WriteFile(p, z.bytes, 0600))
			var x *leaves.Ensemble
			var err error
			switch model {
			case "lgtext", "lgrf":
				x, err = leaves.LGEnsembleFromFile(p, false)
			case "xgtree", "xgdart":
				x, err = leaves.XGEnsembleFromFile(p, false)
			case "xglin":
				x, err = leaves.XGBLinearFromFile(p, false)
			case "sk":
				x, err = leaves.SKEnsembleFromFile(p, false)
			default:
				x = e
			}
			must(err)
			use(x, z)
			if err := os.Remove(p); err != nil {
				panic(err)
			}
			if x, err := leaves.LGEnsembleFromFile(p, false); err == nil || x != nil {
				c.Fail("a file that does not exist was loaded")
			}
		}
	case "matrix reads", "refused matrix reads", "matrix files":
		bad := kind == "refused matrix reads"
		return 150, func() {
			number++
			var b strings.Builder
			rows, cols, way := r.Range(2, 20), r.Range(1, 10), r.N(3)
			for i := 0; i < rows; i++ {
				if way != 0 {
					fmt.Fprint(&b, i)
				}
				for j := 0; j < cols; j++ {
					v := float64(r.U64()>>20) / 1024
					if way != 0 {
						fmt.Fprintf(&b, " %d:%v", j, v)
					} else {
						if j > 0 {
							b.WriteByte(',')
						}
						fmt.Fprint(&b, v)
					}
				}
				if bad && i == rows-1 {
					b.WriteString(r.PickS("x", ":", " x:1", " 9"))
					if way == 0 {
						b.WriteByte('x')
					}
				}
				b.WriteByte('\n')
			}
			var err error
			if dir != "" {
				p := filepath.Join(dir, fmt.Sprintf("matrix%d", number))
				if err := os.WriteFile(p, []byte(b.String()), 0600); err != nil {
					panic(err)
				}
				switch way {
				case 0:
					_, err = mat.DenseMatFromCsvFile(p, 0, false, ",", 0)
				case 1:
					_, err = mat.DenseMatFromLibsvmFile(p, 0, true)
				default:
					_, err = mat.CSRMatFromLibsvmFile(p, 0, true)
				}
				if err := os.Remove(p); err != nil {
					panic(err)
				}
			} else {
				rd := bufio.NewReader(strings.NewReader(b.String()))
				switch way {
				case 0:
					_, err = mat.DenseMatFromCsv(rd, 0, false, ",", 0)
				case 1:
					_, err = mat.DenseMatFromLibsvm(rd, 0, true)
				default:
					_, err = mat.CSRMatFromLibsvm(rd, 0, true)
				}
			}
			if bad && err == nil {
				c.Fail("a malformed matrix was accepted: %q", b.String())
			} else if !bad {
				must(err)
			}
		}
	case "matrix writes":
		return 150, func() {
			number++
			rows, cols := r.Range(1, 10), r.Range(1, 10)
			vals := make([]float64, rows*cols)
			for i := range vals {
				vals[i] = float64(r.U64()>>20) / 1024
			}
			m, err := mat.DenseMatFromArray(vals, rows, cols)
			must(err)
			var b bytes.Buffer
			must(m.WriteStr(&b, r.PickS(",", ";")))
			if r.N(3) == 0 {
				p := filepath.Join(dir, fmt.Sprintf("out%d", number))
				must(m.ToCsvFile(p, ","))
				if err := os.Remove(p); err != nil {
					panic(err)
				}
			}
			if err := m.ToCsvFile(filepath.Join(dir, fmt.Sprintf("no%d", number), "dir"), ","); err == nil {
				c.Fail("a file in a directory that does not exist was written")
			}
		}
	}
	return 800, func() {
		number++
		k := fmt.Sprintf("key%d", number)
		v := float64(r.U64()>>20) / 1024
		p, err := util.ReadParamsUntilBlank(bufio.NewReader(strings.NewReader(fmt.Sprintf("%s=%v %v\nn=%d\n\n", k, v, v, number))))
		must(err)
		f, err := p.ToFloat64Slice(k)
		must(err)
		if len(f) != 2 || f[0] != v {
			c.Fail("%v instead of %v", f, v)
		}
		if _, err := p.ToInt("x" + k); err == nil {
			c.Fail("a missing key was found")
		}
		if n, err := p.ToInt("n"); err != nil || n != number {
			c.Fail("%d instead of %d (%v)", n, number, err)
		}
		bs := util.ConstructBitset([]int{r.N(100), r.N(1000), number % 500})
		util.FirstNonZeroBit(bs)
		util.NumberOfSetBits(bs)
		util.AlmostEqualFloat64Slices(f, []float64{v, math.NaN()}, 1)
		util.SoftmaxFloat64Slice(f, make([]float64, 2), 0)
	}
}

func init() {
	need := []string{"calls measured", "uses of several models"}
	for _, k := range memKinds {
		need = append(need, "use: "+k)
	}
	register(&Property{
		ID: "C21", Level: "exploration", Quick: 1400, Thorough: 28000,
		Rule:   "One case = one way of using the library (single rows, dense and CSR matrices with threads, refused calls, views, metadata, loads of new models, of the same model and of damaged ones, loads from files, matrix reads, refused reads, files and writes, helpers) with one model format. The same kind of call, with other values each time and all results dropped, is made some hundred to thousand times; then what is alive after garbage collections (heap bytes and objects, goroutines, open files) is compared before and after twice as many calls, and where it grew by more than 40 KB or 120 objects, after six and eighteen times as many again: growth in proportion to the calls (half of it is enough) is a violation, growth that stops is not. An evaluation is one such comparison; all are non-trivial; distinct: different cases.",
		Need:   need,
		Assume: []string{"a leak of less than 40 KB and 120 objects in the calls of a case is not seen"},
		Run:    runMemory,
	})
}
