package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/transformation"
)

// libGoroutines returns the number of goroutines that have a frame of the
// library on their stack, and whether all of them are blocked.
func libGoroutines() (n int, blocked bool, dump string) {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "dmitryikh/leaves") {
			n++
			dump += g + "\n\n"
		}
	}
	return n, allLibBlocked(string(buf)), dump
}

// settle waits until no goroutine is inside the library; it reports the ones
// that stay there blocked (a goroutine that merely has not been scheduled is
// given time).
func settle(c *C, what string) {
	for i := 0; i < 3000; i++ {
		n, blocked, dump := libGoroutines()
		if n == 0 {
			return
		}
		if i > 200 && blocked {
			c.Dump("goroutines", dump)
			c.Fail("%s: after the call returned %d goroutines are still blocked inside the library:\n%s", what, n, trunc(dump, 1500))
		}
		time.Sleep(time.Millisecond)
	}
	_, _, dump := libGoroutines()
	c.Dump("goroutines", dump)
	c.Fail("%s: after the call returned goroutines still run inside the library:\n%s", what, trunc(dump, 1500))
}

type concTarget struct {
	nm   string
	ng   int
	nEst int
	want []float64
	get  func(e *leaves.Ensemble) *leaves.Ensemble
}

func runConc(c *C) {
	r := c.R
	kind := kinds[c.Idx%len(kinds)]
	o := smallOpt()
	if r.N(4) == 0 {
		o.maxTrees = 40
	}
	o.exact = r.N(4) == 0
	o.noBig = true
	z := makeZoo(c, kind, o, r.Bool())
	useTr := z.tr != "" && z.tr != "raw"
	old := runtime.GOMAXPROCS(r.Pick(2, 3, 4, 8))
	defer runtime.GOMAXPROCS(old)

	// expectations come from a separately loaded instance, so that the shared
	// one meets its first use under concurrency
	e2 := z.mustLoad(c, useTr)
	n := r.Pick(3, 17, 40, 100, 200)
	rows := make([][]float64, n)
	for i := range rows {
		rows[i] = z.row(r)
	}
	width := z.nfeat + r.Pick(0, 0, 2)
	vals := flatten(rows, width, r)
	indptr, cols, cvals := z.toCSR(r, rows, 0.4, r.Bool(), r.Pick(0, 2), r.N(3) == 0)
	targets := []*concTarget{
		{nm: "model", get: func(e *leaves.Ensemble) *leaves.Ensemble { return e }, nEst: r.Pick(0, 0, 1, 2)},
		{nm: "raw view", get: func(e *leaves.Ensemble) *leaves.Ensemble { return e.EnsembleWithRawPredictions() }, nEst: r.Pick(0, 2)},
	}
	if z.l == nil {
		targets = append(targets, &concTarget{nm: "leaf view", get: func(e *leaves.Ensemble) *leaves.Ensemble { return e.EnsembleWithLeafPredictions() }})
	}
	for _, t := range targets {
		v := t.get(e2)
		t.ng = v.NOutputGroups()
		for _, row := range rows {
			t.want = append(t.want, predictRow(c, v, row, t.nEst, t.ng)...)
		}
	}

	// models that are loaded for the first time while the others work
	type fresh struct {
		z    *zoo
		rows [][]float64
		ref  []refResult
		path string
	}
	var others []*fresh
	if r.N(3) != 0 {
		for k := r.Range(1, 3); k > 0; k-- {
			f := &fresh{}
			switch r.N(3) {
			case 0:
				f.z = z.sibling(c)
			case 1:
				f.z = makeZoo(c, kind, o, false)
			default:
				f.z = makeZoo(c, kinds[r.N(len(kinds))], o, false)
			}
			for i := 0; i < 3; i++ {
				row := f.z.row(r)
				f.rows = append(f.rows, row)
				f.ref = append(f.ref, f.z.ref(row, 0, map[string]int{}))
			}
			if fileLoader(f.z.kind) != nil && r.Bool() {
				dir := scratch(c)
				defer os.RemoveAll(dir)
				f.path = filepath.Join(dir, fmt.Sprint("model", k))
				if err := os.WriteFile(f.path, f.z.bytes, 0600); err != nil {
					panic(err)
				}
			}
			others = append(others, f)
		}
		c.Dump("kind", kind)
		c.Dump("model", z.bytes)
		c.Count("models loaded first under concurrency", len(others))
	}

	e := z.mustLoad(c, useTr)
	W := r.Range(2, 8)
	K := r.Range(2, 6)
	shared := make([]float64, W*targets[0].ng)
	var inflight, maxIn int64
	var mu sync.Mutex
	var firstFail string
	var order []byte
	calls := int64(0)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < W; g++ {
		wg.Add(1)
		gr := newRng(r.U64(), uint64(g))
		go func(g int) {
			defer wg.Done()
			fail := func(f string, a ...interface{}) {
				mu.Lock()
				if firstFail == "" {
					firstFail = fmt.Sprintf(f, a...)
				}
				mu.Unlock()
			}
			defer func() {
				if rec := recover(); rec != nil {
					st := string(debug.Stack())
					if !strings.Contains(st, "dmitryikh/leaves") {
						panic(rec)
					}
					fail("panic in a concurrent call: %v at %s", rec, libFrame(st))
				}
			}()
			<-start
			for k := 0; k < K; k++ {
				t := targets[gr.N(len(targets))]
				v := t.get(e)
				in := atomic.AddInt64(&inflight, 1)
				for {
					m := atomic.LoadInt64(&maxIn)
					if in <= m || atomic.CompareAndSwapInt64(&maxIn, m, in) {
						break
					}
				}
				op := gr.N(8)
				what := ""
				switch op {
				case 0, 1, 2: // matrix call, own output
					out := make([]float64, n*t.ng)
					th := gr.Pick(0, 1, 2, 3, 4, 8, -1)
					var err error
					if op == 0 || gr.Bool() {
						what = fmt.Sprintf("PredictDense(%d rows, threads %d) on the %s", n, th, t.nm)
						err = v.PredictDense(vals, n, width, out, t.nEst, th)
					} else {
						what = fmt.Sprintf("PredictCSR(%d rows, threads %d) on the %s", n, th, t.nm)
						err = v.PredictCSR(indptr, cols, cvals, out, t.nEst, th)
					}
					if err != nil {
						fail("%s: %v", what, err)
					} else if i := sameSlice(out, t.want); i >= 0 {
						fail("%s %s: when the call returned, output %d was %v; alone it is %v", kind, what, i, out[i], t.want[i])
					}
					for i := range out {
						out[i] = -7 // a late writer would race with this
					}
				case 3, 4: // single rows into a region of a shared slice
					t = targets[0]
					v = e
					i := gr.N(n)
					what = "Predict"
					reg := shared[g*t.ng : (g+1)*t.ng]
					if err := v.Predict(rows[i], t.nEst, reg); err != nil {
						fail("Predict: %v", err)
					} else if j := sameSlice(reg, t.want[i*t.ng:(i+1)*t.ng]); j >= 0 {
						fail("%s: concurrent Predict gives %v, alone %v", kind, reg, t.want[i*t.ng:(i+1)*t.ng])
					}
					if t.ng == 1 {
						if p := v.PredictSingle(rows[i], t.nEst); !same(p, t.want[i]) {
							fail("%s: concurrent PredictSingle gives %v, alone %v", kind, p, t.want[i])
						}
					}
				case 5: // metadata
					if v.NOutputGroups() != t.ng || e.NFeatures() != z.nfeat || e.NEstimators() != z.iters || len(e.NLeaves()) != len(e2.NLeaves()) || e.Name() != z.name {
						fail("%s: metadata changed under concurrency", kind)
					}
				default: // load again, concurrently
					if len(others) > 0 && gr.N(3) != 0 {
						what = "loading another model"
						f := others[gr.N(len(others))]
						if gr.N(4) == 0 { // a failing load
							f.z.load(f.z.bytes[:gr.N(len(f.z.bytes))], false)
						}
						load := func() (*leaves.Ensemble, error) { return f.z.load(f.z.bytes, false) }
						if f.path != "" && gr.Bool() {
							load = func() (*leaves.Ensemble, error) { return fileLoader(f.z.kind)(f.path, false) }
						}
						l, err := load()
						if err != nil {
							fail("%s: a concurrent load of another model (%s): %v", kind, f.z.kind, err)
							break
						}
						out := make([]float64, f.z.groups)
						for i, row := range f.rows {
							if err := l.Predict(row, 0, out); err != nil {
								fail("%s: another model (%s), loaded under concurrency: %v", kind, f.z.kind, err)
								break
							}
							for j, g := range out {
								if !f.z.rawOK(g, f.ref[i].Raw[j], f.ref[i].Abs) {
									fail("%s: another model (%s), loaded under concurrency, predicts %v for row %v, the reference interpreter gives %v", kind, f.z.kind, out, row, f.ref[i].Raw)
								}
							}
						}
						break
					}
					l, err := z.load(z.bytes, useTr)
					if err != nil {
						fail("concurrent load: %v", err)
						break
					}
					lv := t.get(l)
					out := make([]float64, t.ng)
					i := gr.N(n)
					if err := lv.Predict(rows[i], t.nEst, out); err != nil {
						fail("Predict: %v", err)
					} else if sameSlice(out, t.want[i*t.ng:(i+1)*t.ng]) >= 0 {
						fail("%s: a concurrently loaded model gives %v, want %v", kind, out, t.want[i*t.ng:(i+1)*t.ng])
					}
				}
				atomic.AddInt64(&inflight, -1)
				atomic.AddInt64(&calls, 1)
				mu.Lock()
				order = append(order, byte(g))
				mu.Unlock()
			}
		}(g)
	}
	close(start)
	wg.Wait()
	if firstFail != "" {
		c.Fail("%s", firstFail)
	}
	settle(c, "concurrent calls")
	c.Count("concurrent calls", int(calls))
	c.Count("goroutines", W)
	if maxIn > 1 {
		c.Count("cases with overlapping calls", 1)
	}
	if w := c.w.counts["max overlapping calls"]; maxIn > w {
		c.w.counts["max overlapping calls"] = maxIn
	}
	c.Sample("%d goroutines x %d calls, completion order %v, %s", W, K, order, z.describe())
	c.Eval(hashBytes(order)^uint64(c.Idx)<<20, maxIn > 1)
}

// runCrowd: hundreds of goroutines are inside of matrix calls at the same
// time; each call is long enough for the scheduler to start all the others.
func runCrowd(c *C) {
	r := c.R
	kind := kinds[r.N(len(kinds))]
	o := smallOpt()
	o.exact = r.Bool()
	o.noBig = true
	z := makeZoo(c, kind, o, r.Bool())
	useTr := z.tr != "" && z.tr != "raw"
	e2 := z.mustLoad(c, useTr)
	base := make([][]float64, 20)
	for i := range base {
		base[i] = z.row(r)
	}
	// as many rows as take a while
	out := make([]float64, 20*e2.NOutputGroups())
	t0 := time.Now()
	k := 0
	vals := flatten(base, z.nfeat, r)
	for time.Since(t0) < 20*time.Millisecond {
		if err := e2.PredictDense(vals, 20, z.nfeat, out, 0, 1); err != nil {
			c.Fail("PredictDense: %v", err)
		}
		k++
	}
	n := minI(20*(k+1), 200000/(z.nfeat+e2.NOutputGroups()))
	n = minI(n, 4000)
	rows := make([][]float64, n)
	want := make([]float64, 0, n*e2.NOutputGroups())
	for i := range rows {
		rows[i] = base[i%20]
		j := i % 20 * e2.NOutputGroups()
		want = append(want, out[j:j+e2.NOutputGroups()]...)
	}
	vals = flatten(rows, z.nfeat, r)
	indptr, cols, cvals := z.toCSR(r, rows, 0.4, r.Bool(), 0, false)
	old := runtime.GOMAXPROCS(r.Pick(2, 4, 8))
	defer runtime.GOMAXPROCS(old)
	e := z.mustLoad(c, useTr)
	W := r.Range(150, 500)
	form := r.N(3)
	var in, max int64
	var mu sync.Mutex
	firstFail := ""
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < W; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			got := make([]float64, len(want))
			<-start
			k := atomic.AddInt64(&in, 1)
			defer atomic.AddInt64(&in, -1)
			for m := atomic.LoadInt64(&max); k > m && !atomic.CompareAndSwapInt64(&max, m, k); m = atomic.LoadInt64(&max) {
			}
			var err error
			what := ""
			if form == 0 || form == 2 && g%2 == 0 {
				what = "PredictDense"
				err = e.PredictDense(vals, n, z.nfeat, got, 0, 8)
			} else {
				what = "PredictCSR"
				err = e.PredictCSR(indptr, cols, cvals, got, 0, 8)
			}
			bad := ""
			if err != nil {
				bad = err.Error()
			} else if i := sameSlice(got, want); i >= 0 {
				bad = fmt.Sprintf("output %d is %v, alone it is %v", i, got[i], want[i])
			}
			if bad != "" {
				mu.Lock()
				if firstFail == "" {
					firstFail = fmt.Sprintf("%s: %s in %d goroutines at the same time: %s", kind, what, W, bad)
				}
				mu.Unlock()
			}
		}(g)
	}
	close(start)
	wg.Wait()
	if firstFail != "" {
		c.Fail("%s", firstFail)
	}
	settle(c, "concurrent calls")
	c.Count("concurrent calls", W)
	if max > 100 {
		c.Count("crowds of more than 100 calls inside at the same time", 1)
	}
	if w := c.w.counts["max overlapping calls"]; max > w {
		c.w.counts["max overlapping calls"] = max
	}
	c.Sample("%d goroutines with a call over %d rows each, up to %d of them inside at the same time, %s", W, n, max, z.describe())
	c.Eval(uint64(c.Idx)<<20^uint64(max), max > 1)
}

// runThreads: the number of goroutines a matrix call uses at once.
func runThreads(c *C) {
	r := c.R
	kind := kinds[c.R.N(len(kinds))]
	o := smallOpt()
	o.maxTrees = 30
	o.noBig = true
	z := makeZoo(c, kind, o, false)
	e := z.mustLoad(c, false)
	gp := r.Pick(2, 4, 8)
	old := runtime.GOMAXPROCS(gp)
	defer runtime.GOMAXPROCS(old)
	n := r.Pick(640, 1500, 3000)
	few := make([][]float64, 20)
	for i := range few {
		few[i] = z.row(r)
	}
	rows := make([][]float64, n)
	for i := range rows {
		rows[i] = few[i%len(few)]
	}
	vals := flatten(rows, z.nfeat, r)
	indptr, cols, cvals := z.toCSR(r, rows, 1, false, 0, false)
	for _, th := range []int{2, 3, gp, gp + 3, 64, 1000, -1} {
		dense := r.Bool()
		out := make([]float64, n*z.groups)
		settle(c, "before the call")
		stop := make(chan struct{})
		done := make(chan int)
		go func() {
			// runtime.NumGoroutine is not consistent while goroutines exit, a
			// stack dump is (it stops the world)
			max := 0
			for {
				if k, _, _ := libGoroutines(); k > max {
					max = k
				}
				select {
				case <-stop:
					done <- max
					return
				default:
					runtime.Gosched()
				}
			}
		}()
		var err error
		if dense {
			err = e.PredictDense(vals, n, z.nfeat, out, 0, th)
		} else {
			err = e.PredictCSR(indptr, cols, cvals, out, 0, th)
		}
		close(stop)
		max := <-done
		if err != nil {
			c.Fail("matrix call: %v", err)
		}
		lim := th
		if lim > gp || lim < 1 {
			lim = gp
		}
		used := max - 1 // the caller itself
		// two helper goroutines (to feed or collect) are not threads of the calculation
		if used > lim+2 {
			c.Fail("%s: a call over %d rows with nThreads=%d and GOMAXPROCS=%d ran %d goroutines at once, at most %d are allowed", kind, n, th, gp, used, lim)
		}
		c.Count("thread bound observations", 1)
		if max > 1 {
			c.Count("calls seen with several goroutines", 1)
		}
		if used >= lim {
			c.Count("thread bound reached", 1)
		}
		if int64(used) > c.w.counts["max goroutines of one call"] {
			c.w.counts["max goroutines of one call"] = int64(used)
		}
		c.Eval(hashStr(fmt.Sprint(kind, th, gp, n, dense, used)), used > 1)
	}
	settle(c, "matrix calls")
}

// predictVia predicts rows by one of the ways a caller has: row by row, as a
// dense matrix or as a sparse one that leaves out absent entries.
func predictVia(c *C, z *zoo, e *leaves.Ensemble, rows [][]float64, ng, how int) []float64 {
	r := c.R
	var out []float64
	if how == 0 {
		for _, row := range rows {
			out = append(out, predictRow(c, e, row, 0, ng)...)
		}
		return out
	}
	out = make([]float64, len(rows)*ng)
	for i := range out {
		out[i] = 12345.678
	}
	th := r.Pick(1, 1, 2, 4)
	var err error
	name := "PredictDense"
	if how == 1 {
		vals := flatten(rows, z.nfeat, r)
		err = e.PredictDense(vals, len(rows), z.nfeat, out, 0, th)
	} else {
		name = "PredictCSR"
		ip, cc, vv := z.toCSR(r, rows, float64(r.Pick(0, 0, 1))*0.3, r.Bool(), 0, r.N(3) == 0)
		err = e.PredictCSR(ip, cc, vv, out, 0, th)
	}
	if err != nil {
		c.Fail("%s of %d rows: %v", name, len(rows), err)
	}
	return out
}

var viaNames = []string{"row by row", "PredictDense", "PredictCSR"}

// dropOriginal loads the model once more and returns a view of it, by which
// the model itself is not kept.
func dropOriginal(c *C, r *Rng, z *zoo, useTr bool) (*leaves.Ensemble, string) {
	e, err := z.load(append([]byte(nil), z.bytes...), useTr)
	if err != nil {
		c.Fail("load: %v", err)
	}
	v, nm, _ := composeView(r, e, z.l == nil, r.Range(1, 2))
	return v, nm
}

// collect runs the garbage collector and waits until finalizers had their turn.
func collect() {
	done := make(chan bool, 1)
	s := new([64]byte)
	runtime.SetFinalizer(s, func(*[64]byte) { done <- true })
	s = nil
	for i := 0; i < 20; i++ {
		runtime.GC()
		select {
		case <-done:
			return
		case <-time.After(5 * time.Millisecond):
		}
	}
}

// runMany makes one kind of step so often that no counter of 16 bits holds
// the number: predictions in every form, views, loads.
func runMany(c *C) {
	r := c.R
	kind := kinds[c.Idx%len(kinds)]
	o := smallOpt()
	o.maxTrees, o.maxLeaves, o.maxGroups, o.maxFeat = 3, 4, 3, 4
	o.exact = false
	if c.Idx < len(kinds) {
		o.maxTrees, o.iters = 12, r.Range(5, 12) // enough to round differently in another order
	}
	z := makeZoo(c, kind, o, c.Idx >= len(kinds) && r.Bool())
	useTr := z.tr != "" && z.tr != "raw"
	e := z.mustLoad(c, useTr)
	rows := make([][]float64, 7)
	var want [][]float64
	for i := range rows {
		rows[i] = z.row(r)
		want = append(want, predictRow(c, e, rows[i], 0, z.groups))
	}
	same := func(e *leaves.Ensemble, k int, what string) {
		i := k % len(rows)
		var got []float64
		switch k % 3 {
		case 0:
			got = predictRow(c, e, rows[i], 0, z.groups)
		default:
			got = predictVia(c, z, e, rows[i:i+1], z.groups, k%3)
		}
		if j := sameSlice(got, want[i]); j >= 0 {
			c.Dump("row", rows[i])
			c.Fail("%s: after %s %d times the model predicts %v, at first %v", kind, what, k, got, want[i])
		}
	}
	n, what := 140000, "predicting"
	switch c.Idx / len(kinds) {
	case 0:
		for k := 0; k < n; k++ {
			same(e, k, what)
		}
	case 1:
		what = "making a view"
		for k := 0; k < n; k++ {
			v := e.EnsembleWithRawPredictions()
			if k%2 == 1 {
				v = e.EnsembleWithLeafPredictions()
			}
			if k%16 == 0 && v.NEstimators() != z.iters {
				c.Fail("%s: view %d has %d estimators, the model %d", kind, k, v.NEstimators(), z.iters)
			}
			if k%64 == 0 || k > 65530 && k < 65545 {
				same(e, k, what)
			}
		}
	case 2:
		n, what = 66500, "loading it"
		for k := 0; k < n; k++ {
			e2, err := z.load(z.bytes, useTr)
			if err != nil {
				c.Fail("%s: load %d of the same bytes: %v", kind, k, err)
			}
			if k%8 == 0 || k > 65530 && k < 65545 {
				same(e2, k, what)
				same(e, k, what)
			}
		}
	}
	c.Count("step: "+what+" more than 2^16 times", 1)
	c.Sample("%s, %s %d times", z.describe(), what, n)
	c.Eval(hashStr(what)^hashBytes(z.bytes), true)
}

func runPurity(c *C) {
	if c.Idx < 3*len(kinds) {
		runMany(c)
		return
	}
	r := c.R
	kind := kinds[c.Idx%len(kinds)]
	o := smallOpt()
	o.exact = r.N(4) == 0 // other sums round differently in another order
	z := makeZoo(c, kind, o, r.Bool())
	useTr := z.tr != "" && z.tr != "raw" && r.N(4) != 0
	src := append([]byte(nil), z.bytes...)
	e, err := z.load(src, useTr)
	if err != nil {
		c.Fail("load: %v", err)
	}
	nrows := 10
	rows := make([][]float64, nrows)
	used := z.usedFeatures()
	for i := range rows {
		rows[i] = z.row(r)
		if i < 3 && len(used) > 0 {
			// values next to what counts as zero or as equal somewhere
			for k := 0; k < 4; k++ {
				v := r.PickF(1e-35, float64(float32(1e-35)), 1e-20, 1e-38, math.SmallestNonzeroFloat64, math.SmallestNonzeroFloat32, 1e-10, 1e-6)
				for n := r.N(3); n > 0; n-- {
					v = math.Nextafter(v, r.PickF(0, 1))
				}
				rows[i][used[r.N(len(used))]] = v * r.PickF(1, -1)
			}
			c.Count("rows with values next to zero", 1)
		}
	}
	type tgt struct {
		nm   string
		e    *leaves.Ensemble
		ng   int
		want [][]float64
		meta string
	}
	meta := func(e *leaves.Ensemble) string {
		return fmt.Sprint(e.Name(), e.NEstimators(), e.NFeatures(), e.NRawOutputGroups(), e.NOutputGroups(), e.NLeaves(), e.Transformation().Name(), e.Transformation().NOutputGroups())
	}
	mk := func(nm string, e *leaves.Ensemble) *tgt {
		t := &tgt{nm: nm, e: e, ng: e.NOutputGroups(), meta: meta(e)}
		for _, row := range rows {
			t.want = append(t.want, predictRow(c, e, row, 0, t.ng))
		}
		return t
	}
	ts := []*tgt{mk("model", e)}
	// models loaded along the way stay in use
	type other struct {
		z    *zoo
		e    *leaves.Ensemble
		rows [][]float64
		want []float64
	}
	var others []*other
	checkOther := func(o *other, after string) {
		how := r.N(3)
		got := predictVia(c, o.z, o.e, o.rows, o.z.groups, how)
		if j := sameSlice(got, o.want); j >= 0 {
			c.Dump("kind", o.z.kind)
			c.Dump("model", o.z.bytes)
			c.Dump("rows", o.rows)
			c.Fail("%s: after %s another loaded model (%s), asked %s, predicts %v at output %d, on its own %v", kind, after, o.z.kind, viaNames[how], got[j], j, o.want[j])
		}
		c.Count("re-checks of other models", 1)
	}
	checkVia := func(t *tgt, after string) {
		how := r.Range(1, 2)
		got := predictVia(c, z, t.e, rows, t.ng, how)
		for i := range rows {
			if j := sameSlice(got[i*t.ng:(i+1)*t.ng], t.want[i]); j >= 0 {
				c.Dump("row", rows[i])
				c.Fail("%s: after %s the %s, asked by %s, predicts %v for a row for which it predicted %v before", kind, after, t.nm, viaNames[how], got[i*t.ng:(i+1)*t.ng], t.want[i])
			}
		}
		c.Count("re-checks by matrix", 1)
	}
	check := func(after string) {
		if r.Bool() {
			checkVia(ts[r.N(len(ts))], after)
		}
		if len(others) > 0 && r.Bool() {
			checkOther(others[r.N(len(others))], after)
		}
		for k := 0; k < 3; k++ {
			t := ts[r.N(len(ts))]
			i := r.N(nrows)
			got := predictRow(c, t.e, rows[i], 0, t.ng)
			if j := sameSlice(got, t.want[i]); j >= 0 {
				c.Dump("row", rows[i])
				c.Fail("%s: after %s the %s predicts %v for a row for which it predicted %v before", kind, after, t.nm, got, t.want[i])
			}
			if m := meta(t.e); m != t.meta {
				c.Fail("%s: after %s the %s describes itself as %s, before as %s", kind, after, t.nm, m, t.meta)
			}
			c.Count("re-checks", 1)
		}
	}
	var hist []string
	steps := r.Range(6, 20)
	procs := runtime.GOMAXPROCS(0)
	defer runtime.GOMAXPROCS(procs)
	for s := 0; s < steps; s++ {
		what := ""
		t := ts[r.N(len(ts))]
		if r.N(12) == 0 {
			hist = append(hist, "changing GOMAXPROCS")
			runtime.GOMAXPROCS(r.Pick(1, 2, 3, 4, 7, 16))
			check(fmt.Sprintf("changing GOMAXPROCS from %d to %d", procs, runtime.GOMAXPROCS(0)))
			c.Count("changes of GOMAXPROCS", 1)
		}
		switch r.N(17) {
		case 16:
			what = "reusing one slice for several rows"
			// the caller changes single values in place between two calls
			buf := append([]float64(nil), rows[r.N(nrows)]...)
			out := make([]float64, t.ng)
			idx := make([]int, len(buf))
			for j := range idx {
				idx[j] = j
			}
			ptr := []int{0, len(buf)}
			for k := 0; k < 12; k++ {
				nm := "Predict"
				var err error
				switch how := r.N(4); {
				case how == 0:
					nm = "PredictDense"
					err = t.e.PredictDense(buf, 1, len(buf), out, 0, 1)
				case how == 1:
					nm = "PredictCSR"
					err = t.e.PredictCSR(ptr, idx, buf, out, 0, 1)
				case how <= 2 && t.ng == 1:
					nm = "PredictSingle"
					out[0] = t.e.PredictSingle(buf, 0)
				default:
					err = t.e.Predict(buf, 0, out)
				}
				if err != nil {
					c.Fail("%s: %s of a row: %v", kind, nm, err)
				}
				fresh := predictRow(c, t.e, append([]float64(nil), buf...), 0, t.ng)
				if j := sameSlice(out, fresh); j >= 0 {
					c.Dump("row", buf)
					c.Fail("%s: %s of a slice whose values were changed in place gives %v in the %s, the same values in a new slice give %v", kind, nm, out, t.nm, fresh)
				}
				from := rows[r.N(nrows)]
				for n := r.Range(1, 2); n > 0; n-- {
					j := r.N(len(buf))
					buf[j] = from[j]
				}
				c.Count("slices changed in place", 1)
			}
		case 0:
			what = "predictions of other rows"
			for i := 0; i < 5; i++ {
				predictRow(c, t.e, z.row(r), 0, t.ng)
			}
		case 1:
			if t.e.Transformation().Type() != transformation.LeafIndex {
				what = "a prediction with fewer estimators"
				predictRow(c, t.e, rows[0], 1, t.ng)
				if t.ng == 1 {
					t.e.PredictSingle(rows[0], 1)
				}
			}
		case 2, 3:
			what = "matrix predictions"
			n := r.Pick(1, 17, 50)
			rr := make([][]float64, n)
			for i := range rr {
				rr[i] = z.row(r)
			}
			out := make([]float64, n*t.ng)
			th := r.Pick(1, 2, 4)
			if err := t.e.PredictDense(flatten(rr, z.nfeat, r), n, z.nfeat, out, 0, th); err != nil {
				c.Fail("PredictDense: %v", err)
			}
			ip, cc, vv := z.toCSR(r, rr, 0.3, true, 0, true)
			if err := t.e.PredictCSR(ip, cc, vv, out, 0, th); err != nil {
				c.Fail("PredictCSR: %v", err)
			}
		case 4:
			what = "failing calls"
			var out []float64
			t.e.Predict(rows[0][:0], 0, out)
			t.e.PredictDense(nil, 3, z.nfeat, make([]float64, 1), 0, 1)
			t.e.PredictSingle(nil, 0)
		case 5:
			if len(ts) < 6 {
				what = "making a raw view"
				ts = append(ts, mk("raw view", t.e.EnsembleWithRawPredictions()))
			}
		case 6:
			if z.l == nil && len(ts) < 6 {
				what = "making a leaf view"
				ts = append(ts, mk("leaf view", t.e.EnsembleWithLeafPredictions()))
			}
		case 7:
			what = "loading the same bytes again"
			e2, err := z.load(z.bytes, useTr)
			if err != nil {
				c.Fail("second load: %v", err)
			}
			for i, row := range rows {
				if got := predictRow(c, e2, row, 0, ts[0].ng); sameSlice(got, ts[0].want[i]) >= 0 {
					c.Dump("row", row)
					c.Fail("%s: the same bytes loaded a second time predict %v, the first time %v", kind, got, ts[0].want[i])
				}
			}
			if m := meta(e2); m != ts[0].meta {
				c.Fail("%s: the same bytes loaded a second time are described as %s, the first time as %s", kind, m, ts[0].meta)
			}
		case 8:
			what = "loading another model"
			z2 := z
			if r.Bool() {
				what = "loading a similar model"
				z2 = z.sibling(c)
			} else {
				z2 = makeZoo(c, kinds[r.N(len(kinds))], smallOpt(), false)
			}
			e2 := z2.mustLoad(c, false)
			if r.Bool() {
				e2 = e2.EnsembleWithRawPredictions()
			}
			ob := &other{z: z2, e: e2}
			for i := 0; i < 4; i++ {
				ob.rows = append(ob.rows, z2.row(r))
			}
			ob.want = predictVia(c, z2, e2, ob.rows, z2.groups, 0)
			for i, row := range ob.rows {
				ref := z2.ref(row, 0, map[string]int{})
				for k := range ref.Raw {
					if got := ob.want[i*z2.groups+k]; !z2.rawOK(got, ref.Raw[k], ref.Abs) {
						c.Dump("other model", z2.bytes)
						c.Dump("row", row)
						c.Fail("%s: a %s model loaded after it predicts %v, the reference interpreter gives %v", kind, z2.kind, got, ref.Raw[k])
					}
				}
				if z2.leafIdx {
					lv := e2.EnsembleWithLeafPredictions()
					got := predictRow(c, lv, row, 0, z2.groups*z2.iters)
					for t, l := range ref.Leaf {
						if g := got[t%z2.groups*z2.iters+t/z2.groups]; g != float64(l) {
							c.Dump("other model", z2.bytes)
							c.Dump("row", row)
							c.Fail("%s: the leaf view of a %s model loaded after it gives leaf %v for tree %d, the row falls into %d", kind, z2.kind, g, t, l)
						}
					}
				}
			}
			if len(others) < 3 {
				others = append(others, ob)
			} else {
				others[r.N(3)] = ob
			}
			checkOther(ob, what)
			c.Dump("kind", kind)
			c.Dump("model", z.bytes)
		case 9:
			what = "overwriting the bytes the model was read from"
			for i := range src {
				src[i] = 0xff
			}
		case 10:
			what = "a failed load"
			z.load(z.bytes[:r.N(len(z.bytes))], useTr)
		case 11:
			what = "changing slices the library returned"
			nl := t.e.NLeaves()
			for i := range nl {
				nl[i] = -1
			}
			out := predictRow(c, t.e, rows[0], 0, t.ng)
			for i := range out {
				out[i] = math.NaN()
			}
		case 12:
			what = "a garbage collection"
			runtime.GC()
		case 13:
			what = "sparse predictions by other models"
			if len(others) == 0 {
				what = ""
			}
			for _, o := range others {
				checkOther(o, "sparse and dense predictions in turn")
				checkVia(t, "predictions by another model")
			}
		case 15:
			what = "dropping a model of which a view is kept"
			v, nm := dropOriginal(c, r, z, useTr)
			t := mk(nm+", its model dropped,", v)
			for k := 0; k < 2; k++ {
				collect()
				for i, row := range rows {
					if got := predictRow(c, v, row, 0, t.ng); sameSlice(got, t.want[i]) >= 0 {
						c.Dump("row", row)
						c.Fail("%s: after the model it was made from was dropped and collected the %s predicts %v, before %v", kind, nm, got, t.want[i])
					}
				}
			}
			if m := meta(v); m != t.meta {
				c.Fail("%s: after the model it was made from was dropped the %s describes itself as %s, before as %s", kind, nm, m, t.meta)
			}
			if len(ts) < 8 {
				ts = append(ts, t)
			}
		case 14:
			if r.N(12) == 0 {
				what = "many predictions"
				n := r.Pick(300, 5000, 9000)
				for k := 0; k < n; k++ {
					i := k % nrows
					if got := predictRow(c, t.e, rows[i], 0, t.ng); sameSlice(got, t.want[i]) >= 0 {
						c.Dump("row", rows[i])
						c.Fail("%s: call %d in a row of the %s predicts %v, the first %v", kind, k, t.nm, got, t.want[i])
					}
				}
			}
		}
		if what == "" {
			continue
		}
		hist = append(hist, what)
		c.Dump("history", hist)
		c.Count("history steps", 1)
		c.Count("step: "+what, 1)
		check(what)
	}
	for _, t := range ts {
		for i := range rows {
			got := predictRow(c, t.e, rows[i], 0, t.ng)
			if sameSlice(got, t.want[i]) >= 0 {
				c.Dump("row", rows[i])
				c.Fail("%s: at the end of the history %v the %s predicts %v, at first %v", kind, hist, t.nm, got, t.want[i])
			}
		}
	}
	c.Sample("%s, history %v", z.describe(), hist)
	c.Eval(hashStr(strings.Join(hist, ";"))^uint64(c.Idx)<<20, len(hist) > 2)
}

func init() {
	register(&Property{
		ID: "C08", Level: "exploration", Quick: 1200, Thorough: 20000, Procs: 8, NoLimit: true, Shards: 4,
		Rule: "Race-detector build. One case = one model, shared by 2..8 goroutines that overlap single-row calls (into disjoint regions of one slice), matrix calls with internal threads, view creation, metadata calls and further loads of the same bytes; an evaluation is one such schedule (or one observation of the number of goroutines of a matrix call). The monitors are the race detector, the comparison of every result with the one computed alone on another instance, output poisoning after return, a scan for goroutines left inside the library, and a sampler of the number of goroutines. One case in 60 is a crowd: 150..500 goroutines that are all inside of long matrix calls at the same time. Non-trivial: calls overlapped; distinct: different completion order or configuration.",
		Need: []string{"concurrent calls", "cases with overlapping calls", "thread bound observations", "calls seen with several goroutines", "crowds of more than 100 calls inside at the same time"},
		Assume: []string{"schedules are those the Go scheduler produced under the race detector with GOMAXPROCS 2..8, not all schedules",
			"callers do not modify inputs, nor read outputs, while a call runs"},
		Run: func(c *C) {
			if c.Idx%60 == 7 {
				runCrowd(c)
			} else if c.Idx%6 == 5 {
				runThreads(c)
			} else {
				runConc(c)
			}
		},
	})
	register(&Property{
		ID: "C17", Level: "exploration", Quick: 12000, Thorough: 500000,
		Rule: "One case = one model and a random history of 6..20 operations (predictions of other rows, with fewer estimators, matrix calls, failing calls, new views, loading the same bytes and other models again, failed loads, overwriting the source buffer, changing returned slices, garbage collection, dropping a model of which a view is kept) - in the first cases of one operation more than 2^16 times -; after each step predictions and metadata are compared bit for bit with those made before the history. An evaluation is one history; non-trivial: more than two steps; distinct: different model or history.",
		Need: []string{"history steps", "re-checks", "re-checks by matrix", "re-checks of other models", "step: loading a similar model", "step: sparse predictions by other models", "step: many predictions", "step: predicting more than 2^16 times", "step: making a view more than 2^16 times", "step: loading it more than 2^16 times", "step: loading the same bytes again", "step: overwriting the bytes the model was read from", "step: failing calls", "step: making a leaf view", "step: dropping a model of which a view is kept"},
		Run:  runPurity,
	})
}
