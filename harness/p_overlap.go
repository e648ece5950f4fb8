package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"

	"github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/mat"
)

// yieldReader gives small pieces and lets other goroutines run in between
type yieldReader struct {
	b []byte
	n int
}

func (y *yieldReader) Read(p []byte) (int, error) {
	runtime.Gosched()
	if len(y.b) == 0 {
		return 0, io.EOF
	}
	n := minI(minI(len(p), y.n), len(y.b))
	copy(p, y.b[:n])
	y.b = y.b[n:]
	return n, nil
}

// yieldWriter lets other goroutines run before it stores what it is given
type yieldWriter struct{ b bytes.Buffer }

func (y *yieldWriter) Write(p []byte) (int, error) {
	runtime.Gosched()
	return y.b.Write(p)
}

// together runs all the jobs at the same time and gives what they found wrong
func together(jobs []func() string) []string {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(4))
	start := make(chan struct{})
	out := make([]string, len(jobs))
	var wg sync.WaitGroup
	for i := range jobs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if v := recover(); v != nil {
					out[i] = fmt.Sprintf("panic: %v", v)
				}
			}()
			<-start
			out[i] = jobs[i]()
		}(i)
	}
	close(start)
	wg.Wait()
	var bad []string
	for _, s := range out {
		if s != "" {
			bad = append(bad, s)
		}
	}
	return bad
}

func overlapValues(r *Rng, n int) []float64 {
	v := make([]float64, n)
	for i := range v {
		if r.N(4) == 0 {
			v[i] = anyFloat(r)
		} else {
			v[i] = float64(r.Range(-1000, 1000)) / 8
		}
	}
	return v
}

// runOverlapReads reads several different files at the same time
func runOverlapReads(c *C) {
	r := c.R
	n := r.Range(2, 6)
	var jobs []func() string
	h := uint64(0)
	for k := 0; k < n; k++ {
		rows, cols := r.Range(20, 150), r.Range(1, 12)
		vs := overlapValues(r, rows*cols)
		h = hashF(h, vs)
		kind := r.N(3)
		var b strings.Builder
		indptr, colx, cvals := []int{0}, []int{}, []float64{}
		for i := 0; i < rows; i++ {
			if kind != 2 {
				fmt.Fprint(&b, i%3)
			}
			for j := 0; j < cols; j++ {
				v := vs[i*cols+j]
				if kind == 1 {
					if v == 0 {
						continue
					}
					colx = append(colx, j)
					cvals = append(cvals, v)
				}
				s := strconv.FormatFloat(v, 'g', -1, 64)
				switch {
				case kind != 2:
					fmt.Fprintf(&b, " %d:%s", j, s)
				case j > 0:
					b.WriteString("," + s)
				default:
					b.WriteString(s)
				}
			}
			indptr = append(indptr, len(colx))
			b.WriteByte('\n')
		}
		text := []byte(b.String())
		c.Dump(fmt.Sprintf("file%d", k), text)
		step, size, id := r.Range(1, 600), r.Pick(16, 64, 4096), k
		reader := func() *bufio.Reader { return bufio.NewReaderSize(&yieldReader{text, step}, size) }
		dense := func(m *mat.DenseMat, err error) string {
			if err != nil {
				return fmt.Sprintf("file %d: %v", id, err)
			}
			if m.Rows != rows || m.Cols != cols {
				return fmt.Sprintf("file %d: %d x %d instead of %d x %d", id, m.Rows, m.Cols, rows, cols)
			}
			if i := sameMat(m.Values, vs); i >= 0 {
				return fmt.Sprintf("file %d: value %d differs", id, i)
			}
			return ""
		}
		jobs = append(jobs, func() string {
			for rep := 0; rep < 4; rep++ {
				bad := ""
				switch kind {
				case 0:
					bad = dense(mat.DenseMatFromLibsvm(reader(), 0, true))
				case 2:
					bad = dense(mat.DenseMatFromCsv(reader(), 0, false, ",", 0))
				case 1:
					m, err := mat.CSRMatFromLibsvm(reader(), 0, true)
					switch {
					case err != nil:
						bad = fmt.Sprintf("file %d: %v", id, err)
					case !eqInts(m.RowHeaders, indptr) || !eqInts(m.ColIndexes, colx) || len(m.Values) != len(cvals):
						bad = fmt.Sprintf("file %d: another structure", id)
					case sameMat(m.Values, cvals) >= 0:
						bad = fmt.Sprintf("file %d: value %d differs", id, sameMat(m.Values, cvals))
					}
				}
				if bad != "" {
					return bad
				}
			}
			return ""
		})
	}
	if bad := together(jobs); len(bad) > 0 {
		c.Fail("%d files read at the same time: %s", n, bad[0])
	}
	c.Count("files read at the same time", n)
	c.Eval(h, true)
}

// runOverlapWrites writes several different matrices at the same time
func runOverlapWrites(c *C) {
	r := c.R
	n := r.Range(2, 6)
	dir := scratch(c)
	defer os.RemoveAll(dir)
	var jobs []func() string
	h := uint64(0)
	for k := 0; k < n; k++ {
		rows, cols := r.Range(5, 60), r.Range(1, 12)
		m := &mat.DenseMat{Values: overlapValues(r, rows*cols), Rows: rows, Cols: cols}
		h = hashF(h, m.Values)
		c.Dump(fmt.Sprintf("matrix%d", k), m.Values)
		delim, id, toFile := r.PickS(",", ";", "::", "\t", "||"), k, r.N(3) == 0
		path := filepath.Join(dir, fmt.Sprint(k, ".csv"))
		jobs = append(jobs, func() string {
			for rep := 0; rep < 4; rep++ {
				var text string
				if toFile {
					if err := m.ToCsvFile(path, delim); err != nil {
						return fmt.Sprintf("matrix %d: %v", id, err)
					}
					b, err := os.ReadFile(path)
					if err != nil {
						return err.Error()
					}
					text = string(b)
				} else {
					w := &yieldWriter{}
					if err := m.WriteStr(w, delim); err != nil {
						return fmt.Sprintf("matrix %d: %v", id, err)
					}
					text = w.b.String()
				}
				lines := strings.Split(text, "\n")
				if len(lines) != rows+1 || lines[rows] != "" {
					return fmt.Sprintf("matrix %d: %d lines instead of %d", id, len(lines)-1, rows)
				}
				for i, l := range lines[:rows] {
					toks := strings.Split(l, delim)
					if len(toks) != cols {
						return fmt.Sprintf("matrix %d: row %d has %d fields instead of %d", id, i, len(toks), cols)
					}
					for j, t := range toks {
						v, err := strconv.ParseFloat(t, 64)
						if err != nil || sameMat([]float64{v}, m.Values[i*cols+j:i*cols+j+1]) >= 0 {
							return fmt.Sprintf("matrix %d: %v was written as %q", id, m.Values[i*cols+j], t)
						}
					}
				}
			}
			return ""
		})
	}
	if bad := together(jobs); len(bad) > 0 {
		c.Fail("%d matrices written at the same time: %s", n, bad[0])
	}
	c.Count("matrices written at the same time", n)
	c.Eval(h, true)
}

// runOverlapFiles loads several model files (half of them of the kind) at the same time
func runOverlapFiles(c *C, dir, kind string) {
	r := c.R
	n := r.Range(2, 5)
	var jobs []func() string
	type loaded struct {
		z    *zoo
		path string
		es   []*leaves.Ensemble
	}
	var all []*loaded
	for k := 0; k < n; k++ {
		kk := kind
		if r.Bool() {
			kk = kinds[r.N(len(kinds))]
		}
		if fileLoader(kk) == nil {
			kk = kind
		}
		l := &loaded{z: makeZoo(c, kk, smallOpt(), false), path: filepath.Join(dir, fmt.Sprint("together", k))}
		if err := os.WriteFile(l.path, l.z.bytes, 0600); err != nil {
			panic(err)
		}
		c.Dump(fmt.Sprintf("model%d", k), l.z.bytes)
		all = append(all, l)
		jobs = append(jobs, func() string {
			for rep := 0; rep < 3; rep++ {
				e, err := fileLoader(l.z.kind)(l.path, false)
				if err != nil {
					return fmt.Sprintf("%s: %v", l.z.kind, err)
				}
				l.es = append(l.es, e)
			}
			return ""
		})
	}
	fds := countFds()
	if bad := together(jobs); len(bad) > 0 {
		c.Fail("%d files loaded at the same time: %s", n, bad[0])
	}
	if k := countFds(); k > fds {
		c.Fail("%d files loaded at the same time left %d files open", n, k-fds)
	}
	for _, l := range all {
		rows := make([][]float64, 4)
		for i := range rows {
			rows[i] = l.z.row(r)
		}
		want := takePrint(c, l.z.mustLoad(c, false), rows)
		for _, e := range l.es {
			if got := takePrint(c, e, rows); !got.same(want) {
				c.Fail("%s: loaded from a file while others were loaded the model is %s %v, from a reader %s %v", l.z.kind, got.meta, got.out, want.meta, want.out)
			}
		}
	}
	c.Count("files loaded at the same time", n)
}
