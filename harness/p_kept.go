package main

import (
	"bufio"
	"fmt"
	"strings"

	"github.com/dmitryikh/leaves/mat"
)

// runKeptMats reads several small matrices one after the other, keeps them all
// and uses them as their owner may: rows are appended, values are changed. What
// is done to one of them, and what is read later, must not change another.
func runKeptMats(c *C) {
	r := c.R
	n := r.Range(3, 16)
	type kept struct {
		what          string
		vals, wVals   func() []float64
		ints, wInts   func() []int
		grow, scratch func()
	}
	var all []*kept
	h := uint64(0)
	for k := 0; k < n; k++ {
		rows, cols := r.Range(1, 6), r.Range(1, 6)
		vs := overlapValues(r, rows*cols)
		h = hashF(h, vs)
		var libsvm, csv strings.Builder
		ptr, colx := []int{0}, []int{}
		for i := 0; i < rows; i++ {
			libsvm.WriteString("1")
			for j := 0; j < cols; j++ {
				fmt.Fprintf(&libsvm, " %d:%v", j, vs[i*cols+j])
				if j > 0 {
					csv.WriteString(",")
				}
				fmt.Fprint(&csv, vs[i*cols+j])
				colx = append(colx, j)
			}
			ptr = append(ptr, len(colx))
			libsvm.WriteString("\n")
			csv.WriteString("\n")
		}
		size := r.Pick(16, 64, 4096)
		text := func(b *strings.Builder) *bufio.Reader {
			return bufio.NewReaderSize(strings.NewReader(b.String()), size)
		}
		must := func(err error) {
			if err != nil {
				c.Fail("a small well-formed file was rejected: %v", err)
			}
		}
		kd := &kept{}
		dense := func(m *mat.DenseMat) {
			want := append([]float64{}, vs...)
			dims := []int{rows, cols}
			kd.vals, kd.wVals = func() []float64 { return m.Values }, func() []float64 { return want }
			kd.ints, kd.wInts = func() []int { return []int{m.Rows, m.Cols} }, func() []int { return dims }
			kd.grow = func() {
				for j := 0; j < m.Cols; j++ {
					m.Values = append(m.Values, -77)
					want = append(want, -77)
				}
				m.Rows++
				dims[0]++
			}
			kd.scratch = func() {
				i := r.N(len(want))
				m.Values[i], want[i] = 1234.5, 1234.5
			}
		}
		switch r.N(4) {
		case 0:
			kd.what = "dense matrix of libsvm"
			m, err := mat.DenseMatFromLibsvm(text(&libsvm), 0, true)
			must(err)
			dense(m)
		case 1:
			kd.what = "dense matrix of csv"
			m, err := mat.DenseMatFromCsv(text(&csv), 0, false, ",", 0)
			must(err)
			dense(m)
		case 2:
			kd.what = "dense matrix of an array"
			m, err := mat.DenseMatFromArray(append([]float64{}, vs...), rows, cols)
			must(err)
			dense(&m)
		default:
			kd.what = "csr matrix of libsvm"
			m, err := mat.CSRMatFromLibsvm(text(&libsvm), 0, true)
			must(err)
			want, wp, wc := append([]float64{}, vs...), ptr, colx
			kd.vals, kd.wVals = func() []float64 { return m.Values }, func() []float64 { return want }
			kd.ints = func() []int { return append(append([]int{}, m.RowHeaders...), m.ColIndexes...) }
			kd.wInts = func() []int { return append(append([]int{}, wp...), wc...) }
			kd.grow = func() {
				m.Values, want = append(m.Values, -78), append(want, -78)
				m.ColIndexes, wc = append(m.ColIndexes, 3), append(wc, 3)
				m.RowHeaders, wp = append(m.RowHeaders, len(wc)), append(wp, len(wc))
			}
			kd.scratch = func() {
				i := r.N(len(want))
				m.Values[i], want[i] = 4321.5, 4321.5
			}
		}
		all = append(all, kd)
		for i := r.N(3); i > 0; i-- {
			x := all[r.N(len(all))]
			if r.Bool() {
				x.grow()
			} else {
				x.scratch()
			}
		}
		if r.N(4) == 0 {
			// a read that fails half-way
			bad := bufio.NewReader(strings.NewReader("5,5,5\n5,5,5\n5,5\n"))
			if _, err := mat.DenseMatFromCsv(bad, 0, false, ",", 0); err == nil {
				c.Fail("rows of different width were accepted")
			}
		}
	}
	for i, x := range all {
		if j := sameMat(x.vals(), x.wVals()); j >= 0 {
			c.Fail("matrix %d of %d (a %s) was read, kept and used by its owner: its value %d is not the one that it was given", i, n, x.what, j)
		}
		if !eqInts(x.ints(), x.wInts()) {
			c.Fail("matrix %d of %d (a %s) was read, kept and used by its owner: its structure %v is not the one that it was given (%v)", i, n, x.what, x.ints(), x.wInts())
		}
	}
	c.Count("matrices kept and changed", n)
	c.Eval(h, true)
}
