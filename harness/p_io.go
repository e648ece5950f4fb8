package main

import (
	"archive/tar"
	"archive/zip"
	"bufio"
	"bytes"
	"compress/flate"
	"compress/gzip"
	"compress/zlib"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"math/bits"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/mat"
	"github.com/dmitryikh/leaves/util"
)

// ---------- values and their spellings ----------

func anyFinite(r *Rng) float64 {
	for {
		var v float64
		switch r.N(10) {
		case 0:
			v = float64(r.Range(-100, 100))
		case 1:
			v = math.Float64frombits(r.U64()) // any exponent
		case 2:
			v = math.Float64frombits(r.U64() & (1<<52 - 1)) // subnormal
		case 3:
			v = r.PickF(0, math.Copysign(0, -1), 1, -1, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 0.1, 1e-6, 1e15, 1e16, 1e17, 1e22, 1e23, 123456789012345678, 9007199254740993)
		case 4:
			v = math.Nextafter(float64(r.Range(-1000, 1000)), math.Inf(r.Pick(-1, 1)))
		case 5:
			v = float64(r.Range(-1e9, 1e9)) / 100
		default:
			v = r.Norm() * math.Pow(10, float64(r.Range(-12, 12)))
		}
		if !math.IsNaN(v) && !math.IsInf(v, 0) {
			return v
		}
	}
}

func anyFloat(r *Rng) float64 {
	if r.N(12) == 0 {
		return r.PickF(math.NaN(), math.Inf(1), math.Inf(-1))
	}
	return anyFinite(r)
}

// spell writes v so that it reads back as exactly v.
func spell(r *Rng, v float64) string {
	if math.IsNaN(v) {
		return r.PickS("nan", "NaN", "NAN")
	}
	if math.IsInf(v, 1) {
		return r.PickS("inf", "Inf", "+Inf", "Infinity", "INF")
	}
	if math.IsInf(v, -1) {
		return r.PickS("-inf", "-Inf", "-Infinity")
	}
	switch r.N(8) {
	case 0:
		return fmt.Sprintf("%.17g", v)
	case 1:
		return strconv.FormatFloat(v, 'e', -1, 64)
	case 2:
		return strings.ToUpper(strconv.FormatFloat(v, 'e', 20, 64))
	case 3:
		if math.Abs(v) < 1e25 && (math.Abs(v) > 1e-25 || v == 0) {
			return strconv.FormatFloat(v, 'f', -1, 64)
		}
	case 4:
		if !math.Signbit(v) {
			return "+" + strconv.FormatFloat(v, 'g', -1, 64)
		}
	case 5:
		if math.Abs(v) > 1e-5 && math.Abs(v) < 1e15 {
			return strconv.FormatFloat(v, 'f', 60, 64) // long
		}
	}
	return strconv.FormatFloat(v, 'g', -1, 64)
}

func sameMat(a, b []float64) int {
	if len(a) != len(b) {
		return 0
	}
	for i := range a {
		if math.Float64bits(a[i]) != math.Float64bits(b[i]) && !(math.IsNaN(a[i]) && math.IsNaN(b[i])) {
			return i
		}
	}
	return -1
}

func matReader(r *Rng, b []byte, failAt int) *bufio.Reader {
	h := &hostileReader{data: b, failAt: failAt, err: readErr(r), mode: r.N(5), r: r}
	return bufio.NewReaderSize(h, r.Pick(16, 17, 64, 333, 4096))
}

func eqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ---------- C14: readers ----------

// longMats are sizes and limits that do not fit 16 bits.
var longMats = []struct{ rows, width, lim int }{
	{65536, 1, 0}, {65537, 2, 0}, {70000, 1, 65536}, {70000, 1, 65537}, {65600, 2, 65535}, {131080, 1, 131072},
	{66000, 1, 200000}, {66000, 1, 66000}, {1, 65536, 0}, {2, 65537, 1}, {3, 131073, 0}, {65800, 1, 256}, {65800, 1, 1<<32 + 1},
	{300, 2, 256}, {700, 1, 257}, {5, 1, 1 << 31}, {5, 1, 1<<32 + 2},
}

func runLibsvm(c *C) {
	r := c.R
	dense := r.Bool()
	skip := r.N(4) != 0
	rows := r.Pick(0, 1, 2, 3, 10, r.Range(1, 40))
	width := r.Range(1, 12)
	if r.N(8) == 0 {
		width = r.Range(50, 800) // lines longer than the buffers
	}
	lim := r.Pick(0, 0, 0, -1, 1, 2, 5, rows, rows+3)
	if k := c.Idx/5*2 + c.Idx%5%2; k < 3*len(longMats) {
		lm := longMats[k%len(longMats)]
		rows, width, lim = lm.rows, lm.width, lm.lim
		c.Count("long or wide matrices", 1)
	}
	eol := "\n"
	if r.N(5) == 0 {
		eol = "\r\n"
	}
	sloppy := r.N(3) == 0
	var lines []string
	var vals []float64
	var cols []int
	heads := []int{0}
	n := rows
	if lim > 0 && lim < n {
		n = lim
	}
	sep := func() string {
		if sloppy && r.N(4) == 0 {
			return strings.Repeat(" ", r.Range(2, 5))
		}
		return " "
	}
	for i := 0; i < rows; i++ {
		var l strings.Builder
		if sloppy && r.N(6) == 0 {
			l.WriteString(" ")
		}
		if skip {
			l.WriteString(r.PickS("0", "1", "-1", "3.25", "label", "1:1", "qid:7"))
		}
		k := width
		if !dense {
			k = r.Range(0, width)
			if !skip && k == 0 {
				k = 1
			}
		}
		col := 0
		for j := 0; j < k; j++ {
			if !dense {
				switch r.N(12) {
				case 0:
					col = r.Pick(0, 1<<31-1, 1<<31, 1<<32-1, 65535, 65536)
				case 1:
					col = r.N(1000) // any order, repetitions too
				default:
					col += r.Range(1, 4)
				}
				if col > 1<<32-1 {
					col = 0
				}
			} else {
				col = j
			}
			v := anyFloat(r)
			if skip || j > 0 {
				l.WriteString(sep())
			}
			if sloppy && r.N(5) == 0 {
				// columns are decimal numbers, padded or not
				l.WriteString(strings.Repeat("0", r.Range(1, 4)))
				c.Count("columns with leading zeros", 1)
			}
			fmt.Fprintf(&l, "%d:%s", col, spell(r, v))
			if i < n {
				vals = append(vals, v)
				cols = append(cols, col)
			}
		}
		if sloppy && r.N(4) == 0 {
			l.WriteString(r.PickS(" ", "  ", "\t"))
		}
		if i < n {
			heads = append(heads, len(vals))
		}
		lines = append(lines, l.String())
	}
	text := strings.Join(lines, eol)
	if rows > 0 && r.N(4) != 0 {
		text += eol
		if r.N(4) == 0 {
			text += eol
		}
	}
	if lim > 0 && lim < rows && r.N(3) == 0 {
		// what follows the limit is not part of what was asked for
		text = strings.Join(lines[:lim], eol) + eol + "this is not libsvm :::" + eol
		c.Count("garbage after the limit", 1)
	}
	c.Dump("text", text)
	c.Dump("limit", lim)
	c.Dump("skipFirstColumn", skip)
	b := []byte(text)
	if dense {
		m, err := mat.DenseMatFromLibsvm(matReader(r, b, -1), lim, skip)
		if err != nil {
			c.Fail("DenseMatFromLibsvm(limit %d, skip %v) rejected a well-formed file: %v", lim, skip, err)
		}
		wc := width
		if n == 0 {
			wc = 0
		}
		if m.Rows != n || m.Cols != wc || len(m.Values) != n*wc {
			c.Fail("DenseMatFromLibsvm(limit %d): %d x %d with %d values, want %d x %d", lim, m.Rows, m.Cols, len(m.Values), n, wc)
		}
		if i := sameMat(m.Values, vals); i >= 0 {
			c.Fail("DenseMatFromLibsvm: value %d is %v, the file says %v", i, m.Values[i], vals[i])
		}
		c.Count("libsvm dense matrices", 1)
	} else {
		m, err := mat.CSRMatFromLibsvm(matReader(r, b, -1), lim, skip)
		if err != nil {
			c.Fail("CSRMatFromLibsvm(limit %d, skip %v) rejected a well-formed file: %v", lim, skip, err)
		}
		if m.Rows() != n || !eqInts(m.RowHeaders, heads) || !eqInts(m.ColIndexes, cols) {
			c.Fail("CSRMatFromLibsvm(limit %d): %d rows, headers %v, columns %v; want %d rows, headers %v, columns %v", lim, m.Rows(), m.RowHeaders, m.ColIndexes, n, heads, cols)
		}
		if i := sameMat(m.Values, vals); i >= 0 {
			c.Fail("CSRMatFromLibsvm: value %d is %v, the file says %v", i, m.Values[i], vals[i])
		}
		c.Count("libsvm csr matrices", 1)
		for i := 1; i < len(heads); i++ {
			if heads[i] == heads[i-1] {
				c.Count("rows without features", 1)
			}
		}
	}
	c.Count("matrix rows", n)
	c.Count("values compared", len(vals))
	c.Eval(hashBytes(b)^uint64(lim), n > 0)

	if rows > 0 && r.N(4) == 0 {
		// in parts: a limit of n reads n rows and leaves the rest to the next
		// call
		full := strings.Join(lines, eol) + eol
		var all []float64
		var want []float64
		var starts []int
		if lim <= 0 || lim >= rows {
			want = vals
		} else if dense {
			m, err := mat.DenseMatFromLibsvm(matReader(r, []byte(full), -1), 0, skip)
			if err != nil {
				c.Fail("DenseMatFromLibsvm rejected a well-formed file: %v", err)
			}
			want = m.Values
		} else {
			m, err := mat.CSRMatFromLibsvm(matReader(r, []byte(full), -1), 0, skip)
			if err != nil {
				c.Fail("CSRMatFromLibsvm rejected a well-formed file: %v", err)
			}
			want = m.Values
		}
		rd := matReader(r, []byte(full), -1)
		for got := 0; got < rows; {
			k := r.Range(1, rows-got)
			if r.Bool() {
				k = 1
			}
			n := 0
			if dense {
				m, err := mat.DenseMatFromLibsvm(rd, k, skip)
				if err != nil {
					c.Fail("DenseMatFromLibsvm, rows %d to %d of %d with a limit: %v", got, got+k, rows, err)
				}
				n = m.Rows
				all = append(all, m.Values...)
			} else {
				m, err := mat.CSRMatFromLibsvm(rd, k, skip)
				if err != nil {
					c.Fail("CSRMatFromLibsvm, rows %d to %d of %d with a limit: %v", got, got+k, rows, err)
				}
				n = m.Rows()
				all = append(all, m.Values...)
			}
			if n != k {
				c.Fail("reading rows %d to %d of %d of a libsvm file with a limit gave %d rows (earlier rows were read from the same reader; dense %v)", got, got+k, rows, n, dense)
			}
			got += k
			starts = append(starts, got)
		}
		if i := sameMat(all, want); i >= 0 {
			c.Fail("a libsvm file of %d rows read in parts (up to %v) differs from value %d on (dense %v)", rows, starts, i, dense)
		}
		c.Count("files read in parts", 1)
	}

	// damage one line that is going to be read: it has to be reported
	if n > 0 {
		i := r.N(n)
		bad := append([]string(nil), lines...)
		tok := r.PickS("7", "7:", ":7", "7:8:9", "x:1", "-1:1", "1:x", "1.5:2", "4294967296:1", "1:1e999", "1:0x", "1:1,5", "1:--1", "7;8", "=", "1:1.2.3", "#1:2", "#", "qid:3", "1:2#", "1:2,", "\"1:2\"", "1:", ":", "+1:2", "1e0:2", "0x1:2", "//1:2", "%1:2", "1:2:", "18446744073709551617:1", "1:nil", "1:None", "1:?", "1:1d0", "1:1f")
		what := "token " + tok
		bad[i] = strings.TrimRight(bad[i], " \t") + " " + tok
		if !skip && strings.TrimSpace(lines[i]) == "" {
			bad[i] = tok
		}
		if dense && r.Bool() {
			what = "column gap, shift or a row of another width"
			switch {
			case rows > 1 && n > 1 && r.Bool():
				i = r.Range(1, n-1)
				bad = append([]string(nil), lines...)
				if r.Bool() {
					bad[i] = strings.TrimRight(bad[i], " \t") + fmt.Sprintf(" %d:1", width)
				} else if width > 1 || skip {
					k := strings.LastIndex(strings.TrimRight(bad[i], " \t"), " ")
					if k < 0 {
						k = 0
					}
					bad[i] = bad[i][:k]
					if strings.TrimSpace(bad[i]) == "" {
						bad[i] = "0:1 1:1 2:1 4:5"
					}
				} else {
					bad[i] += " 1:1"
				}
			default:
				bad = append([]string(nil), lines...)
				bad[i] = strings.TrimRight(bad[i], " \t") + fmt.Sprintf(" %d:1", width+r.Range(1, 3))
			}
		}
		c.Dump("damaged", bad[i])
		bb := []byte(strings.Join(bad, eol) + eol)
		var err error
		if dense {
			_, err = mat.DenseMatFromLibsvm(matReader(r, bb, -1), lim, skip)
		} else {
			_, err = mat.CSRMatFromLibsvm(matReader(r, bb, -1), lim, skip)
		}
		if err == nil {
			c.Fail("line %d (%q) of a libsvm file is malformed (%s), but it was read without an error (dense %v, limit %d)", i, trunc(bad[i], 200), what, dense, lim)
		}
		c.Count("malformed files rejected", 1)
		// and so does a read error inside the rows that are wanted
		end := len(strings.Join(lines[:n], eol))
		if end > 0 {
			k := r.N(end)
			if dense {
				_, err = mat.DenseMatFromLibsvm(matReader(r, b, k), lim, skip)
			} else {
				_, err = mat.CSRMatFromLibsvm(matReader(r, b, k), lim, skip)
			}
			if err == nil {
				c.Fail("a read error at byte %d of %d of a libsvm file was not reported", k, len(b))
			}
			c.Count("read errors reported", 1)
		}
	}
	c.Sample("libsvm dense=%v rows=%d width=%d limit=%d skip=%v eol=%q", dense, rows, width, lim, skip, eol)
}

func runCsv(c *C) {
	r := c.R
	skip := r.Bool()
	delim := r.PickS(",", ",", ";", "\t", "\t", " ", "|", "::", ", ")
	rows := r.Pick(0, 1, 2, 3, 10, r.Range(1, 40))
	width := r.Range(1, 12)
	if r.N(8) == 0 {
		width = r.Range(50, 600)
	}
	lim := r.Pick(0, 0, 0, -1, 1, 2, 5, rows, rows+3)
	if k := c.Idx/5*2 + c.Idx%5%2; k < 3*len(longMats) {
		lm := longMats[k%len(longMats)]
		rows, width, lim = lm.rows, lm.width, lm.lim
		c.Count("long or wide matrices", 1)
	}
	eol := "\n"
	if r.N(5) == 0 {
		eol = "\r\n"
	}
	def := r.PickF(0, math.NaN(), -1, 0.1, math.Inf(1), math.Copysign(0, -1))
	absent := 0.0
	if width > 1 || skip {
		absent = r.PickF(0, 0.1, 0.5)
	}
	n := rows
	if lim > 0 && lim < n {
		n = lim
	}
	var lines []string
	var vals []float64
	for i := 0; i < rows; i++ {
		var toks []string
		if skip {
			toks = append(toks, r.PickS("0", "label", "1.5", "x y"[:1]))
		}
		for j := 0; j < width; j++ {
			v := anyFloat(r)
			s := spell(r, v)
			if r.P(absent) {
				v, s = def, ""
				c.Count("absent values", 1)
			}
			if i < n {
				vals = append(vals, v)
			}
			toks = append(toks, s)
		}
		l := strings.Join(toks, delim)
		if strings.TrimSpace(l) == "" && !strings.Contains(l, delim) {
			l = "0" // cannot happen for width > 1
		}
		lines = append(lines, l)
	}
	text := strings.Join(lines, eol)
	if rows > 0 && r.N(4) != 0 {
		text += eol
	}
	if lim > 0 && lim < rows && r.N(3) == 0 {
		text = strings.Join(lines[:lim], eol) + eol + "not a number" + eol
		c.Count("garbage after the limit", 1)
	}
	c.Dump("text", text)
	c.Dump("limit", lim)
	c.Dump("skipFirstColumn", skip)
	c.Dump("delimiter", delim)
	c.Dump("defValue", fmt.Sprint(def))
	b := []byte(text)
	m, err := mat.DenseMatFromCsv(matReader(r, b, -1), lim, skip, delim, def)
	if err != nil {
		c.Fail("DenseMatFromCsv(limit %d, skip %v, delimiter %q) rejected a well-formed file: %v", lim, skip, delim, err)
	}
	wc := width
	if n == 0 {
		wc = 0
	}
	if m.Rows != n || m.Cols != wc || len(m.Values) != n*wc {
		c.Fail("DenseMatFromCsv(limit %d, skip %v, delimiter %q): %d x %d with %d values, want %d x %d", lim, skip, delim, m.Rows, m.Cols, len(m.Values), n, wc)
	}
	if i := sameMat(m.Values, vals); i >= 0 {
		c.Fail("DenseMatFromCsv(delimiter %q): value %d is %v, the file says %v", delim, i, m.Values[i], vals[i])
	}
	c.Count("csv matrices", 1)
	c.Count("matrix rows", n)
	c.Count("values compared", len(vals))
	c.Eval(hashBytes(b)^uint64(lim), n > 0)
	if rows > 0 && r.N(4) == 0 {
		full := []byte(strings.Join(lines, eol) + eol)
		m, err := mat.DenseMatFromCsv(matReader(r, full, -1), 0, skip, delim, def)
		if err != nil {
			c.Fail("DenseMatFromCsv(skip %v, delimiter %q) rejected a well-formed file: %v", skip, delim, err)
		}
		var all []float64
		rd := matReader(r, full, -1)
		for got := 0; got < rows; {
			k := r.Range(1, rows-got)
			if r.Bool() {
				k = 1
			}
			p, err := mat.DenseMatFromCsv(rd, k, skip, delim, def)
			if err != nil || p.Rows != k {
				c.Fail("reading rows %d to %d of %d of a csv file with a limit gave %v, %v (earlier rows were read from the same reader)", got, got+k, rows, p, err)
			}
			all = append(all, p.Values...)
			got += k
		}
		if i := sameMat(all, m.Values); i >= 0 {
			c.Fail("a csv file of %d rows read in parts differs from value %d on", rows, i)
		}
		c.Count("files read in parts", 1)
	}
	if n > 0 {
		i := r.N(n)
		bad := append([]string(nil), lines...)
		what := ""
		if n > 1 && r.Bool() {
			i = r.Range(1, n-1)
			if r.Bool() || (width == 1 && !skip) {
				what = "a longer row"
				bad[i] += delim + "1"
			} else {
				what = "a shorter row"
				k := strings.LastIndex(bad[i], delim)
				if k <= 0 {
					bad[i] += delim + "1"
				} else {
					bad[i] = bad[i][:k]
					if strings.TrimSpace(bad[i]) == "" {
						bad[i] = lines[i] + delim + "1"
					}
				}
			}
		} else {
			tok := r.PickS("x", "1.2.3", "--1", "1e999", "0x", "1:2", "na", "null", "1e", "é", "NaN1", "#1", "1#", "\"1\"", "'1'", "1 2", "$1", "1%", "None", "?", "-", "+", ".", "1d0", "1f", "0b1", "true", "N/A")
			if delim == "::" || strings.Contains(tok, delim) {
				tok = "x"
			}
			what = "token " + tok
			k := strings.LastIndex(bad[i], delim)
			if k < 0 {
				k = -len(delim)
				if skip {
					k = len(bad[i])
					bad[i] += delim
				}
			}
			bad[i] = bad[i][:k+len(delim)] + tok
		}
		c.Dump("damaged", bad[i])
		bb := []byte(strings.Join(bad, eol) + eol)
		if m, err := mat.DenseMatFromCsv(matReader(r, bb, -1), lim, skip, delim, def); err == nil {
			c.Fail("line %d (%q) of a csv file is malformed (%s), but it was read without an error as %d x %d (limit %d, skip %v, delimiter %q)", i, trunc(bad[i], 200), what, m.Rows, m.Cols, lim, skip, delim)
		}
		c.Count("malformed files rejected", 1)
		if end := len(strings.Join(lines[:n], eol)); end > 0 {
			k := r.N(end)
			if _, err := mat.DenseMatFromCsv(matReader(r, b, k), lim, skip, delim, def); err == nil {
				c.Fail("a read error at byte %d of %d of a csv file was not reported", k, len(b))
			}
			c.Count("read errors reported", 1)
		}
	}
	c.Sample("csv rows=%d width=%d limit=%d skip=%v delimiter=%q eol=%q default=%v", rows, width, lim, skip, delim, eol, def)
}

// countWriter stops a writer that does not end.
type countWriter struct{ n int }

func (w *countWriter) Write(p []byte) (int, error) {
	w.n += len(p)
	if w.n > 1<<20 {
		panic("more than a megabyte written")
	}
	return len(p), nil
}

func runArrays(c *C) {
	r := c.R
	rows, cols := r.Range(0, 30), r.Range(0, 12)
	vs := make([]float64, rows*cols)
	for i := range vs {
		vs[i] = anyFloat(r)
	}
	orig := append([]float64(nil), vs...)
	d, err := mat.DenseMatFromArray(vs, rows, cols)
	if err != nil {
		c.Fail("DenseMatFromArray(%d x %d): %v", rows, cols, err)
	}
	s, err := mat.CSRMatFromArray(vs, rows, cols)
	if err != nil {
		c.Fail("CSRMatFromArray(%d x %d): %v", rows, cols, err)
	}
	if d.Rows != rows || d.Cols != cols || sameMat(d.Values, orig) >= 0 {
		c.Fail("DenseMatFromArray(%d x %d) = %d x %d %v", rows, cols, d.Rows, d.Cols, d.Values)
	}
	if s.Rows() != rows || len(s.Values) != rows*cols || len(s.ColIndexes) != rows*cols || len(s.RowHeaders) != rows+1 {
		c.Fail("CSRMatFromArray(%d x %d): %d rows, %d values, %d columns", rows, cols, s.Rows(), len(s.Values), len(s.ColIndexes))
	}
	for i := 0; i < rows; i++ {
		if s.RowHeaders[i] != i*cols || s.RowHeaders[i+1] != (i+1)*cols {
			c.Fail("CSRMatFromArray(%d x %d): row headers %v", rows, cols, s.RowHeaders)
		}
		for j := 0; j < cols; j++ {
			k := i*cols + j
			if s.ColIndexes[k] != j || !same(s.Values[k], orig[k]) {
				c.Fail("CSRMatFromArray(%d x %d): entry %d is column %d value %v, want column %d value %v", rows, cols, k, s.ColIndexes[k], s.Values[k], j, orig[k])
			}
		}
	}
	for i := range vs { // the matrix does not share memory with the array
		vs[i] = 12345
	}
	if sameMat(d.Values, orig) >= 0 || sameMat(s.Values, orig) >= 0 {
		c.Fail("a matrix made from an array (%d x %d) changes with the array", rows, cols)
	}
	for _, delta := range []int{-1, 1} {
		n := rows*cols + delta
		if n < 0 {
			continue
		}
		if _, err := mat.DenseMatFromArray(make([]float64, n), rows, cols); err == nil {
			c.Fail("DenseMatFromArray accepts %d values for %d x %d", n, rows, cols)
		}
		if _, err := mat.CSRMatFromArray(make([]float64, n), rows, cols); err == nil {
			c.Fail("CSRMatFromArray accepts %d values for %d x %d", n, rows, cols)
		}
	}
	// shapes whose product is the number of values, but only by sign or overflow
	for k := 0; k < 4; k++ {
		a, b, n := -rows, -cols, rows*cols
		switch r.N(4) {
		case 0:
			h := uint(r.Range(2, 62))
			a, b = r.Range(1, 9)<<h, r.Range(1, 9)<<(64-h)
			n = 0
			if a == 0 || b == 0 || a*b != 0 {
				continue
			}
		case 1:
			a, b = math.MinInt64, r.Pick(2, 4, -2)
			n = 0
		case 2:
			if rows*cols == 0 {
				continue
			}
			// the inverse of an odd number modulo 2^64
			a = rows*2 + 1
			inv := a
			for i := 0; i < 6; i++ {
				inv *= 2 - a*inv
			}
			b = inv * rows
			n = rows
			if b == 0 || a < 0 || (b > 0 && b < 1<<40) {
				continue
			}
		default:
			if rows == 0 || cols == 0 {
				continue
			}
		}
		if n < 0 || a*b != n {
			panic("harness")
		}
		var err error
		if msg, p := c.Try(func() { _, err = mat.DenseMatFromArray(make([]float64, n), a, b) }); p || err == nil {
			c.Fail("DenseMatFromArray of %d values, %d x %d: error %v %s", n, a, b, err, msg)
		}
		if msg, p := c.Try(func() { _, err = mat.CSRMatFromArray(make([]float64, n), a, b) }); p || err == nil {
			c.Fail("CSRMatFromArray of %d values, %d x %d: error %v %s", n, a, b, err, msg)
		}
		w := &countWriter{}
		m := mat.DenseMat{Values: make([]float64, n), Rows: a, Cols: b}
		if msg, p := c.Try(func() { err = m.WriteStr(w, ",") }); p || err == nil {
			c.Fail("WriteStr of a matrix of %d values, %d x %d: error %v %s", n, a, b, err, msg)
		}
		c.Count("impossible shapes refused", 1)
	}
	z := mat.DenseMatZero(rows, cols)
	if z.Rows != rows || z.Cols != cols || len(z.Values) != rows*cols {
		c.Fail("DenseMatZero(%d, %d) = %d x %d with %d values", rows, cols, z.Rows, z.Cols, len(z.Values))
	}
	for _, v := range z.Values {
		if v != 0 {
			c.Fail("DenseMatZero has a value %v", v)
		}
	}
	var empty mat.CSRMat
	if empty.Rows() != 0 {
		c.Fail("an empty CSRMat has %d rows", empty.Rows())
	}
	c.Count("array matrices", 1)
	c.Eval(hashF(uint64(rows)<<8|uint64(cols), orig), rows*cols > 0)
}

// ---------- C15: writer ----------

type failWriter struct {
	left int
	buf  bytes.Buffer
	err  error
}

func writeErr(r *Rng) error {
	switch r.N(6) {
	case 0:
		return io.EOF
	case 1:
		return io.ErrShortWrite
	case 2:
		return io.ErrClosedPipe
	case 3:
		return errTimeout{}
	}
	return errInjected
}

func (w *failWriter) Write(p []byte) (int, error) {
	if len(p) > w.left {
		n := w.left
		w.buf.Write(p[:n])
		w.left = 0
		if w.err != nil {
			return n, w.err
		}
		return n, errInjected
	}
	w.left -= len(p)
	w.buf.Write(p)
	return len(p), nil
}

// A glitchWriter fails one single call of Write (having taken part or all of
// the bytes) and works again afterwards.
type glitchWriter struct {
	call, at int
	taken    float64
	failed   bool
}

func (w *glitchWriter) Write(p []byte) (int, error) {
	w.call++
	if w.call-1 == w.at {
		w.failed = true
		return int(w.taken * float64(len(p))), errInjected
	}
	return len(p), nil
}

func scratch(c *C) string {
	d := os.Getenv("VERIF_SCRATCH")
	if d == "" {
		panic("no scratch directory")
	}
	p := filepath.Join(d, fmt.Sprintf("case%d", c.Idx))
	if err := os.MkdirAll(p, 0700); err != nil {
		panic(err)
	}
	return p
}

func runWriter(c *C) {
	r := c.R
	rows, cols := r.Range(1, 12), r.Range(1, 10)
	if r.N(8) == 0 {
		rows, cols = r.Range(20, 120), r.Range(10, 60) // well above any buffer
	}
	vs := make([]float64, rows*cols)
	for i := range vs {
		vs[i] = anyFloat(r)
		c.Count("values", 1)
		switch v := vs[i]; {
		case v != v:
			c.Count("values NaN", 1)
		case math.IsInf(v, 0):
			c.Count("values infinite", 1)
		case v == 0 && math.Signbit(v):
			c.Count("values -0", 1)
		case v != 0 && math.Abs(v) < 2.2250738585072014e-308:
			c.Count("values subnormal", 1)
		}
	}
	m := &mat.DenseMat{Values: vs, Rows: rows, Cols: cols}
	delim := r.PickS(",", "\t", ";", " ", "|", "::", "%", "%d", "%%", ", ", "\\", "\x00", "\u00a7", "\xff", "\"", "/*", " \t ")
	c.Dump("values", vs)
	c.Dump("shape", fmt.Sprint(rows, cols, delim))
	var buf bytes.Buffer
	if err := m.WriteStr(&buf, delim); err != nil {
		c.Fail("WriteStr(%d x %d): %v", rows, cols, err)
	}
	text := buf.String()
	// structure and values, read independently of the library
	lines := strings.Split(text, "\n")
	if len(lines) != rows+1 || lines[rows] != "" {
		c.Fail("WriteStr(%d x %d) wrote %d lines", rows, cols, len(lines)-1)
	}
	for i := 0; i < rows; i++ {
		toks := strings.Split(lines[i], delim)
		if len(toks) != cols {
			c.Fail("WriteStr(%d x %d): row %d has %d fields: %q", rows, cols, i, len(toks), lines[i])
		}
		for j, t := range toks {
			v, err := strconv.ParseFloat(t, 64)
			if err != nil || sameMat([]float64{v}, vs[i*cols+j:i*cols+j+1]) >= 0 {
				c.Fail("WriteStr wrote %v as %q", vs[i*cols+j], t)
			}
		}
	}
	back, err := mat.DenseMatFromCsv(matReader(r, buf.Bytes(), -1), 0, false, delim, 77)
	if err != nil {
		c.Fail("reading back what WriteStr wrote: %v", err)
	}
	if back.Rows != rows || back.Cols != cols {
		c.Fail("WriteStr wrote %d x %d, it reads back as %d x %d", rows, cols, back.Rows, back.Cols)
	}
	if i := sameMat(back.Values, vs); i >= 0 {
		c.Fail("value %v (bits %x) reads back as %v (bits %x)", vs[i], math.Float64bits(vs[i]), back.Values[i], math.Float64bits(back.Values[i]))
	}
	c.Count("round trips", 1)
	c.Eval(hashBytes(buf.Bytes()), true)

	// a writer that fails at byte k
	step := 1
	if len(text) > 400 {
		step = len(text)/60 + 1
	}
	for k := 0; k < len(text); k += r.Range(1, step) {
		fw := &failWriter{left: k, err: writeErr(r)}
		if err := m.WriteStr(fw, delim); err == nil {
			c.Fail("the writer failed after %d of %d bytes, WriteStr returned no error", k, len(text))
		}
		if !strings.HasPrefix(text, fw.buf.String()) {
			c.Fail("before the write error at byte %d other bytes were written than without it", k)
		}
		c.Count("write errors reported", 1)
	}
	// a writer that fails once and recovers
	cw := &glitchWriter{at: -1}
	if err := m.WriteStr(cw, delim); err != nil {
		c.Fail("WriteStr: %v", err)
	}
	for i, st := 0, cw.call/60+1; i < cw.call; i += r.Range(1, st) {
		gw := &glitchWriter{at: i, taken: r.PickF(0, 0.5, 1)}
		if err := m.WriteStr(gw, delim); gw.failed && err == nil {
			c.Fail("call %d of %d of the writer's Write failed, WriteStr returned no error", i, cw.call)
		}
		c.Count("passing write errors reported", 1)
	}
	if r.N(3) == 0 {
		fw := &failWriter{left: len(text)}
		if err := m.WriteStr(fw, delim); err != nil {
			c.Fail("WriteStr: %v", err)
		}
	}

	// files
	dir := scratch(c)
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, fileName(r, "m.csv"))
	old := r.N(3) == 0
	if old {
		os.WriteFile(path, bytes.Repeat([]byte("9,9,9\n"), len(text)/6+50), 0600)
		c.Count("files overwritten", 1)
	}
	fds := countFds()
	if err := m.ToCsvFile(path, delim); err != nil {
		c.Fail("ToCsvFile: %v", err)
	}
	got, err := os.ReadFile(path)
	if err != nil || string(got) != text {
		c.Fail("ToCsvFile wrote %d bytes that differ from the %d bytes of WriteStr (older file present: %v, %v)", len(got), len(text), old, err)
	}
	for _, bad := range []string{filepath.Join(dir, "no", "such", "dir.csv"), dir} {
		if err := m.ToCsvFile(bad, delim); err == nil {
			c.Fail("ToCsvFile(%s) succeeded", bad)
		}
	}
	if fi, err := os.Stat("/dev/full"); err == nil && fi.Mode()&os.ModeCharDevice != 0 {
		// by a name of its own, so that whatever removes or replaces it does not do so to the device
		full := filepath.Join(dir, "full")
		if err := os.Symlink("/dev/full", full); err != nil {
			panic(err)
		}
		if err := m.ToCsvFile(full, delim); err == nil {
			c.Fail("the device is full, ToCsvFile of %d bytes returned no error", len(text))
		}
		c.Count("full device reported", 1)
	}
	writeThroughNames(c, m, dir, delim, text)
	// files that cannot grow beyond a size
	signal.Ignore(syscall.SIGXFSZ)
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	for i := 0; i < 6; i++ {
		k := r.N(len(text))
		switch i {
		case 0:
			k = len(text) - 1
		case 1:
			k = len(text)
		case 2:
			k = 4096 * r.N(len(text)/4096+1)
		}
		var lim syscall.Rlimit
		must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &lim))
		must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(k), Max: lim.Max}))
		err := m.ToCsvFile(path, delim)
		must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim))
		got, _ := os.ReadFile(path)
		switch {
		case k < len(text) && err == nil:
			c.Fail("the file cannot grow beyond %d bytes, ToCsvFile of %d bytes returned no error (the file has %d bytes)", k, len(text), len(got))
		case k >= len(text) && (err != nil || string(got) != text):
			c.Fail("the file may have %d bytes, ToCsvFile of %d bytes wrote %d and returned %v", k, len(text), len(got), err)
		}
		if k < len(text) {
			c.Count("full files reported", 1)
		}
	}
	if n := countFds(); n > fds {
		c.Fail("ToCsvFile left %d files open", n-fds)
	}
	// shapes that make no sense
	for _, d := range []int{-1, 1} {
		bad := &mat.DenseMat{Values: make([]float64, rows*cols+d), Rows: rows, Cols: cols}
		var o bytes.Buffer
		if err := bad.WriteStr(&o, delim); err == nil {
			c.Fail("WriteStr accepts %d values for %d x %d", len(bad.Values), rows, cols)
		}
	}
	for _, e := range []*mat.DenseMat{{}, {Rows: 3}, {Cols: 3}} {
		var o bytes.Buffer
		if err := e.WriteStr(&o, delim); err != nil || strings.TrimSpace(o.String()) != "" {
			c.Fail("an empty matrix (%d x %d) is written as %q, %v", e.Rows, e.Cols, o.String(), err)
		}
	}
	c.Sample("%d x %d, delimiter %q, %d bytes, first line %q", rows, cols, delim, len(text), trunc(lines[0], 120))
}

// writeThroughNames writes the matrix to files that are known by several names
// and to a pipe: the bytes have to get where the name leads.
func writeThroughNames(c *C, m *mat.DenseMat, dir, delim, text string) {
	r := c.R
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	target := filepath.Join(dir, "target.csv")
	name := filepath.Join(dir, "name.csv")
	must(os.WriteFile(target, bytes.Repeat([]byte("7,7\n"), r.Range(0, len(text)/2+1)), 0600))
	kind := "symbolic link"
	if r.Bool() {
		must(os.Symlink(r.PickS("target.csv", target), name))
	} else {
		kind = "second name"
		must(os.Link(target, name))
	}
	if err := m.ToCsvFile(name, delim); err != nil {
		c.Fail("ToCsvFile to a %s of a file: %v", kind, err)
	}
	if got, err := os.ReadFile(target); err != nil || string(got) != text {
		c.Fail("ToCsvFile to a %s of a file: the file has %d bytes that differ from the %d bytes of WriteStr (%v)", kind, len(got), len(text), err)
	}
	c.Count("files written by another name", 1)
	if len(text) > 20000 {
		// a pipe holds 65536 bytes, fewer when its pages are not filled
		return
	}
	pipe := filepath.Join(dir, "out.pipe")
	must(syscall.Mkfifo(pipe, 0600))
	fd, err := syscall.Open(pipe, syscall.O_RDONLY|syscall.O_NONBLOCK, 0)
	must(err)
	defer syscall.Close(fd)
	if err := m.ToCsvFile(pipe, delim); err != nil {
		c.Fail("ToCsvFile to a pipe: %v", err)
	}
	var got []byte
	buf := make([]byte, 65536)
	for {
		n, err := syscall.Read(fd, buf)
		if n <= 0 || err != nil {
			break
		}
		got = append(got, buf[:n]...)
	}
	if string(got) != text {
		c.Fail("ToCsvFile to a pipe wrote %d bytes that differ from the %d bytes of WriteStr", len(got), len(text))
	}
	c.Count("pipes written", 1)
}

func countFds() int {
	d, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	return len(d)
}

// ---------- C18: util ----------

func runUtil(c *C) {
	r := c.R
	// bit sets
	for k := 0; k < 40; k++ {
		n := r.Range(0, 6)
		bs := make([]uint32, n)
		for i := range bs {
			switch r.N(6) {
			case 0:
				bs[i] = 1 << uint(r.N(32))
			case 1:
				bs[i] = uint32(r.U64())
			case 2:
				bs[i] = ^uint32(0)
			case 3:
				bs[i] = uint32(r.U64() & r.U64() & r.U64())
			case 4:
				bs[i] = uint32(r.U64()) << uint(r.N(32))
			}
		}
		cnt, first := 0, -1
		for i, w := range bs {
			cnt += bits.OnesCount32(w)
			if first < 0 && w != 0 {
				first = 32*i + bits.TrailingZeros32(w)
			}
		}
		if g := util.NumberOfSetBits(bs); int(g) != cnt {
			c.Fail("NumberOfSetBits(%x) = %d, want %d", bs, g, cnt)
		}
		g, err := util.FirstNonZeroBit(bs)
		if (err == nil) != (first >= 0) || (first >= 0 && int(g) != first) {
			c.Fail("FirstNonZeroBit(%x) = %d, %v; want %d", bs, g, err, first)
		}
		for _, w := range bs {
			p := uint32(r.Pick(r.N(32), r.N(32), 31, 32, 33, 64, 1<<20, math.MaxUint32))
			want := p < 32 && w&(1<<(p&31)) != 0
			if got := util.FindInBitsetUint32(w, p); got != want {
				c.Fail("FindInBitsetUint32(%x, %d) = %v", w, p, got)
			}
		}
		set := map[int]bool{}
		var vs []int
		mx := r.Pick(1, 31, 32, 33, 63, 64, 65, 300, 5000)
		for i := r.Range(0, 12); i > 0; i-- {
			v := r.N(mx)
			vs = append(vs, v) // repetitions, any order
			set[v] = true
		}
		if r.N(4) == 0 {
			vs = append(vs, mx-1)
			set[mx-1] = true
		}
		b := util.ConstructBitset(vs)
		top := -1
		for v := range set {
			if v > top {
				top = v
			}
		}
		if want := (top + 32) / 32; len(b) != want {
			c.Fail("ConstructBitset(%v) has %d words, want %d", vs, len(b), want)
		}
		for i := 0; i < 32*len(b); i++ {
			if (b[i/32]>>uint(i%32)&1 == 1) != set[i] {
				c.Fail("ConstructBitset(%v): bit %d is wrong in %x", vs, i, b)
			}
		}
		a, d := int(int64(r.U64()))>>uint(r.N(60)), int(int64(r.U64()))>>uint(r.N(60))
		if r.N(4) == 0 {
			d = a
		}
		want := a
		if d < a {
			want = d
		}
		if util.MinInt(a, d) != want {
			c.Fail("MinInt(%d, %d) = %d", a, d, util.MinInt(a, d))
		}
		f := math.Float64frombits(r.U64())
		var le, be [8]byte
		binary.LittleEndian.PutUint64(le[:], math.Float64bits(f))
		binary.BigEndian.PutUint64(be[:], math.Float64bits(f))
		if l, bg := util.Float64FromBytes(le[:], true), util.Float64FromBytes(be[:], false); math.Float64bits(l) != math.Float64bits(f) || math.Float64bits(bg) != math.Float64bits(f) {
			if !(f != f) {
				c.Fail("Float64FromBytes of %v = %v (little endian), %v (big endian)", f, l, bg)
			}
		}
		c.Count("bit set checks", 1)
		c.Eval(hashStr(fmt.Sprint(bs, vs)), cnt > 0)
	}
	// comparisons
	for k := 0; k < 20; k++ {
		n := r.Range(0, 8)
		a := make([]float64, n)
		b := make([]float64, n)
		thr := r.PickF(0, 1e-9, 1e-3, 1, math.Inf(1))
		mism := 0
		for i := range a {
			a[i] = anyFloat(r)
			switch r.N(6) {
			case 0:
				b[i] = anyFloat(r)
			case 1:
				b[i] = a[i] + r.PickF(-1, 1)*thr
			case 2:
				b[i] = a[i] + r.PickF(-2, 2, 0.5)*thr
			case 3:
				b[i] = math.NaN()
			default:
				b[i] = a[i]
			}
			switch d := math.Abs(a[i] - b[i]); {
			case a[i] != a[i] || b[i] != b[i]:
				mism++
				c.Count("NaN comparisons", 1)
			case a[i] == b[i]:
			case !(d <= thr):
				mism++
			}
			if util.AlmostEqualFloat64(a[i], b[i], thr) != (math.Abs(a[i]-b[i]) <= thr) {
				c.Fail("AlmostEqualFloat64(%v, %v, %v)", a[i], b[i], thr)
			}
		}
		got, err := util.NumMismatchedFloat64Slices(a, b, thr)
		if err != nil || got != mism {
			c.Fail("NumMismatchedFloat64Slices(%v, %v, %v) = %d, %v; want %d", a, b, thr, got, err, mism)
		}
		if err := util.AlmostEqualFloat64Slices(a, b, thr); (err == nil) != (mism == 0) {
			c.Fail("AlmostEqualFloat64Slices(%v, %v, %v) = %v with %d mismatches", a, b, thr, err, mism)
		}
		if _, err := util.NumMismatchedFloat64Slices(append(a, 1), b, thr); err == nil {
			c.Fail("NumMismatchedFloat64Slices accepts different lengths")
		}
		if err := util.AlmostEqualFloat64Slices(a, append(b, 1), thr); err == nil {
			c.Fail("AlmostEqualFloat64Slices accepts different lengths")
		}
		c.Count("slice comparisons", 1)
		c.Eval(hashF(hashF(3, a), b), n > 0)
	}
	// key=value blocks
	eol := r.PickS("\n", "\n", "\r\n")
	nb := r.Range(1, 4)
	var text strings.Builder
	type kv struct{ k, v string }
	var blocks [][]kv
	for b := 0; b < nb; b++ {
		for i := r.N(4); i > 0; i-- {
			text.WriteString(r.PickS("", " ", "\t") + eol)
		}
		var kvs []kv
		for i := r.Range(1, 8); i > 0; i-- {
			k := fmt.Sprintf("key%d", r.N(30))
			dup := false
			for _, o := range kvs {
				dup = dup || o.k == k
			}
			if dup {
				continue
			}
			var v string
			switch r.N(8) {
			case 7: // unusual spellings
				m := r.Range(1, 4)
				ss := make([]string, m)
				for i := range ss {
					ss[i] = r.PickS("010", "007", "0x10", "0b11", "0o7", "1_000", "+5", "-0", "1e3", "00", "0x1p4", "1.", ".5", "0", "12", "Inf", "nan", "1.0")
				}
				v = strings.Join(ss, r.PickS(" ", " ", " ", "  ", "\t"))
			case 0:
				v = strconv.Itoa(int(int64(r.U64())) >> uint(r.N(63)))
			case 1:
				m := r.Range(1, 6)
				ss := make([]string, m)
				for i := range ss {
					ss[i] = strconv.FormatUint(uint64(uint32(r.U64())>>uint(r.N(32))), 10)
				}
				v = strings.Join(ss, " ")
			case 2:
				m := r.Range(1, 6)
				ss := make([]string, m)
				for i := range ss {
					ss[i] = strconv.FormatInt(int64(int32(r.U64())>>uint(r.N(31))), 10)
				}
				v = strings.Join(ss, " ")
			case 3:
				m := r.Range(1, 6)
				ss := make([]string, m)
				for i := range ss {
					ss[i] = spell(r, anyFloat(r))
				}
				v = strings.Join(ss, " ")
			case 4:
				v = r.PickS("multiclass num_class:3", "x", "a:b c:d", "-", "1 2 x", "4294967296", "2147483648", "99999999999999999999", "1,2", "-1")
			case 5:
				v = ""
			default:
				v = strings.Repeat("12345 ", r.Range(1, 1500)) + "6" // longer than the buffer
			}
			kvs = append(kvs, kv{k, v})
			line := k + "=" + v
			if v == "" && r.Bool() {
				line = k
			}
			if r.N(8) == 0 {
				line = " " + line + " "
			}
			text.WriteString(line + eol)
		}
		if r.N(8) == 0 {
			v := "a=b c==d e"
			kvs = append(kvs, kv{"feature_names", v})
			text.WriteString("feature_names=" + v + eol)
		}
		blocks = append(blocks, kvs)
		if b < nb-1 || r.Bool() {
			text.WriteString(eol)
		}
	}
	s := text.String()
	if r.N(4) == 0 {
		s = strings.TrimRight(s, "\r\n") // the last line ends with the stream
	}
	c.Dump("text", s)
	br := matReader(r, []byte(s), -1)
	// whatever was returned stays what it was while further calls are made
	var kept []func()
	defer func() {
		for _, f := range kept {
			f()
		}
		c.Count("results checked again after later calls", len(kept))
	}()
	for bi, kvs := range blocks {
		p, err := util.ReadParamsUntilBlank(br)
		if err != nil {
			if bi == len(blocks)-1 && len(kvs) == 1 && !strings.HasSuffix(s, "\n") {
				// a block of one line without its end: not a complete block
				return
			}
			c.Fail("ReadParamsUntilBlank, block %d of %d: %v", bi, len(blocks), err)
		}
		if len(p) != len(kvs) {
			c.Fail("block %d has %d keys, want %d: %v", bi, len(p), len(kvs), kvs)
		}
		kvs, bi := kvs, bi
		kept = append(kept, func() {
			if len(p) != len(kvs) {
				c.Fail("block %d had %d keys, after later calls it has %d", bi, len(kvs), len(p))
			}
			for _, e := range kvs {
				if g, err := p.ToString(e.k); err != nil || g != e.v {
					c.Fail("key %s of block %d was %q, after later calls it is %q, %v", e.k, bi, e.v, g, err)
				}
			}
		})
		for _, e := range kvs {
			if !p.Contains(e.k) {
				c.Fail("key %s is lost", e.k)
			}
			if g, err := p.ToString(e.k); err != nil || g != e.v {
				c.Fail("key %s is %q, %v; the text says %q", e.k, g, err, e.v)
			}
			if err := p.Compare(e.k, e.v); err != nil {
				c.Fail("Compare(%s, its value): %v", e.k, err)
			}
			if err := p.Compare(e.k, e.v+"x"); err == nil {
				c.Fail("Compare(%s, another value) passes", e.k)
			}
			near := []string{" " + e.v, e.v + " ", "0" + e.v, "+" + e.v, e.v + ".0", strings.ToUpper(e.v), strings.ToLower(e.v), strings.Title(e.v), strings.Replace(e.v, " ", "", -1)}
			if len(e.v) > 0 {
				near = append(near, e.v[1:], e.v[:len(e.v)-1])
			}
			for _, v := range near {
				if err := p.Compare(e.k, v); v != e.v && err == nil {
					c.Fail("Compare(%s, %q) passes, the value is %q", e.k, v, e.v)
				}
			}
			wi, we := strconv.ParseInt(e.v, 10, 64)
			if g, err := p.ToInt(e.k); (err == nil) != (we == nil) || (we == nil && int64(g) != wi) {
				c.Fail("ToInt(%q) = %d, %v", e.v, g, err)
			}
			toks := strings.Split(e.v, " ")
			if g, err := p.ToStrSlice(e.k); err != nil || strings.Join(g, "\x00") != strings.Join(toks, "\x00") {
				c.Fail("ToStrSlice(%q) = %q, %v", e.v, g, err)
			}
			var wf []float64
			var wu []uint32
			var w32 []int32
			ef, eu, e3 := false, false, false
			for _, t := range toks {
				f, err := strconv.ParseFloat(t, 64)
				ef = ef || err != nil
				wf = append(wf, f)
				u, err := strconv.ParseUint(t, 10, 32)
				eu = eu || err != nil
				wu = append(wu, uint32(u))
				i, err := strconv.ParseInt(t, 10, 32)
				e3 = e3 || err != nil
				w32 = append(w32, int32(i))
			}
			if g, err := p.ToFloat64Slice(e.k); !strings.Contains(e.v, "0x") && ((err != nil) != ef || (!ef && sameMat(g, wf) >= 0)) {
				c.Fail("ToFloat64Slice(%q) = %v, %v", trunc(e.v, 200), g, err)
			}
			if g, err := p.ToUint32Slice(e.k); (err != nil) != eu || (!eu && fmt.Sprint(g) != fmt.Sprint(wu)) {
				c.Fail("ToUint32Slice(%q) = %v, %v", trunc(e.v, 200), g, err)
			}
			if g, err := p.ToInt32Slice(e.k); (err != nil) != e3 || (!e3 && fmt.Sprint(g) != fmt.Sprint(w32)) {
				c.Fail("ToInt32Slice(%q) = %v, %v", trunc(e.v, 200), g, err)
			} else if !eu && !e3 {
				gu, _ := p.ToUint32Slice(e.k)
				gf, _ := p.ToFloat64Slice(e.k)
				gs, _ := p.ToStrSlice(e.k)
				v := e.v
				kept = append(kept, func() {
					if fmt.Sprint(g) != fmt.Sprint(w32) || fmt.Sprint(gu) != fmt.Sprint(wu) || sameMat(gf, wf) >= 0 || strings.Join(gs, "\x00") != strings.Join(toks, "\x00") {
						c.Fail("the numbers of %q were right, after later calls they are %v, %v, %v, %q", trunc(v, 200), g, gu, gf, gs)
					}
				})
			}
			c.Count("parameters checked", 1)
		}
		if p.Contains("nokey") {
			c.Fail("Contains of a key that is not there")
		}
		_, e1 := p.ToInt("nokey")
		_, e2 := p.ToString("nokey")
		_, e3 := p.ToStrSlice("nokey")
		_, e4 := p.ToFloat64Slice("nokey")
		_, e5 := p.ToUint32Slice("nokey")
		_, e6 := p.ToInt32Slice("nokey")
		if e1 == nil || e2 == nil || e3 == nil || e4 == nil || e5 == nil || e6 == nil || p.Compare("nokey", "") == nil {
			c.Fail("a key that is not there is converted without error")
		}
		c.Count("parameter blocks", 1)
	}
	c.Eval(hashStr(s), true)
	// so is one whose key the block has given before, wherever it stands
	for k := 0; k < 3; k++ {
		var ls []string
		for i, n := 0, r.Range(1, 6); i < n; i++ {
			ls = append(ls, fmt.Sprintf("k%d=%d", i, r.N(100)))
		}
		key := fmt.Sprintf("k%d", r.N(len(ls)))
		bad := key + r.PickS("=1=2", "=1=", "==", "=x=y=z", "==1")
		if r.N(3) == 0 {
			bad = fmt.Sprintf("k%d=%d=%d", r.N(9), r.N(100), r.N(100))
		}
		at := r.Range(0, len(ls))
		ls = append(ls[:at:at], append([]string{bad}, ls[at:]...)...)
		if p, err := util.ReadParamsUntilBlank(matReader(r, []byte(strings.Join(ls, "\n")+"\n\n"), -1)); err == nil {
			c.Dump("lines", ls)
			c.Fail("ReadParamsUntilBlank accepts the line %s in %q: %v", bad, ls, p)
		}
		c.Count("malformed lines rejected", 1)
	}
	// a line with more than one '=' is an error, so is the end of the stream
	if _, err := util.ReadParamsUntilBlank(matReader(r, []byte("a=1\nb=2=3\n\n"), -1)); err == nil {
		c.Fail("ReadParamsUntilBlank accepts b=2=3")
	}
	if _, err := util.ReadParamsUntilBlank(matReader(r, []byte(strings.Repeat("\n", r.N(4))), -1)); err == nil {
		c.Fail("ReadParamsUntilBlank finds a block in an empty stream")
	}
	c.Sample("%d blocks, text %q", nb, trunc(s, 150))
}

// ---------- C19: files ----------

// fileName is a name the system takes as it is, whatever a shell, a format or
// an URL would make of it.
func fileName(r *Rng, base string) string {
	switch r.N(3) {
	case 0:
		return base
	case 1:
		return r.PickS(base+" with space.txt", "модель.bin", ".hidden", base+".gz", base+".txt.bak", base+"~", "~", "~root", "-", "-"+base, "--help")
	}
	return r.PickS("$HOME", "${HOME}", base+"$v1.bin", "%41%20.txt", "a%2Fb", "%s%d", "a*b?.txt", "[a-z]", "{a,b}", "a:b", "file:"+base, "a\\b", "a\nb", "a\tb", "\"q\" 'q'", "a|b", "a;b&c", "#"+base, "\xff\xfe", " "+base+" ", "...", "..a", strings.Repeat("n", 255), "nul", "http:", "é", "e\u0301", "`id`", "<a>", "a,b", "!x", "1")
}

// spellPath writes a path in another way that means the same file.
func spellPath(r *Rng, p string) string {
	dir, name := filepath.Split(p)
	switch r.N(5) {
	case 0:
		return dir + "./" + name
	case 1:
		return dir + "/" + name
	case 2:
		return dir + "../" + filepath.Base(filepath.Clean(dir)) + "/" + name
	case 3:
		wd, err := os.Getwd()
		if err != nil {
			panic(err)
		}
		rel, err := filepath.Rel(wd, p)
		if err != nil {
			panic(err)
		}
		return rel
	}
	return p
}

// fileLoader is the function that loads models of the kind from a file (nil: there is none)
func fileLoader(kind string) func(string, bool) (*leaves.Ensemble, error) {
	switch kind {
	case "lgtext", "lgrf":
		return leaves.LGEnsembleFromFile
	case "xgtree", "xgdart":
		return leaves.XGEnsembleFromFile
	case "xglin":
		return leaves.XGBLinearFromFile
	case "sk":
		return leaves.SKEnsembleFromFile
	}
	return nil
}

func runFiles(c *C) {
	r := c.R
	kind := kinds[c.Idx%len(kinds)]
	dir := scratch(c)
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, fileName(r, "model"))
	debug.SetGCPercent(-1) // a finalizer must not close what the library forgot
	defer debug.SetGCPercent(100)
	if kind == "lgjson" { // no FromFile for JSON models: matrices instead
		runMatFiles(c, dir)
		return
	}
	o := smallOpt()
	damages := 12
	if c.Idx < len(kinds) { // files of many megabytes
		damages = 1
		o.leaves, o.groups, o.nfeat = 12, 1, 8
		switch kind {
		case "lgtext", "lgrf":
			o.iters = 40000
		case "xgtree", "xgdart":
			o.iters = 36000
		case "xglin":
			o.nfeat, o.groups = 1500000, 3
		case "sk":
			o.iters = 6000
		}
	}
	z := makeZoo(c, kind, o, r.Bool())
	if len(z.bytes) > 16<<20 {
		c.Count("files of more than 16 MB loaded", 1)
	}
	tr := z.tr != "" && z.tr != "raw" && r.Bool()
	fromFile := fileLoader(kind)
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	must(os.WriteFile(path, z.bytes, 0600))
	rows := make([][]float64, 8)
	for i := range rows {
		rows[i] = z.row(r)
	}
	want := takePrint(c, z.mustLoad(c, tr), rows)
	fds := countFds()
	e, err := fromFile(path, tr)
	if err != nil {
		c.Fail("%s: loading from a file failed, loading the same bytes from a reader works: %v", kind, err)
	}
	if got := takePrint(c, e, rows); !got.same(want) {
		c.Fail("%s: loaded from a file the model is %s %v, from a reader %s %v", kind, got.meta, got.out, want.meta, want.out)
	}
	if n := countFds(); n > fds {
		c.Fail("%s: loading from a file left %d files open", kind, n-fds)
	}
	c.Count("files loaded", 1)
	c.Eval(hashBytes(z.bytes), true)
	if b, err := os.ReadFile(path); err != nil || !bytes.Equal(b, z.bytes) {
		c.Fail("%s: loading changed the file", kind)
	}
	must(os.WriteFile(path, bytes.Repeat([]byte{0}, len(z.bytes)), 0600))
	if got := takePrint(c, e, rows); !got.same(want) {
		c.Fail("%s: after the file changed the loaded model predicts %v instead of %v", kind, got.out, want.out)
	}
	// damaged files: same outcome as from a reader, nothing left open
	for k := 0; k < damages; k++ {
		var b []byte
		what := ""
		switch r.N(5) {
		case 0:
			b, what = z.bytes[:r.N(len(z.bytes))], "truncated"
		case 1:
			b, what = nil, "empty"
		case 2:
			if b, what = z.bytes, "as it is"; len(b) < 1<<20 {
				b, what = wrapped(r, z.bytes)
				c.Count("files in a wrapping", 1)
			}
		default:
			b, what = mutBytes(r, z.bytes)
		}
		c.Dump("damage", what)
		must(os.WriteFile(path, b, 0600))
		fds := countFds()
		e1, err1 := fromFile(path, tr)
		if n := countFds(); n > fds {
			c.Fail("%s: loading a damaged file (%s, result %v) left %d files open", kind, what, err1, n-fds)
		}
		e2, err2 := z.load(b, tr)
		if (err1 == nil) != (err2 == nil) {
			c.Fail("%s: a damaged file (%s) gives %v, the same bytes from a reader %v", kind, what, err1, err2)
		}
		if err1 != nil {
			c.Count("failing loads", 1)
		} else if e1.NFeatures() == z.nfeat && e1.NOutputGroups() == z.groups {
			if !takePrint(c, e1, rows).same(takePrint(c, e2, rows)) {
				c.Fail("%s: a damaged file (%s) predicts differently from the same bytes in a reader", kind, what)
			}
		}
		c.Eval(hashBytes(b)^1, true)
	}
	// other kinds of files: links, a named pipe, a file of somebody else
	must(os.WriteFile(path, z.bytes, 0600))
	loadAs := func(what, p string) {
		e, err := fromFile(p, tr)
		if err != nil {
			c.Fail("%s: loading from %s failed: %v", kind, what, err)
		}
		if got := takePrint(c, e, rows); !got.same(want) {
			c.Fail("%s: loaded from %s the model is %s %v, from a reader %s %v", kind, what, got.meta, got.out, want.meta, want.out)
		}
		c.Count("loads from "+what, 1)
	}
	loadAs("another spelling of the path", spellPath(r, path))
	link := filepath.Join(dir, "link")
	must(os.Symlink(path, link))
	loadAs("a link", link)
	if r.N(4) == 0 {
		throughPipe(c, dir, z.bytes, func(p string) { loadAs("a named pipe", p) })
	}
	if r.N(4) == 0 {
		asOther(c, dir, path, func(p string) { loadAs("a read-only file of another user", p) }, func(p string) {
			if e, err := fromFile(p, tr); err == nil || e != nil {
				c.Fail("%s: loading from an unreadable file gave %v, %v", kind, e, err)
			}
		})
	}
	for _, p := range []string{filepath.Join(dir, "missing"), dir, "", filepath.Join(path, "x")} {
		fds := countFds()
		e, err := fromFile(p, tr)
		if err == nil || e != nil {
			c.Fail("%s: loading from %q gave %v, %v", kind, p, e, err)
		}
		if n := countFds(); n > fds {
			c.Fail("%s: loading from %q left %d files open", kind, p, n-fds)
		}
		c.Count("unreadable paths", 1)
	}
	if c.Idx >= len(kinds) && r.N(3) == 0 {
		runOverlapFiles(c, dir, kind)
	}
	c.Sample("%s, %d bytes", z.describe(), len(z.bytes))
}

// wrapped writes a file the way other tools might hand it on.
func wrapped(r *Rng, b []byte) ([]byte, string) {
	var w bytes.Buffer
	squeeze := func(what string, z io.WriteCloser) ([]byte, string) {
		z.Write(b)
		z.Close()
		return w.Bytes(), what
	}
	switch r.N(16) {
	case 0:
		return squeeze("gzip", gzip.NewWriter(&w))
	case 1:
		return squeeze("zlib", zlib.NewWriter(&w))
	case 2:
		f, _ := flate.NewWriter(&w, 5)
		return squeeze("deflate", f)
	case 3:
		z := zip.NewWriter(&w)
		if f, err := z.Create("model"); err == nil {
			f.Write(b)
		}
		z.Close()
		return w.Bytes(), "zip"
	case 4:
		t := tar.NewWriter(&w)
		t.WriteHeader(&tar.Header{Name: "model", Mode: 0600, Size: int64(len(b))})
		t.Write(b)
		t.Close()
		return w.Bytes(), "tar"
	case 5, 6:
		return append([]byte("\xef\xbb\xbf"), b...), "byte order mark"
	case 7:
		w.WriteString(r.PickS("\xff\xfe", "\xfe\xff"))
		lo := r.N(2)
		for _, x := range b {
			w.Write([][]byte{{x, 0}, {0, x}}[lo])
		}
		return w.Bytes(), "UTF-16"
	case 8:
		return append([]byte(r.PickS("\n", "\r\n", " ", "\t", "\x00", "\n\n\n")), b...), "space in front"
	case 9:
		return append(cutCopy(b), r.PickS("\n", "\r\n", "\x1a", "\x00", "\n\n\n", " ")...), "something behind"
	case 10:
		return []byte(base64.StdEncoding.EncodeToString(b)), "base64"
	case 11:
		return append([]byte(r.PickS("#!/usr/bin/leaves\n", "# comment\n", "// x\n", "sep=,\n", "%\n", "binf", "bs64\t")), b...), "line in front"
	case 12:
		return bytes.ReplaceAll(b, []byte("\n"), []byte(r.PickS("\r\n", "\r", "\n\n", "\x00"))), "other line ends"
	case 13:
		return append(cutCopy(b), b...), "twice"
	case 14:
		return []byte(strings.ToUpper(string(b))), "upper case"
	}
	return bytes.TrimSpace(b), "trimmed"
}

// throughPipe makes a named pipe that delivers the bytes to whoever opens it.
func throughPipe(c *C, dir string, b []byte, f func(path string)) {
	p := filepath.Join(dir, "pipe")
	if err := syscall.Mkfifo(p, 0600); err != nil {
		panic(err)
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		fd, err := syscall.Open(p, syscall.O_WRONLY, 0) // waits for a reader
		if err != nil {
			return
		}
		for i := 0; i < len(b); {
			n, err := syscall.Write(fd, b[i:i+minI(7000, len(b)-i)])
			if err != nil {
				break // nobody reads any more
			}
			i += n
		}
		syscall.Close(fd)
	}()
	defer func() {
		// let a waiting writer go, and one that is not there yet
		fd, err := syscall.Open(p, syscall.O_RDONLY|syscall.O_NONBLOCK, 0)
		if err != nil {
			return
		}
		defer syscall.Close(fd)
		for buf := make([]byte, 1<<16); ; {
			select {
			case <-done:
				return
			default:
			}
			if n, _ := syscall.Read(fd, buf); n <= 0 {
				time.Sleep(time.Millisecond)
			}
		}
	}()
	f(p)
}

// asOther calls readable with a file that this thread may only read, and
// unreadable with one that it must not. Root's rights are put down for the
// thread by switching its file system user.
func asOther(c *C, dir, path string, readable, unreadable func(path string)) {
	if err := os.Chmod(dir, 0755); err != nil {
		panic(err)
	}
	if err := os.Chmod(path, 0444); err != nil {
		panic(err)
	}
	secret := filepath.Join(dir, "secret")
	if err := os.WriteFile(secret, []byte("x"), 0600); err != nil {
		panic(err)
	}
	if err := os.Chdir(dir); err != nil { // the directories above are closed to others
		panic(err)
	}
	defer os.Chdir("/")
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	defer os.Chmod(path, 0600)
	syscall.Setfsuid(65534)
	defer syscall.Setfsuid(0)
	fd, err := syscall.Open("secret", syscall.O_RDONLY, 0)
	if err == nil {
		syscall.Close(fd)
		c.Count("file system user not switched", 1)
		return
	}
	if fd, err := syscall.Open(filepath.Base(path), syscall.O_RDONLY, 0); err != nil {
		c.Count("file system user not switched", 1)
		return
	} else {
		syscall.Close(fd)
	}
	readable(filepath.Base(path))
	unreadable("secret")
	c.Count("files of other users", 1)
}

func runMatFiles(c *C, dir string) {
	r := c.R
	path := filepath.Join(dir, fileName(r, "data"))
	rows, cols := r.Range(1, 20), r.Range(1, 8)
	calls := 10
	if c.Idx < len(kinds) { // files of many megabytes
		rows, cols, calls = 110000, 7, 3
		c.Count("files of more than 16 MB loaded", 1)
	}
	delim := r.PickS(",", "\t", ";")
	var sv, cv strings.Builder
	for i := 0; i < rows; i++ {
		sv.WriteString("1")
		for j := 0; j < cols; j++ {
			v := anyFloat(r)
			fmt.Fprintf(&sv, " %d:%s", j, spell(r, v))
			if j > 0 {
				cv.WriteString(delim)
			}
			cv.WriteString(spell(r, v))
		}
		sv.WriteString("\n")
		cv.WriteString("\n")
	}
	lim := r.Pick(0, 0, 1, rows)
	if calls == 3 {
		lim = 0
	}
	skip := r.N(3) == 0
	type outcome struct {
		s   string
		err bool
	}
	show := func(m interface{}, err error) outcome {
		switch x := m.(type) {
		case *mat.DenseMat:
			if x != nil {
				return outcome{fmt.Sprint(x.Rows, x.Cols, x.Values), err != nil}
			}
		case *mat.CSRMat:
			if x != nil {
				return outcome{fmt.Sprint(x.RowHeaders, x.ColIndexes, x.Values), err != nil}
			}
		}
		return outcome{"", err != nil}
	}
	for k := 0; k < calls; k++ {
		text := sv.String()
		if k%3 == 2 {
			text = cv.String()
		}
		if k >= 3 {
			b := []byte(text)
			if r.N(3) == 0 {
				b, _ = wrapped(r, b)
				c.Count("files in a wrapping", 1)
			} else {
				b, _ = mutBytes(r, b)
			}
			text = string(b)
		}
		if err := os.WriteFile(path, []byte(text), 0600); err != nil {
			panic(err)
		}
		rd := func() *bufio.Reader { return bufio.NewReader(strings.NewReader(text)) }
		fds := countFds()
		var a, b outcome
		switch k % 3 {
		case 0:
			a = show(mat.DenseMatFromLibsvmFile(path, lim, !skip))
			b = show(mat.DenseMatFromLibsvm(rd(), lim, !skip))
		case 1:
			a = show(mat.CSRMatFromLibsvmFile(path, lim, !skip))
			b = show(mat.CSRMatFromLibsvm(rd(), lim, !skip))
		default:
			a = show(mat.DenseMatFromCsvFile(path, lim, skip, delim, 7))
			b = show(mat.DenseMatFromCsv(rd(), lim, skip, delim, 7))
		}
		if n := countFds(); n > fds {
			c.Fail("reading a matrix from a file left %d files open (error %v)", n-fds, a.err)
		}
		if len(text) > 1<<20 {
			runtime.GC()
		}
		if a != b {
			c.Dump("text", text)
			c.Fail("a matrix read from a file is %q (error %v), from a reader %q (error %v)", trunc(a.s, 300), a.err, trunc(b.s, 300), b.err)
		}
		if a.err {
			c.Count("failing loads", 1)
		}
		c.Count("matrix files", 1)
		c.Eval(hashStr(text), true)
	}
	for k, text := range []string{sv.String(), sv.String(), cv.String()} {
		text := text
		if len(text) > 1<<20 {
			runtime.GC()
		}
		check := func(p string) {
			rd := func() *bufio.Reader { return bufio.NewReader(strings.NewReader(text)) }
			var a, b outcome
			switch k {
			case 0:
				a = show(mat.DenseMatFromLibsvmFile(p, lim, !skip))
				b = show(mat.DenseMatFromLibsvm(rd(), lim, !skip))
			case 1:
				a = show(mat.CSRMatFromLibsvmFile(p, lim, !skip))
				b = show(mat.CSRMatFromLibsvm(rd(), lim, !skip))
			default:
				a = show(mat.DenseMatFromCsvFile(p, lim, skip, delim, 7))
				b = show(mat.DenseMatFromCsv(rd(), lim, skip, delim, 7))
			}
			if a != b {
				c.Dump("text", text)
				c.Fail("a matrix read from the file %q is %q (error %v), from a reader %q (error %v)", p, trunc(a.s, 300), a.err, trunc(b.s, 300), b.err)
			}
		}
		sub := filepath.Join(dir, fmt.Sprint("m", k))
		if err := os.Mkdir(sub, 0755); err != nil {
			panic(err)
		}
		fp := filepath.Join(sub, fileName(r, "file"))
		if err := os.WriteFile(fp, []byte(text), 0600); err != nil {
			panic(err)
		}
		check(spellPath(r, fp))
		switch r.N(8) {
		case 0:
			throughPipe(c, sub, []byte(text), check)
			c.Count("matrices from pipes", 1)
		case 1:
			asOther(c, sub, fp, check, func(p string) {
				_, e1 := mat.DenseMatFromLibsvmFile(p, 0, true)
				_, e2 := mat.CSRMatFromLibsvmFile(p, 0, true)
				_, e3 := mat.DenseMatFromCsvFile(p, 0, true, ",", 0)
				if e1 == nil || e2 == nil || e3 == nil {
					c.Fail("reading a matrix from an unreadable file gave %v, %v, %v", e1, e2, e3)
				}
			})
		}
	}
	for _, p := range []string{filepath.Join(dir, "missing"), dir} {
		fds := countFds()
		_, e1 := mat.DenseMatFromLibsvmFile(p, 0, true)
		_, e2 := mat.CSRMatFromLibsvmFile(p, 0, true)
		_, e3 := mat.DenseMatFromCsvFile(p, 0, true, ",", 0)
		if e1 == nil || e2 == nil || e3 == nil {
			c.Fail("reading a matrix from %q gave %v, %v, %v", p, e1, e2, e3)
		}
		if n := countFds(); n > fds {
			c.Fail("reading a matrix from %q left %d files open", p, n-fds)
		}
		c.Count("unreadable paths", 1)
	}
}

func init() {
	register(&Property{
		ID: "C14", Level: "exploration", Quick: 250000, Thorough: 4000000,
		Rule: "One case = one generated libsvm file (dense or sparse), CSV file, or in-memory array, written by the harness from a known matrix with varied spellings of numbers, delimiters, absent values, line ends, spaces, limits, reader chunking and buffer sizes, read through the public readers and compared value for value (bit for bit) and shape for shape; then the same file with one damaged line or ragged row, and with a read error, both of which have to be reported. Every 400th case reads 2..6 different files at the same time, through readers that let the other goroutines run between pieces; every 40th reads 3..16 small matrices, keeps and changes them, and looks at all of them again. The first cases have more rows, columns or a larger limit than 16 (and 32) bits hold. An evaluation is one file; non-trivial: it has at least one row; distinct: different text.",
		Need: []string{"libsvm dense matrices", "libsvm csr matrices", "csv matrices", "array matrices", "absent values", "rows without features", "malformed files rejected", "read errors reported", "garbage after the limit", "columns with leading zeros", "files read in parts", "impossible shapes refused", "long or wide matrices", "files read at the same time", "matrices kept and changed"},
		Assume: []string{"blank lines end a file (as the readers document by their behaviour); blank lines between rows are not generated",
			"CSV fields carry no spaces around the number and no quotes"},
		Run: func(c *C) {
			if c.Idx%400 == 13 {
				runOverlapReads(c)
				return
			}
			if c.Idx%40 == 17 {
				runKeptMats(c)
				return
			}
			switch c.Idx % 5 {
			case 0, 1:
				runLibsvm(c)
			case 2, 3:
				runCsv(c)
			default:
				runArrays(c)
			}
		},
	})
	register(&Property{
		ID: "C15", Level: "fault_enumeration", Quick: 1400, Thorough: 48000,
		Rule: "One case = one matrix of arbitrary float64 values (NaN, infinities, -0, subnormals, extreme exponents) and a delimiter; written with WriteStr, parsed back independently and with DenseMatFromCsv (bit-exact), written through a writer that fails at each byte offset (every byte up to 400 bytes, else about 100 random offsets), and written with ToCsvFile to a new file, over a longer file, to unwritable paths and to files that cannot grow (RLIMIT_FSIZE at the last byte, at buffer boundaries and anywhere). Every sixth case writes 2..6 different matrices at the same time instead. An evaluation is one matrix; non-trivial: all; distinct: different text.",
		Need: []string{"round trips", "write errors reported", "passing write errors reported", "values NaN", "values infinite", "values -0", "values subnormal", "files overwritten", "full files reported", "files written by another name", "pipes written", "matrices written at the same time"},
		Run: func(c *C) {
			if c.Idx%6 == 5 {
				runOverlapWrites(c)
				return
			}
			runWriter(c)
		},
	})
	register(&Property{
		ID: "C18", Level: "exploration", Quick: 40000, Thorough: 2000000,
		Rule: "One case = 40 random bit sets, index sets, integer pairs and float byte strings, 20 pairs of float slices and one stream of key=value blocks, each given to the util helpers and compared with math/bits, strconv and set arithmetic; and three blocks with a malformed line anywhere, of a new or a repeated key, which have to be refused. An evaluation is one such input; non-trivial: non-empty; distinct: different input.",
		Need: []string{"bit set checks", "slice comparisons", "NaN comparisons", "parameters checked", "parameter blocks", "malformed lines rejected"},
		Run:  runUtil,
	})
	register(&Property{
		ID: "C19", Level: "exploration", Quick: 10000, Thorough: 400000,
		MemGB: 16, // the first cases have files of some hundred MB
		Rule:  "One case = one model (or matrix) written to a scratch file, loaded with the FromFile function and compared with FromReader on the same bytes (metadata, predictions), the first seven cases with files of 16 MB and more, then 12 damaged versions of the file, links, named pipes, read-only files of another user (with the file system user of the thread switched) and unreadable paths. The number of entries of /proc/self/fd is compared before and after every call, with garbage collection off so that no finalizer can close a forgotten file. An evaluation is one file; non-trivial: all; distinct: different bytes.",
		Need:  []string{"files loaded", "files of more than 16 MB loaded", "failing loads", "unreadable paths", "matrix files", "loads from a link", "loads from a named pipe", "matrices from pipes", "files loaded at the same time"},
		Run:   runFiles,
	})
}
