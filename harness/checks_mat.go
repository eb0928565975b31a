//go:build go1.23

package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"math"
	"os"
	"os/signal"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"

	"github.com/dmitryikh/leaves/mat"
	"github.com/dmitryikh/leaves/util"
)

// ---- C17 ---------------------------------------------------------------------------------------------------------

// refEntry is a value of a sparse row
type refEntry struct {
	col int
	val float64
}

// verdicts of the reference parsers
const (
	refOK     = iota
	refError  // has to be refused
	refEither // may be refused, but if not, has to be right
)

func isDigits(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return true
}

// refLibsvm is the reference reader
func refLibsvm(text string, limit int, skip bool) ([][]refEntry, int) {
	var rows [][]refEntry
	verdict := refOK
	for _, line := range strings.Split(text, "\n") {
		line = strings.Trim(line, " \t\r")
		if line == "" {
			continue
		}
		if limit > 0 && len(rows) == limit {
			break
		}
		var row []refEntry
		n := 0
		for _, tok := range strings.Split(line, " ") {
			if tok == "" {
				continue
			}
			n++
			if skip && n == 1 {
				continue
			}
			k := strings.IndexByte(tok, ':')
			if k < 0 {
				return nil, refError
			}
			col, err := strconv.ParseUint(tok[:k], 10, 64)
			if err != nil || !isDigits(tok[:k]) || col > math.MaxUint32 {
				return nil, refError
			}
			v, err := strconv.ParseFloat(tok[k+1:], 64)
			if err != nil {
				return nil, refError
			}
			row = append(row, refEntry{int(col), v})
		}
		if n < 2 {
			verdict = refEither
		}
		rows = append(rows, row)
	}
	return rows, verdict
}

// refDense turns sparse rows into a dense matrix, if they have that form
func refDense(rows [][]refEntry) ([]float64, int, bool) {
	var vals []float64
	cols := 0
	for i, r := range rows {
		if i == 0 {
			cols = len(r)
		}
		if len(r) != cols {
			return nil, 0, false
		}
		for j, e := range r {
			if e.col != j {
				return nil, 0, false
			}
			vals = append(vals, e.val)
		}
	}
	return vals, cols, true
}

func checkLibsvm(c *C, text string) { checkLibsvmVia(c, text, "", []int{-1, 0, 1, 2, 3, 100}) }

// checkLibsvmVia compares what is read from a stream, or from a file if one is named, with the reference
func checkLibsvmVia(c *C, text, file string, limits []int) {
	if file != "" {
		if err := os.WriteFile(file, []byte(text), 0644); err != nil {
			c.Failf("%v", err)
		}
	}
	sparse := func(limit int, skip bool) (*mat.CSRMat, error) {
		if file != "" {
			return mat.CSRMatFromLibsvmFile(file, limit, skip)
		}
		return mat.CSRMatFromLibsvm(bufio.NewReaderSize(strings.NewReader(text), 16), limit, skip)
	}
	dense := func(limit int, skip bool) (*mat.DenseMat, error) {
		if file != "" {
			return mat.DenseMatFromLibsvmFile(file, limit, skip)
		}
		return mat.DenseMatFromLibsvm(bufio.NewReaderSize(strings.NewReader(text), 16), limit, skip)
	}
	for _, limit := range limits {
		for _, skip := range []bool{false, true} {
			rows, verdict := refLibsvm(text, limit, skip)
			c.Trans(2)
			desc := func(what string) string {
				return fmt.Sprintf("%s of %q (file %q), limit %d, skip label %v", what, text, file, limit, skip)
			}
			sp, err := sparse(limit, skip)
			if err == nil && verdict == refError {
				c.Failf("%s: malformed text is accepted", desc("sparse matrix"))
			}
			if err != nil && verdict == refOK {
				c.Failf("%s: refused: %v", desc("sparse matrix"), err)
			}
			if err == nil {
				c.Traces(1)
				ip, n := []int{0}, 0
				for _, r := range rows {
					for _, e := range r {
						if n >= len(sp.Values) || n >= len(sp.ColIndexes) || sp.ColIndexes[n] != e.col || !same(sp.Values[n], e.val) || math.Signbit(sp.Values[n]) != math.Signbit(e.val) {
							c.Failf("%s: entry %d: want column %d value %v; got %v", desc("sparse matrix"), n, e.col, e.val, *sp)
						}
						n++
					}
					ip = append(ip, n)
				}
				if len(sp.Values) != n || len(sp.ColIndexes) != n || fmt.Sprint(sp.RowHeaders) != fmt.Sprint(ip) || sp.Rows() != len(rows) {
					c.Failf("%s: want %d rows with bounds %v; got %v", desc("sparse matrix"), len(rows), ip, *sp)
				}
			}
			vals, cols, ok := []float64(nil), 0, false
			if verdict != refError {
				vals, cols, ok = refDense(rows)
			}
			d, err := dense(limit, skip)
			if err == nil && !ok {
				c.Failf("%s: text without dense form is accepted: %v", desc("dense matrix"), *d)
			}
			if err != nil && ok && verdict == refOK {
				c.Failf("%s: refused: %v", desc("dense matrix"), err)
			}
			if err == nil {
				c.Traces(1)
				if d.Rows != len(rows) || d.Cols != cols || !exactBits(d.Values, vals) {
					c.Failf("%s: want %d x %d %v; got %v", desc("dense matrix"), len(rows), cols, vals, *d)
				}
			}
		}
	}
}

// exactBits compares bits (any NaN equals any NaN)
func exactBits(a, b []float64) bool { return sameBits(a, b) }

// refCsv is the reference reader for delimited text
func refCsv(text string, limit int, skip bool, delim string, def float64) ([]float64, int, int, int) {
	var vals []float64
	rows, cols := 0, 0
	verdict := refOK
	for _, line := range strings.Split(text, "\n") {
		line = strings.TrimFunc(line, func(r rune) bool { return strings.ContainsRune(" \t\r", r) && !strings.ContainsRune(delim, r) })
		if line == "" {
			continue
		}
		if limit > 0 && rows == limit {
			break
		}
		fields := strings.Split(line, delim)
		if skip {
			fields = fields[1:]
		}
		for _, f := range fields {
			v := def
			if f != "" {
				x, err := strconv.ParseFloat(f, 64)
				if err != nil {
					// blanks around a number are tolerable if it is read
					x, err = strconv.ParseFloat(strings.Trim(f, " \t\r"), 64)
					if err != nil && strings.Trim(f, " \t\r") != "" {
						return nil, 0, 0, refError
					}
					if err != nil {
						x = def
					}
					verdict = refEither
				}
				v = x
			}
			vals = append(vals, v)
		}
		if rows == 0 {
			cols = len(fields)
		} else if len(fields) != cols {
			return nil, 0, 0, refError
		}
		rows++
	}
	return vals, rows, cols, verdict
}

func checkCsv(c *C, text, delim string, defs []float64) {
	checkCsvVia(c, text, "", delim, defs, []int{-1, 0, 1, 2, 100})
}

func checkCsvVia(c *C, text, file, delim string, defs []float64, limits []int) {
	if file != "" {
		if err := os.WriteFile(file, []byte(text), 0644); err != nil {
			c.Failf("%v", err)
		}
	}
	dense := func(limit int, skip bool, def float64) (*mat.DenseMat, error) {
		if file != "" {
			return mat.DenseMatFromCsvFile(file, limit, skip, delim, def)
		}
		return mat.DenseMatFromCsv(bufio.NewReaderSize(strings.NewReader(text), 16), limit, skip, delim, def)
	}
	for _, limit := range limits {
		for _, skip := range []bool{false, true} {
			for _, def := range defs {
				vals, rows, cols, verdict := refCsv(text, limit, skip, delim, def)
				c.Trans(1)
				d, err := dense(limit, skip, def)
				desc := func() string {
					return fmt.Sprintf("%q (file %q), limit %d, skip first column %v, delimiter %q, default %v", text, file, limit, skip, delim, def)
				}
				if err == nil && verdict == refError {
					c.Failf("%s: malformed text is accepted: %v", desc(), *d)
				}
				if err != nil && verdict == refOK {
					c.Failf("%s: refused: %v", desc(), err)
				}
				if err == nil {
					c.Traces(1)
					if d.Rows != rows || d.Cols != cols || !exactBits(d.Values, vals) {
						c.Failf("%s: want %d x %d %v; got %v", desc(), rows, cols, vals, *d)
					}
				}
			}
		}
	}
}

func runReaders(x *X) {
	matrixRewrites(x)
	endings := func(lines []string, f func(text string)) {
		for _, nl := range []string{"\n", "\r\n"} {
			t := strings.Join(lines, nl)
			f(t)
			f(t + nl)
		}
		f(strings.Join(lines, "\n") + "\n\n")
		f("\n" + strings.Join(lines, "\n"))
	}
	// libsvm: lines of tokens
	toks := []string{"1", "0:1", "1:2.5", "0:-0.1", "2:3", "1:nan", "0:", ":1", "a:1", "0:x", "1:1e400", "0:1:2", "", "-1:1", "1:-inf", "4294967295:1", "4294967296:2", "+1:2", "0:1e-320", "0:0.1e", "18446744073709551616:1", "1.0:2", "010:5", "08:2", "0x1:1", "1_0:1"}
	// one line: all token sequences
	depth := 3
	if x.Thorough {
		depth = 4
	}
	for a := range toks {
		for b := range toks {
			x.Case(func() string {
				return fmt.Sprintf("libsvm lines of up to %d tokens that start with %q %q", depth, toks[a], toks[b])
			}, func(c *C) {
				n := 0
				line := []string{toks[a], toks[b]}
				var rec func(k int)
				rec = func(k int) {
					l := strings.Join(line, " ")
					for _, t := range []string{l, l + "\n", l + "\r\n", " " + l + " \n", l + "\n1 0:7\n"} {
						checkLibsvm(c, t)
						n++
					}
					if k == depth {
						return
					}
					for i := range toks {
						line = append(line, toks[i])
						rec(k + 1)
						line = line[:len(line)-1]
					}
				}
				rec(2)
				c.States(n)
			})
		}
	}
	// several lines
	lines := []string{"1 0:1", "1 0:2.5 1:-3", "0 1:4", "0 0:0.1 1:1e10 2:3", "7", "", " ", "1 0:x", "1 0:1 2:3", "1 1:5 0:6", "1 0:1 0:2", "2  0:9  1:8 ", "0:1 1:2", "1\t0:1", "0:5", "1 5000000:2"}
	for a := range lines {
		for b := range lines {
			x.Case(func() string {
				return fmt.Sprintf("libsvm files of up to 4 lines that start with %q, %q", lines[a], lines[b])
			}, func(c *C) {
				n := 0
				do := func(ls ...string) {
					endings(ls, func(t string) {
						checkLibsvm(c, t)
						n++
					})
				}
				if b == 0 {
					do(lines[a])
				}
				do(lines[a], lines[b])
				for k := range lines {
					do(lines[a], lines[b], lines[k])
					if x.Thorough || k < 6 && a < 6 && b < 6 {
						for m := range lines {
							do(lines[a], lines[b], lines[k], lines[m])
						}
					}
				}
				c.States(n)
			})
		}
	}
	// csv
	delims := []string{",", "\t", ";", " ", "||", ", ", "\t\t", "; ", ":", "%", "%d", "\\", "[,]", "*"}
	fields := []string{"1", "-2.5", "", "0.1", "x", "nan", " 3", "4 ", "1e400", "5e-324", "-0", "+Inf", "\t6", "1_0", "0x1p-2"}
	defs := []float64{-1, math.NaN(), 0}
	for di, d := range delims {
		d := d
		maxf := 3
		if x.Thorough && di < 5 {
			maxf = 4
		}
		for a := range fields {
			x.Case(func() string {
				return fmt.Sprintf("csv lines of up to %d fields, delimiter %q, that start with %q", maxf, d, fields[a])
			}, func(c *C) {
				n := 0
				fs := []string{fields[a]}
				var rec func(k int)
				rec = func(k int) {
					l := strings.Join(fs, d)
					for _, t := range []string{l, l + "\n", l + "\r\n", l + "\n" + strings.Repeat("7"+d, len(fs)-1) + "8\n", l + "\n\n" + l + "\n", " " + l + " \n"} {
						checkCsv(c, t, d, defs[:2])
						n++
					}
					if k == maxf {
						return
					}
					for i := range fields {
						fs = append(fs, fields[i])
						rec(k + 1)
						fs = fs[:len(fs)-1]
					}
				}
				rec(1)
				c.States(n)
			})
		}
		ls := []string{"1", "1" + d + "2", d, d + d, "3" + d, d + "4", "5" + d + "6" + d + "7", "", " ", "x" + d + "1", "1" + d + "x", d + "8" + d, "9" + d + "-0.25", "a", "1 " + d + " 2", "\t" + d + "1", "1" + d + "\t"}
		for a := range ls {
			x.Case(func() string {
				return fmt.Sprintf("csv files of up to 4 lines, delimiter %q, that start with %q", d, ls[a])
			}, func(c *C) {
				n := 0
				do := func(l ...string) {
					endings(l, func(t string) {
						checkCsv(c, t, d, defs[:1])
						n++
					})
				}
				do(ls[a])
				for b := range ls {
					do(ls[a], ls[b])
					for k := range ls {
						do(ls[a], ls[b], ls[k])
						if x.Thorough && di < 4 {
							for m := range ls {
								do(ls[a], ls[b], ls[k], ls[m])
							}
						}
					}
				}
				c.States(n)
			})
		}
	}
	// numbers that differ in one character, next to each other in a row and in a column
	for _, base := range []string{"0.12345678901234561", "-9007199254740993", "1234.5678e-12", "1", "-0", "12", "0.5", "123456789012345678901234567890", "5e-324", "+1.50000000000000000000000000000001E+002"} {
		base := base
		x.Case(func() string { return "numbers next to " + base }, func(c *C) {
			n := 0
			try := func(other string) {
				for _, p := range [][2]string{{base, other}, {other, base}} {
					for _, d := range []string{",", "\t"} {
						checkCsv(c, p[0]+d+p[1]+d+p[0]+"\n", d, defs[:1])
						checkCsv(c, p[0]+d+p[1]+"\n"+p[1]+d+p[0]+"\n"+p[0]+d+p[0], d, defs[:1])
					}
					checkLibsvm(c, "1 0:"+p[0]+" 1:"+p[1]+" 2:"+p[0]+"\n")
					checkLibsvm(c, "1 0:"+p[0]+"\n2 0:"+p[1]+"\n1 0:"+p[0]+" 1:"+p[1])
					n += 6
				}
			}
			for i := 0; i <= len(base); i++ {
				for _, ch := range "0123456789.-+eE: x" {
					if i < len(base) {
						try(base[:i] + string(ch) + base[i+1:])
					}
					try(base[:i] + string(ch) + base[i:])
				}
				if i < len(base) {
					try(base[:i] + base[i+1:])
				}
			}
			c.States(n)
		})
	}
	// correctly rounded values in all forms
	for part := 0; part < 16; part++ {
		x.Case(func() string { return fmt.Sprint("values with many digits, part ", part) }, func(c *C) {
			var vs []string
			for i := 0; i < 400; i++ {
				f := math.Float64frombits(uint64(i*16+part) * 0x9E3779B97F4A7C15)
				if math.IsNaN(f) || math.IsInf(f, 0) {
					continue
				}
				vs = append(vs, strconv.FormatFloat(f, 'g', -1, 64), strconv.FormatFloat(f, 'e', 25, 64), strconv.FormatFloat(f, 'g', 17, 64), strconv.FormatFloat(float64(float32(i))/3, 'f', 30, 64))
			}
			for _, v := range vs {
				checkLibsvm(c, "1 0:"+v+" 1:1\n")
				checkCsv(c, v+","+v+"\n", ",", defs[:1])
				c.States(2)
			}
		})
	}
	// whole files by name
	limits := []int{-100, -1, 0, 1, 2, 3, 4, 5, 7, 9, 10, 11, 16, 50, 100, 1 << 40}
	fileLines := []string{"1 0:1 1:2.5", "0 0:-1", "", "1 0:0.5 1:3", "2", "1 0:x", "0:1"}
	for a := range fileLines {
		for b := range fileLines {
			x.Case(func() string {
				return fmt.Sprintf("libsvm files by name that start with %q, %q", fileLines[a], fileLines[b])
			}, func(c *C) {
				file := filepath.Join(workDir, "in.libsvm")
				for k := range fileLines {
					for rep := 1; rep <= 4; rep += 3 {
						ls := []string{fileLines[a], fileLines[b]}
						for i := 0; i < rep*rep; i++ {
							ls = append(ls, fileLines[k])
						}
						checkLibsvmVia(c, strings.Join(ls, "\n")+"\n", file, limits)
						c.States(1)
					}
				}
				os.Remove(file)
				if d, err := mat.DenseMatFromLibsvmFile(file, 0, false); err == nil {
					c.Failf("a missing file reads as %v", *d)
				}
				if d, err := mat.CSRMatFromLibsvmFile(file, 0, false); err == nil {
					c.Failf("a missing file reads as %v", *d)
				}
			})
		}
	}
	allDefs := []float64{-1, math.NaN(), 0, 0.5, math.Inf(1), math.Inf(-1), -99, 1e300, math.Copysign(0, -1), 3}
	for _, d := range delims {
		for a := 0; a < 6; a++ {
			x.Case(func() string {
				return fmt.Sprintf("csv files by name, delimiter %q, part %d", d, a)
			}, func(c *C) {
				ls := []string{"1" + d + "2", d + "2", "1" + d, d, "3.5" + d + "-0", "x" + d + "1"}
				file := filepath.Join(workDir, "in.csv")
				for b := range ls {
					for k := range ls {
						rows := []string{ls[a], ls[b]}
						for i := 0; i < 1+9*(k%2); i++ {
							rows = append(rows, ls[k])
						}
						checkCsvVia(c, strings.Join(rows, "\n")+"\n", file, d, allDefs, limits)
						c.States(1)
					}
				}
				os.Remove(file)
				if d, err := mat.DenseMatFromCsvFile(file, 0, false, d, 0); err == nil {
					c.Failf("a missing file reads as %v", *d)
				}
			})
		}
	}
	for _, name := range routeNames {
		x.Case(func() string { return fmt.Sprintf("matrix files named %q", name) }, func(c *C) {
			dir, err := os.MkdirTemp(workDir, "m")
			if err != nil {
				c.Failf("%v", err)
			}
			defer os.RemoveAll(dir)
			path := filepath.Join(dir, name)
			os.MkdirAll(filepath.Dir(path), 0755)
			for k := 1; k <= 3; k++ {
				checkLibsvmVia(c, strings.Repeat(fmt.Sprintf("1 0:%d 1:2.5\n", k), k), path, []int{0, 1, 2})
				checkLibsvmVia(c, fmt.Sprintf("1 0:%d 1:x\n", k), path, []int{0, 1, 2})
				checkCsvVia(c, strings.Repeat(fmt.Sprintf("%d,,2.5\n", k), k), path, ",", allDefs, []int{0, 1, 2})
				checkCsvVia(c, strings.Repeat(fmt.Sprintf("%d\t\t2.5\n", k), k), path, "\t", allDefs, []int{0, 1, 2})
				checkCsvVia(c, fmt.Sprintf("%d,x\n", k), path, ",", allDefs, []int{0, 1, 2})
				c.States(5)
			}
			if name[0] != '-' {
				os.WriteFile(path, []byte("1,,3\n4,5,\n"), 0644)
				inDir(c, dir, func() {
					m, err := mat.DenseMatFromCsvFile(name, 0, false, ",", -7)
					if err != nil || m.Rows != 2 || m.Cols != 3 || !sameBits(m.Values, []float64{1, -7, 3, 4, 5, -7}) {
						c.Failf("the file %q by its relative name: %v %v", name, m, err)
					}
				})
			}
		})
	}
	// long lines and many lines
	for _, n := range []int{1000, 4090, 4096, 5000, 70000} {
		x.Case(func() string { return fmt.Sprint("long files ", n) }, func(c *C) {
			var l, l2, s strings.Builder
			l.WriteString("1")
			for j := 0; j < n; j++ {
				fmt.Fprintf(&l, " %d:%d.5", j, j)
				if j > 0 {
					s.WriteString(",")
				}
				fmt.Fprintf(&s, "%d", j)
			}
			checkLibsvm(c, l.String()+"\n"+l.String())
			checkCsv(c, s.String()+"\n"+s.String()+"\n", ",", defs[:1])
			for j := 0; j < n; j++ {
				fmt.Fprintf(&l2, "%d 0:%d 1:-%d.25\n", j%3, j, j)
			}
			checkLibsvm(c, l2.String())
			checkCsv(c, strings.ReplaceAll(strings.ReplaceAll(l2.String(), "0:", ""), "1:", ""), " ", defs[:1])
			c.States(4)
		})
	}
}

// ---- C18 ---------------------------------------------------------------------------------------------------------

// limitWriter takes n bytes, then fails
type limitWriter struct {
	buf   bytes.Buffer
	n     int
	fails int
	whole bool // a write that does not fit is not begun
}

var errFull = errors.New("no space left (injected)")

func (w *limitWriter) Write(p []byte) (int, error) {
	if w.n < 0 || len(p) <= w.n-w.buf.Len() {
		return w.buf.Write(p)
	}
	w.fails++
	k := w.n - w.buf.Len()
	if w.whole || k < 0 {
		k = 0
	}
	w.buf.Write(p[:k])
	return k, errFull
}

func roundTrip(c *C, m *mat.DenseMat, delim string, file string) []byte {
	var b bytes.Buffer
	before := cloneF(m.Values)
	if err := m.WriteStr(&b, delim); err != nil {
		c.Failf("%v delimiter %q: %v", *m, delim, err)
	}
	if !sameBits(before, m.Values) {
		c.Failf("writing changed the matrix")
	}
	check := func(what string, g *mat.DenseMat, err error) {
		if err != nil {
			c.Failf("%v delimiter %q written as %q is refused %s: %v", *m, delim, b.String(), what, err)
		}
		if g.Rows != m.Rows || g.Cols != m.Cols || !sameBits(g.Values, m.Values) {
			c.Failf("%v delimiter %q written as %q reads back %s as %v", *m, delim, b.String(), what, *g)
		}
	}
	g, err := mat.DenseMatFromCsv(bufio.NewReader(bytes.NewReader(b.Bytes())), 0, false, delim, -99)
	check("from a stream", g, err)
	if file != "" {
		if err := m.ToCsvFile(file, delim); err != nil {
			c.Failf("ToCsvFile: %v", err)
		}
		fb, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		if !bytes.Equal(fb, b.Bytes()) {
			c.Failf("ToCsvFile wrote %q, WriteStr %q", fb, b.Bytes())
		}
		g, err := mat.DenseMatFromCsvFile(file, 0, false, delim, -99)
		check("from a file", g, err)
	}
	return b.Bytes()
}

func runWrites(x *X) {
	vals := []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 1.0 / 3, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, -2.2250738585072014e-308, 9007199254740993, 1e21, 1e-7, 123456.789, math.Nextafter(1, 2), 2.2250738585072011e-308, 4.9406564584124654e-324 * 3, -1e22}
	delims := []string{",", "\t", ";", " ", "||", ", ", "\t\t", "; ", " | ", "_", "#", "%", "%d", "%%", "%v,", "\\n", "*", "[1]"}
	shapes := [][2]int{{1, 1}, {1, 2}, {2, 1}, {1, 3}, {3, 1}, {2, 2}, {1, 4}, {4, 1}, {2, 3}, {3, 2}, {3, 3}}
	for _, sh := range shapes {
		n := sh[0] * sh[1]
		al := vals
		switch {
		case n == 4 && !x.Thorough:
			al = vals[:9]
		case n > 4 && n < 9:
			al = vals[:5]
			if !x.Thorough {
				al = vals[1:5]
			}
		case n == 9:
			al = []float64{math.Copysign(0, -1), 1.0 / 3}
			if x.Thorough {
				al = append(al, 1e300)
			}
		}
		for a := range al {
			x.Case(func() string {
				return fmt.Sprintf("all %d x %d matrices over %v that start with %v", sh[0], sh[1], al, al[a])
			}, func(c *C) {
				v := make([]float64, n)
				v[0] = al[a]
				k := 0
				var rec func(i int)
				rec = func(i int) {
					if i < n {
						for _, w := range al {
							v[i] = w
							rec(i + 1)
						}
						return
					}
					m, err := mat.DenseMatFromArray(v, sh[0], sh[1])
					if err != nil {
						c.Failf("%v", err)
					}
					roundTrip(c, &m, delims[k%len(delims)], "")
					k++
					c.Evals(1)
					c.Distinct(hash("rt", sh, v))
				}
				rec(1)
			})
		}
	}
	for _, sh := range [][2]int{{1, 70000}, {70000, 1}, {300, 300}, {2, 33000}, {4097, 5}, {1, 2000}, {65537, 2}} {
		x.Case(func() string { return fmt.Sprintf("a matrix of %d x %d", sh[0], sh[1]) }, func(c *C) {
			v := make([]float64, sh[0]*sh[1])
			for i := range v {
				v[i] = vals[(i*7+i/len(vals))%len(vals)] * float64(1+i%3)
				if math.IsInf(v[i], 0) {
					v[i] = float64(i)
				}
			}
			m, err := mat.DenseMatFromArray(v, sh[0], sh[1])
			if err != nil || !sameBits(m.Values, v) {
				c.Failf("DenseMatFromArray: %v", err)
			}
			s, err := mat.CSRMatFromArray(v, sh[0], sh[1])
			if err != nil || s.Rows() != sh[0] || len(s.ColIndexes) != len(v) || !sameBits(s.Values, v) {
				c.Failf("CSRMatFromArray: %v", err)
			}
			for i := 0; i <= sh[0]; i++ {
				if s.RowHeaders[i] != i*sh[1] {
					c.Failf("CSRMatFromArray: row %d starts at %d", i, s.RowHeaders[i])
				}
			}
			for i, k := range s.ColIndexes {
				if k != i%sh[1] {
					c.Failf("CSRMatFromArray: value %d has column %d", i, k)
				}
			}
			if z := mat.DenseMatZero(sh[0], sh[1]); len(z.Values) != len(v) {
				c.Failf("DenseMatZero has %d values", len(z.Values))
			}
			f := filepath.Join(workDir, "big.csv")
			defer os.Remove(f)
			for _, d := range delims[:4] {
				roundTrip(c, &m, d, f)
				c.Evals(1)
				c.Distinct(hash("big", sh, d))
			}
		})
	}
	x.Case(func() string { return "value alphabet with every delimiter, through files" }, func(c *C) {
		for _, d := range delims {
			for _, sh := range [][2]int{{1, len(vals)}, {len(vals), 1}, {2, len(vals) / 2}, {3, len(vals) / 3}, {len(vals) / 2, 2}} {
				m, err := mat.DenseMatFromArray(vals, sh[0], sh[1])
				if err != nil {
					c.Failf("%v", err)
				}
				roundTrip(c, &m, d, filepath.Join(workDir, "m.csv"))
				c.Evals(1)
				c.Distinct(hash("f", d, sh))
			}
		}
	})
	for part := 0; part < 16; part++ {
		x.Case(func() string { return fmt.Sprint("bit patterns spread over all finite values, part ", part) }, func(c *C) {
			n := 4000
			if x.Thorough {
				n = 40000
			}
			for i := 0; i < n; i += 8 {
				m := mat.DenseMatZero(2, 4)
				for k := range m.Values {
					f := math.Float64frombits(uint64((i+k)*16+part) * 0x9E3779B97F4A7C15)
					if math.IsNaN(f) || math.IsInf(f, 0) {
						f = float64(i)
					}
					m.Values[k] = f
				}
				roundTrip(c, &m, delims[i/8%len(delims)], "")
				c.Evals(1)
				c.Distinct(hash("bp", part, i))
			}
		})
	}
	// failing writers: at every byte
	mats := []mat.DenseMat{}
	for _, sh := range [][2]int{{0, 0}, {0, 3}, {3, 0}, {1, 1}, {1, 3}, {3, 1}, {2, 2}, {3, 3}, {5, 3}} {
		m := mat.DenseMatZero(sh[0], sh[1])
		for i := range m.Values {
			m.Values[i] = vals[(i*5+sh[0])%len(vals)]
		}
		mats = append(mats, m)
	}
	for mi := range mats {
		m := &mats[mi]
		for _, d := range delims[:6] {
			x.Case(func() string {
				return fmt.Sprintf("a writer that fails after every byte, %d x %d, delimiter %q", m.Rows, m.Cols, d)
			}, func(c *C) {
				full := &limitWriter{n: -1}
				if err := m.WriteStr(full, d); err != nil {
					c.Failf("%v", err)
				}
				want := full.buf.Bytes()
				for n := 0; n <= len(want)+1; n++ {
					for _, whole := range []bool{false, true} {
						w := &limitWriter{n: n, whole: whole}
						err := m.WriteStr(w, d)
						c.Evals(1)
						c.Distinct(hash("lw", mi, d, n, whole))
						if (err != nil) != (w.fails > 0) {
							c.Failf("writer failing after %d of %d bytes: %d failed writes, error %v", n, len(want), w.fails, err)
						}
						if err == nil && !bytes.Equal(w.buf.Bytes(), want) {
							c.Failf("writer limited to %d bytes: no error, but %q is written instead of %q", n, w.buf.Bytes(), want)
						}
					}
				}
			})
		}
	}
	// inconsistent matrices are refused
	x.Case(func() string { return "inconsistent matrices" }, func(c *C) {
		for nv := 0; nv <= 7; nv++ {
			for r := -2; r <= 7; r++ {
				for k := -2; k <= 7; k++ {
					m := mat.DenseMat{Values: make([]float64, nv), Rows: r, Cols: k}
					w := &limitWriter{n: -1}
					err := m.WriteStr(w, ",")
					ok := r >= 0 && k >= 0 && r*k == nv
					if (err == nil) != ok {
						c.Failf("writing %d values as %d x %d: %v", nv, r, k, err)
					}
					c.Evals(1)
					c.Distinct(hash("ic", nv, r, k))
				}
			}
		}
	})
	// the file system fails
	big := mat.DenseMatZero(60, 10)
	for i := range big.Values {
		big.Values[i] = vals[(i*7)%len(vals)]
	}
	fm := append(append([]mat.DenseMat{}, mats...), big)
	for mi := range fm {
		m := &fm[mi]
		const parts = 8
		for part := 0; part < parts; part++ {
			if len(m.Values) < 100 && part > 0 {
				continue
			}
			x.Case(func() string {
				return fmt.Sprintf("file size limits at every byte, %d x %d, part %d", m.Rows, m.Cols, part)
			}, func(c *C) {
				signal.Ignore(syscall.SIGXFSZ)
				var b bytes.Buffer
				m.WriteStr(&b, ",")
				p := filepath.Join(workDir, "limited.csv")
				var old syscall.Rlimit
				if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
					c.Extra("no_file_size_limits", 1)
					return
				}
				step := 1
				if len(m.Values) > 100 {
					step = parts
				}
				for n := part; n <= b.Len()+1; n += step {
					os.Remove(p)
					if n%2 == 0 { // over an existing longer file
						os.WriteFile(p, bytes.Repeat([]byte("9\n"), b.Len()), 0o600)
					}
					if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(n), Max: old.Max}); err != nil {
						c.Extra("no_file_size_limits", 1)
						return
					}
					err := m.ToCsvFile(p, ",")
					syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
					got, rerr := os.ReadFile(p)
					if rerr != nil {
						c.Failf("no file: %v", rerr)
					}
					c.Evals(1)
					c.Distinct(hash("fl", mi, n))
					if n < b.Len() && err == nil {
						c.Failf("a file limited to %d of %d bytes: ToCsvFile reports no error", n, b.Len())
					}
					if n >= b.Len() && err != nil {
						c.Failf("a file limited to %d, %d needed: %v", n, b.Len(), err)
					}
					if err == nil && !bytes.Equal(got, b.Bytes()) {
						c.Failf("the file has %q instead of %q", got, b.Bytes())
					}
				}
			})
		}
	}
	x.Case(func() string { return "files that can't be created or written" }, func(c *C) {
		bad := []string{workDir, filepath.Join(workDir, "nodir", "x.csv"), ""}
		if fi, err := os.Stat("/dev/full"); err == nil && fi.Mode()&os.ModeCharDevice != 0 {
			if f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0); err == nil {
				if _, err := f.Write([]byte("x")); err != nil {
					bad = append(bad, "/dev/full")
				}
				f.Close()
			}
		}
		for _, p := range bad {
			for mi := range fm {
				if err := fm[mi].ToCsvFile(p, ","); err == nil {
					c.Failf("%d x %d to %q: no error", fm[mi].Rows, fm[mi].Cols, p)
				}
				c.Evals(1)
				c.Distinct(hash("bad", p == "/dev/full", len(p), mi))
			}
		}
		m := mat.DenseMat{Values: []float64{1, 2, 3}, Rows: 2, Cols: 2}
		if err := m.ToCsvFile(filepath.Join(workDir, "ic.csv"), ","); err == nil {
			c.Failf("an inconsistent matrix is written")
		}
	})
	// constructors
	x.Case(func() string { return "constructors" }, func(c *C) {
		for nv := 0; nv <= 9; nv++ {
			dims := []int{math.MinInt64, -1 << 32, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 1 << 32, 1<<62 + 1, math.MaxInt64, math.MaxInt64 / 3, math.MaxInt64/3 + 1, 1 << 61, 1 << 60, 1<<63 - 8}
			for _, r := range dims {
				for _, k := range dims {
					if r > 1000 && k == 0 {
						continue // row bounds of that many rows would be allocated
					}
					ok := r >= 0 && k >= 0 && (r == 0 && nv == 0 || k == 0 && nv == 0 || r > 0 && k > 0 && r <= 9 && k <= 9 && r*k == nv)
					in := make([]float64, nv)
					for i := range in {
						in[i] = float64(i) + 0.5
					}
					keep := cloneF(in)
					d, err := mat.DenseMatFromArray(in, r, k)
					if (err == nil) != ok {
						c.Failf("DenseMatFromArray(%d values, %d, %d): %v", nv, r, k, err)
					}
					s, err2 := mat.CSRMatFromArray(in, r, k)
					if (err2 == nil) != ok {
						c.Failf("CSRMatFromArray(%d values, %d, %d): %v", nv, r, k, err2)
					}
					c.Evals(2)
					c.Distinct(hash("con", nv, r, k))
					if !ok {
						continue
					}
					for i := range in {
						in[i] = -1
					}
					if d.Rows != r || d.Cols != k || !sameBits(d.Values, keep) {
						c.Failf("DenseMatFromArray(%v, %d, %d) = %v", keep, r, k, d)
					}
					ip, cols := []int{0}, []int{}
					for i := 0; i < r; i++ {
						for j := 0; j < k; j++ {
							cols = append(cols, j)
						}
						ip = append(ip, len(cols))
					}
					if fmt.Sprint(s.RowHeaders, s.ColIndexes) != fmt.Sprint(ip, cols) || !sameBits(s.Values, keep) || s.Rows() != r {
						c.Failf("CSRMatFromArray(%v, %d, %d) = %v", keep, r, k, s)
					}
					for i := range d.Values {
						d.Values[i], s.Values[i] = 7, 7
					}
					for i := range in {
						if in[i] != -1 {
							c.Failf("the matrix shares memory with its source")
						}
					}
					if r <= 10 && k <= 10 {
						z := mat.DenseMatZero(r, k)
						if z.Rows != r || z.Cols != k || len(z.Values) != r*k {
							c.Failf("DenseMatZero(%d, %d) = %v", r, k, z)
						}
						for _, v := range z.Values {
							if v != 0 {
								c.Failf("DenseMatZero has %v", v)
							}
						}
					}
				}
			}
		}
		var e mat.CSRMat
		if e.Rows() != 0 {
			c.Failf("an empty matrix has %d rows", e.Rows())
		}
	})
}

// ---- C24 ---------------------------------------------------------------------------------------------------------

func runCompare(x *X) {
	vals := []float64{0, math.Copysign(0, -1), 1, 1.5, -1, math.NaN(), math.Inf(1), math.Inf(-1), 1e-9, math.MaxFloat64, -math.MaxFloat64, math.Nextafter(1, 2), math.SmallestNonzeroFloat64, 1 + 1e-3}
	ths := []float64{0, 1e-9, 1e-3, 0.5, 1, 2.5, math.MaxFloat64, math.Inf(1), math.SmallestNonzeroFloat64}
	mism := func(a, b, t float64) bool { return !(a == b || math.Abs(a-b) <= t) }
	try := func(c *C, a, b []float64, t float64) {
		want := 0
		for i := range a {
			if i < len(b) && mism(a[i], b[i], t) {
				want++
			}
		}
		ka, kb := cloneF(a), cloneF(b)
		n, err := util.NumMismatchedFloat64Slices(a, b, t)
		e2 := util.AlmostEqualFloat64Slices(a, b, t)
		c.Trans(2)
		if len(a) != len(b) {
			if err == nil || e2 == nil {
				c.Failf("%v and %v: different lengths are accepted", a, b)
			}
			return
		}
		if err != nil || n != want {
			c.Failf("NumMismatchedFloat64Slices(%v, %v, %v) = %d, %v; want %d", a, b, t, n, err, want)
		}
		if (e2 != nil) != (want > 0) {
			c.Failf("AlmostEqualFloat64Slices(%v, %v, %v) = %v; %d mismatches", a, b, t, e2, want)
		}
		if !sameBits(a, ka) || !sameBits(b, kb) {
			c.Failf("the vectors were changed")
		}
		c.Traces(1)
	}
	for ti, t := range ths {
		for a0 := range vals {
			x.Case(func() string { return fmt.Sprintf("vectors of up to 3 that start with %v, tolerance %v", vals[a0], t) }, func(c *C) {
				n := 0
				for _, b0 := range vals {
					try(c, []float64{vals[a0]}, []float64{b0}, t)
					if util.AlmostEqualFloat64(vals[a0], b0, t) && mism(vals[a0], b0, t) {
						c.Failf("AlmostEqualFloat64(%v, %v, %v)", vals[a0], b0, t)
					}
					try(c, []float64{vals[a0]}, []float64{vals[a0], b0}, t)
					try(c, []float64{vals[a0], b0}, []float64{vals[a0]}, t)
					try(c, []float64{vals[a0], b0}, nil, t)
					try(c, nil, []float64{vals[a0], b0}, t)
					n += 5
					for _, a1 := range vals {
						for _, b1 := range vals {
							try(c, []float64{vals[a0], a1}, []float64{b0, b1}, t)
							n++
							if ti < 4 || x.Thorough {
								for _, a2 := range vals[:6] {
									for _, b2 := range vals[2:9] {
										try(c, []float64{vals[a0], a1, a2}, []float64{b0, b1, b2}, t)
										n++
									}
								}
							}
						}
					}
				}
				c.States(n)
			})
		}
		x.Case(func() string { return fmt.Sprintf("very long vectors, tolerance %v", t) }, func(c *C) {
			for _, n := range []int{1023, 1024, 1025, 4097, 32768, 65535, 65536, 65537, 70000, 140000} {
				a := make([]float64, n)
				b := make([]float64, n)
				for i := range a {
					a[i] = float64(i)
					b[i] = a[i]
				}
				try(c, a, b, t)
				try(c, a, b[:n-1], t)
				for _, p := range []int{0, 1, n / 2, n - 2, n - 1} {
					for _, v := range []float64{math.NaN(), a[p] + 0.75, a[p] - 3} {
						b[p] = v
						try(c, a, b, t)
						b[p] = a[p]
						c.States(1)
					}
				}
				// all positions, then all positions of a remainder, are different
				for i := range b {
					b[i] = -1 - 3*a[i]
				}
				try(c, a, b, t)
				for k := 2; k < 70; k = k*2 - 1 {
					for i := range b {
						b[i] = a[i]
						if i%k == k-1 {
							b[i] += 7
						}
					}
					try(c, a, b, t)
					c.States(1)
				}
				c.Alive()
			}
		})
		x.Case(func() string { return fmt.Sprintf("long vectors, tolerance %v", t) }, func(c *C) {
			try(c, nil, nil, t)
			try(c, []float64{}, nil, t)
			for n := 1; n <= 300; n++ {
				a := make([]float64, n)
				b := make([]float64, n)
				for i := range a {
					a[i] = float64(i)
					b[i] = a[i]
				}
				try(c, a, b, t)
				for p := 0; p < n; p += 1 + n/40 {
					for _, v := range []float64{math.NaN(), math.Inf(1), a[p] + 0.75, a[p] - 3} {
						b[p] = v
						try(c, a, b, t)
						b[n-1-p] = v
						try(c, a, b, t)
						b[p], b[n-1-p] = a[p], a[n-1-p]
						c.States(2)
					}
				}
			}
		})
	}
}

func init() {
	register(&Check{ID: "C17", Level: "model_checking", Run: runReaders,
		Rule: "states: texts; transitions: reads of a text (form x limit x skipped column x default) compared with a reference parser; traces: accepted ones, compared cell by cell"})
	register(&Check{ID: "C18", Level: "fault_enumeration", Run: runWrites,
		Rule: "all matrices over an alphabet of hard values written and read back; writers that fail at every byte, file size limits at every byte, unwritable paths; constructor arguments; each distinct matrix or fault position is one non-trivial case"})
	register(&Check{ID: "C24", Level: "model_checking", Run: runCompare,
		Rule: "states: pairs of vectors with a tolerance; transitions: helper calls; traces: calls compared with the reference count"})
}
