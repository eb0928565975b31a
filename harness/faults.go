//go:build go1.23

package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"strings"

	"github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/mat"
)

// faultModel is a valid model file
type faultModel struct {
	name string
	fam  int
	data []byte
	load bool
	e    *Ens // nil: a file of /repo/testdata
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// smallModels are emitted models of every format that together use every feature of the formats
func smallModels(thorough bool) []faultModel {
	var ms []faultModel
	for fam := 0; fam < numFamilies; fam++ {
		for _, g := range []int{1, 3} {
			for st := 1; st <= 2; st++ {
				if fam == famLinear && st > 1 {
					continue
				}
				nv := 4
				if thorough {
					nv = 12
				}
				for v := 0; v < nv; v++ {
					load := canLoad(fam) && canGroups(fam, g, true) && v%2 == 0
					if !canGroups(fam, g, load) {
						continue
					}
					e := zooEns(fam, 2+v%2, g, st, v, load)
					if fam == famLGText && v == 3 {
						e.RF = true
					}
					// not the same values in all trees
					ms = append(ms, faultModel{fmt.Sprintf("%s groups=%d stages=%d variant %d", famName[fam], g, st, v), fam, emit(e), load, e})
				}
			}
		}
	}
	return ms
}

var realFiles = []struct {
	file string
	fam  int
	load bool
}{
	{"model_simple.txt", famLGText, false},
	{"lg_rf_iris.model", famLGText, false},
	{"lg_dart_breast_cancer.model", famLGText, true},
	{"lg_breast_cancer.txt", famLGText, true},
	{"lgmulticlass.model", famLGText, true},
	{"lg_kddcup99.model", famLGText, true},
	{"lg_1tree.json", famLGJSON, false},
	{"lg_1tree_1leaf.json", famLGJSON, false},
	{"lg_dart_breast_cancer.json", famLGJSON, false},
	{"xgagaricus.model", famXGB, true},
	{"xg_dart_agaricus.model", famDart, true},
	{"xgdermatology.model", famXGB, false},
	{"xgblin_agaricus.model", famLinear, true},
	{"sk_iris.model", famSK, false},
	{"sk_gradient_boosting_classifier.model", famSK, false},
}

// realModels are the shipped example models that load
func realModels() []faultModel {
	var ms []faultModel
	for _, r := range realFiles {
		b, err := os.ReadFile(filepath.Join(repoDir(), "testdata", r.file))
		if err != nil {
			continue
		}
		ms = append(ms, faultModel{r.file, r.fam, b, r.load, nil})
	}
	return ms
}

func (m *faultModel) read(r io.Reader) (*leaves.Ensemble, error) {
	return loadFrom(m.fam, r, m.load, 4096)
}

func loadFrom(fam int, r io.Reader, tr bool, buf int) (*leaves.Ensemble, error) {
	switch fam {
	case famLGText:
		return leaves.LGEnsembleFromReader(bufio.NewReaderSize(r, buf), tr)
	case famLGJSON:
		return leaves.LGEnsembleFromJSON(r, tr)
	case famXGB, famDart:
		return leaves.XGEnsembleFromReader(bufio.NewReaderSize(r, buf), tr)
	case famLinear:
		return leaves.XGBLinearFromReader(bufio.NewReaderSize(r, buf), tr)
	}
	return leaves.SKEnsembleFromReader(bufio.NewReaderSize(r, buf), tr)
}

func loadFile(fam int, path string, tr bool) (*leaves.Ensemble, error) {
	switch fam {
	case famLGText:
		return leaves.LGEnsembleFromFile(path, tr)
	case famLGJSON: // there is no such function for files
		f, err := os.Open(path)
		if err != nil {
			return nil, err
		}
		defer f.Close()
		return leaves.LGEnsembleFromJSON(f, tr)
	case famXGB, famDart:
		return leaves.XGEnsembleFromFile(path, tr)
	case famLinear:
		return leaves.XGBLinearFromFile(path, tr)
	}
	return leaves.SKEnsembleFromFile(path, tr)
}

// fingerprint is everything observable about a model: metadata, and the predictions of all views
type fingerprint struct {
	meta string
	out  []float64
}

func (f fingerprint) equal(g fingerprint) bool {
	return f.meta == g.meta && sameBits(f.out, g.out)
}

func (f fingerprint) diff(g fingerprint) string {
	if f.meta != g.meta {
		return fmt.Sprintf("%s instead of %s", f.meta, g.meta)
	}
	for i := range f.out {
		if i < len(g.out) && !same(f.out[i], g.out[i]) {
			return fmt.Sprintf("output %d is %v instead of %v", i, f.out[i], g.out[i])
		}
	}
	return "same"
}

// probeRows are rows for a model: those of the abstract model, or rows over an alphabet for an example model
func (m *faultModel) probeRows(nfeat int, n int) [][]float64 {
	if m.e != nil {
		return rowPool(m.e, n)
	}
	al := []float64{0, 1, math.NaN(), 0.5, -1, 10, 0.01, 100, 3, 1000}
	var rows [][]float64
	for k := 0; k < n; k++ {
		r := make([]float64, nfeat)
		for j := range r {
			r[j] = al[(j*(k+1)+k*3+j/7)%len(al)]
		}
		rows = append(rows, r)
	}
	return rows
}

// print reads everything observable off a loaded model
func printModel(m *leaves.Ensemble, rows [][]float64) (fingerprint, error) {
	f := fingerprint{}
	f.meta = fmt.Sprint(m.Name(), " features=", m.NFeatures(), " estimators=", m.NEstimators(), " outputs=", m.NOutputGroups(), "/", m.NRawOutputGroups(),
		" ", m.Transformation().Name(), " leaves=", m.NLeaves())
	if len(rows) > 0 && m.NFeatures() > len(rows[0]) {
		return f, nil // the metadata differ from those of the complete model
	}
	for v := viewOrig; v <= viewLeaf; v++ {
		d := deriveView(m, v)
		o := make([]float64, d.NOutputGroups())
		for _, r := range rows {
			for i := range o {
				o[i] = guard
			}
			if err := d.Predict(r, 0, o); err != nil {
				if v == viewLeaf {
					f.meta += " no leaf predictions"
					break
				}
				return f, err
			}
			f.out = append(f.out, o...)
		}
	}
	return f, nil
}

func (m *faultModel) base(c *C, nrows int) (fingerprint, [][]float64) {
	full, err := m.read(bytes.NewReader(m.data))
	if err != nil {
		c.Failf("the complete %s model is refused: %v", m.name, err)
	}
	rows := m.probeRows(full.NFeatures(), nrows)
	fp, err := printModel(full, rows)
	if err != nil {
		c.Failf("the complete %s model: %v", m.name, err)
	}
	return fp, rows
}

// ---- C14 ---------------------------------------------------------------------------------------------------------

// cutPoints are the prefix lengths to explore
func cutPoints(m *faultModel, thorough bool) []int {
	n := len(m.data)
	every := 4200
	if thorough {
		every = 25000
	}
	var ps []int
	if m.e != nil || n <= every {
		for p := 0; p < n; p++ {
			ps = append(ps, p)
		}
		return ps
	}
	if m.fam == famXGB || m.fam == famDart {
		for p := 0; p < n; p += 2 { // fields are aligned to 4 bytes after the strings of odd length
			ps = append(ps, p)
		}
		for p := n - 600; p < n; p++ {
			ps = append(ps, p)
		}
		return ps
	}
	// around the ends of lines, blanks in the last lines, and everywhere in the head and the tail
	stride, k := 1, 0
	lines := bytes.Count(m.data, []byte("\n"))
	if lim := 1200; !thorough && lines > lim {
		stride = lines / lim
	}
	if m.fam == famLGText {
		stride = 1 + len(m.data)/60000
	}
	for p := 0; p < n; p++ {
		if p < 600 || p > n-600 {
			ps = append(ps, p)
			continue
		}
		if m.data[p] == '\n' {
			k++
			if k%stride == 0 || thorough && len(m.data) < 110000 {
				ps = append(ps, p-1, p, p+1)
			}
		} else if m.fam == famLGJSON && p%37 == 0 {
			ps = append(ps, p)
		}
	}
	return ps
}

func runCuts(x *X) {
	ms := smallModels(x.Thorough)
	ms = append(ms, realModels()...)
	for i := range ms {
		m := &ms[i]
		ps := cutPoints(m, x.Thorough)
		// a case is a slice of the cut points, the heavy models are spread over the workers
		parts := 1 + len(ps)/400
		if len(m.data) > 30000 {
			parts = 1 + len(ps)/24
		}
		for part := 0; part < parts; part++ {
			a, b := len(ps)*part/parts, len(ps)*(part+1)/parts
			x.Case(func() string {
				return fmt.Sprintf("%s (%d bytes) cut at %d points of %d..%d", m.name, len(m.data), b-a, ps[a], ps[b-1])
			}, func(c *C) {
				fp, rows := m.base(c, 6)
				accepted := 0
				for _, p := range ps[a:b] {
					c.stage = fmt.Sprintf("reading the first %d of %d bytes", p, len(m.data))
					got, err := m.read(bytes.NewReader(m.data[:p]))
					c.Evals(1)
					h := hashBytes(m.data[:p])
					c.Distinct(h)
					if err != nil {
						continue
					}
					accepted++
					g, err := printModel(got, rows)
					if err != nil {
						c.Failf("the first %d of %d bytes are accepted, then predicting fails: %v", p, len(m.data), err)
					}
					if !g.equal(fp) {
						c.SetModel(m.data[:p])
						c.Failf("the first %d of %d bytes are accepted as a different model: %s", p, len(m.data), g.diff(fp))
					}
				}
				c.Extra("accepted_prefixes", accepted)
				c.Extra("refused_prefixes", b-a-accepted)
			})
		}
	}
}

// ---- C15 ---------------------------------------------------------------------------------------------------------

var errInjected = errors.New("injected I/O error")

// faultReader delivers data in chunks, with faults
type faultReader struct {
	data   []byte
	pos    int
	chunk  func(pos int) int // how many bytes at most from there
	empty  bool              // an empty read before each chunk
	toggle bool
	withE  bool // the last bytes come together with the error
	end    int  // the error comes after so many bytes
	err    error
	then   error // after the error; nil: the same error again
	cont   bool  // after the error the data go on
	failed bool
}

func (r *faultReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.failed && !r.cont {
		if r.then != nil {
			return 0, r.then
		}
		return 0, r.err
	}
	if r.empty {
		r.toggle = !r.toggle
		if r.toggle {
			return 0, nil
		}
	}
	end := r.end
	if r.failed {
		end = len(r.data)
	}
	if r.pos >= end {
		if r.failed {
			return 0, io.EOF
		}
		r.failed = true
		return 0, r.err
	}
	n := end - r.pos
	if r.chunk != nil {
		if k := r.chunk(r.pos); k < n {
			n = k
		}
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.withE && r.pos >= end && !r.failed {
		r.failed = true
		return n, r.err
	}
	return n, nil
}

// stream is anything that is read from a stream; result gives a comparable value
type stream struct {
	name string
	data []byte
	read func(r io.Reader, buf int) (interface{}, error)
	file func(path string) (interface{}, error)
	eq   func(a, b interface{}) bool
	tail bool // everything up to the end of the file counts
}

func eqAny(a, b interface{}) bool {
	switch x := a.(type) {
	case fingerprint:
		y, ok := b.(fingerprint)
		return ok && x.equal(y)
	case *mat.DenseMat:
		y, ok := b.(*mat.DenseMat)
		return ok && x.Rows == y.Rows && x.Cols == y.Cols && sameBits(x.Values, y.Values)
	case *mat.CSRMat:
		y, ok := b.(*mat.CSRMat)
		return ok && fmt.Sprint(x.RowHeaders, x.ColIndexes) == fmt.Sprint(y.RowHeaders, y.ColIndexes) && sameBits(x.Values, y.Values)
	}
	return false
}

func modelStream(m *faultModel, nrows int) stream {
	var rows [][]float64
	fp := func(e *leaves.Ensemble, err error) (interface{}, error) {
		if err != nil {
			return nil, err
		}
		if rows == nil {
			rows = m.probeRows(e.NFeatures(), nrows)
		}
		f, err := printModel(e, rows)
		if err != nil {
			f.meta = "predicting fails: " + err.Error()
		}
		return f, nil
	}
	return stream{name: m.name, data: m.data,
		read: func(r io.Reader, buf int) (interface{}, error) { return fp(loadFrom(m.fam, r, m.load, buf)) },
		file: func(p string) (interface{}, error) { return fp(loadFile(m.fam, p, m.load)) }}
}

// matrixStreams are matrix files with each reader function
func matrixStreams() []stream {
	lib := "1 0:0.5 1:-2.25 2:1e10\n0 0:3 1:0 2:-7.125\n2 0:1 1:2 2:3\n"
	long := ""
	for i := 0; i < 12; i++ {
		long += fmt.Sprintf("%d 0:%d.5 1:%d 2:-0.25\n", i, i*i, i*1000003)
	}
	csv := "1,0.5,-2.25,1e10\n0,3,,-7.125\n2,1,2,3\n"
	var ss []stream
	add := func(name, data string, read func(r *bufio.Reader) (interface{}, error), file func(p string) (interface{}, error)) {
		ss = append(ss, stream{name: name, data: []byte(data), tail: true,
			read: func(r io.Reader, buf int) (interface{}, error) { return read(bufio.NewReaderSize(r, buf)) }, file: file})
	}
	wrapD := func(m *mat.DenseMat, err error) (interface{}, error) {
		if err != nil {
			return nil, err
		}
		return m, nil
	}
	wrapS := func(m *mat.CSRMat, err error) (interface{}, error) {
		if err != nil {
			return nil, err
		}
		return m, nil
	}
	for i, d := range []string{lib, long, lib[:len(lib)-1]} {
		add(fmt.Sprint("libsvm dense ", i), d, func(r *bufio.Reader) (interface{}, error) { return wrapD(mat.DenseMatFromLibsvm(r, 0, true)) },
			func(p string) (interface{}, error) { return wrapD(mat.DenseMatFromLibsvmFile(p, 0, true)) })
		add(fmt.Sprint("libsvm sparse ", i), d, func(r *bufio.Reader) (interface{}, error) { return wrapS(mat.CSRMatFromLibsvm(r, 0, true)) },
			func(p string) (interface{}, error) { return wrapS(mat.CSRMatFromLibsvmFile(p, 0, true)) })
	}
	for i, d := range []string{csv, csv[:len(csv)-1]} {
		for _, skip := range []bool{false, true} {
			add(fmt.Sprint("csv ", i, " skip first column: ", skip), d, func(r *bufio.Reader) (interface{}, error) { return wrapD(mat.DenseMatFromCsv(r, 0, skip, ",", -1)) },
				func(p string) (interface{}, error) { return wrapD(mat.DenseMatFromCsvFile(p, 0, skip, ",", -1)) })
		}
	}
	return ss
}

// readerKinds gives the data by readers of many types, some of which hold other data before or behind it
func readerKinds(c *C, data []byte, f func(r io.Reader, what string)) {
	junk := []byte("junk\n\x00{} ")
	all := append(append(append([]byte(nil), junk...), data...), junk...)
	k := int64(len(junk))
	n := int64(len(data))
	f(bytes.NewBuffer(cloneB(data)), "bytes.Buffer")
	f(bytes.NewBuffer(cloneB(data)[:n:n]), "full bytes.Buffer")
	f(strings.NewReader(string(data)), "strings.Reader")
	br := bytes.NewReader(all[:k+n])
	br.Seek(k, io.SeekStart)
	f(br, "bytes.Reader behind other data")
	f(io.NewSectionReader(bytes.NewReader(all), k, n), "io.SectionReader")
	bb := bytes.NewBuffer(cloneB(all))
	bb.Next(len(junk))
	f(io.LimitReader(bb, n), "io.LimitReader of a bytes.Buffer behind other data")
	f(io.MultiReader(bytes.NewReader(data[:n/3]), strings.NewReader(""), bytes.NewBuffer(cloneB(data[n/3:]))), "io.MultiReader")
	f(io.TeeReader(bytes.NewReader(data), io.Discard), "io.TeeReader")
	f(struct{ io.Reader }{bytes.NewReader(data)}, "nameless reader")
	for _, size := range []int{16, 4096, 1 << 16} {
		r := bufio.NewReaderSize(bytes.NewReader(all[:k+n]), size)
		r.Discard(int(k))
		f(r, fmt.Sprintf("bufio.Reader of %d bytes behind other data", size))
	}
	dir, err := os.MkdirTemp(workDir, "r")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	open := func(content []byte, flag int) *os.File {
		p := filepath.Join(dir, "data")
		if err := os.WriteFile(p, content, 0o600); err != nil {
			panic(err)
		}
		file, err := os.OpenFile(p, flag, 0)
		if err != nil {
			panic(err)
		}
		return file
	}
	file := open(data, os.O_RDONLY)
	f(file, "os.File")
	file.Close()
	file = open(data, os.O_RDWR|os.O_APPEND)
	f(file, "os.File for reading and appending")
	file.Close()
	file = open(all[:k+n], os.O_RDONLY)
	file.Seek(k, io.SeekStart)
	f(file, "os.File behind other data")
	file.Close()
	file = open(all, os.O_RDONLY)
	file.Seek(k, io.SeekStart)
	f(io.LimitReader(file, n), "io.LimitReader of an os.File behind other data")
	file.Close()
	file = open(data, os.O_RDONLY)
	os.Remove(file.Name())
	f(file, "os.File without a name")
	file.Close()
	pr, pw, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	go func() {
		pw.Write(data)
		pw.Close()
	}()
	f(pr, "pipe")
	pr.Close()
	ir, iw := io.Pipe()
	go func() {
		for d := data; len(d) > 0; {
			k := 1 + len(d)%50
			if k > len(d) {
				k = len(d)
			}
			if _, err := iw.Write(d[:k]); err != nil {
				return
			}
			d = d[k:]
		}
		iw.Close()
	}()
	f(ir, "io.Pipe")
	ir.Close()
}

func cloneB(b []byte) []byte { return append([]byte(nil), b...) }

func runStreams(x *X) {
	var ss []stream
	ms := smallModels(x.Thorough)
	for i := range ms {
		if x.Thorough || i%3 == 0 || ms[i].fam == famLGText {
			ss = append(ss, modelStream(&ms[i], 5))
		}
	}
	ss = append(ss, matrixStreams()...)
	small := len(ss)
	rs := realModels()
	for i := range rs {
		ss = append(ss, modelStream(&rs[i], 3))
	}
	for i := range ss {
		s := ss[i]
		one := func(what string, f func(c *C, want interface{})) {
			x.Case(func() string { return s.name + ": " + what }, func(c *C) {
				c.SetModel(s.data)
				want, err := s.read(bytes.NewReader(s.data), 4096)
				if err != nil {
					c.Failf("refused when read in one go: %v", err)
				}
				f(c, want)
			})
		}
		must := func(c *C, want interface{}, r io.Reader, buf int, desc string) {
			c.stage = desc
			got, err := s.read(r, buf)
			c.Evals(1)
			c.Distinct(hash(s.name, desc, buf))
			if err != nil {
				c.Failf("%s: refused: %v", desc, err)
			}
			if !eqAny(got, want) {
				d := ""
				if f, ok := got.(fingerprint); ok {
					d = f.diff(want.(fingerprint))
				}
				c.Failf("%s: a different result. %s", desc, d)
			}
		}
		may := func(c *C, want interface{}, r io.Reader, buf int, desc string, strict bool) {
			c.stage = desc
			got, err := s.read(r, buf)
			c.Evals(1)
			c.Distinct(hash(s.name, desc, buf))
			if err != nil {
				c.Extra("errors_reported", 1)
				return
			}
			if strict {
				c.Failf("%s: the I/O error is not reported", desc)
			}
			if !eqAny(got, want) {
				d := ""
				if f, ok := got.(fingerprint); ok {
					d = f.diff(want.(fingerprint))
				}
				c.Failf("%s: the I/O error is taken for the end of the data. %s", desc, d)
			}
		}
		n := len(s.data)
		bufs := []int{16, 4096}
		if i >= small {
			bufs = []int{4096}
		}
		// chunk sizes
		one("chunk sizes", func(c *C, want interface{}) {
			for _, buf := range []int{16, 17, 64, 4096} {
				for _, k := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 31, 63, 64, 65, 4095, 4096, 4097, 1 << 20} {
					if i >= small && n > 20000 && (k > 3 && k < 4000 && k != 16 || buf != 4096) || n > 5000 && !x.Thorough && buf == 17 {
						continue
					}
					for _, empty := range []bool{false, true} {
						for _, withE := range []bool{false, true} {
							r := &faultReader{data: s.data, chunk: func(int) int { return k }, empty: empty, withE: withE, end: n, err: io.EOF}
							must(c, want, r, buf, fmt.Sprintf("chunks of %d, empty reads %v, data with EOF %v, buffer %d", k, empty, withE, buf))
						}
					}
				}
				for _, pat := range [][]int{{1, 2}, {3, 1}, {1, 5, 2}, {7, 1, 1}} {
					k := 0
					r := &faultReader{data: s.data, chunk: func(int) int { k++; return pat[k%len(pat)] }, end: n, err: io.EOF}
					must(c, want, r, buf, fmt.Sprintf("chunks %v, buffer %d", pat, buf))
				}
			}
		})
		step := 1
		switch {
		case i >= small && n > 1500:
			step = n/300 + 1
			if x.Thorough {
				step = n/4000 + 1
			}
		case n > 5000 && !x.Thorough:
			step = n/1000 + 1
		}
		parts := 1 + n/step/100
		for part := 0; part < parts; part++ {
			var ps []int
			for k, p := 0, 0; p <= n; k, p = k+1, p+step {
				if k%parts == part {
					ps = append(ps, p)
				}
			}
			one(fmt.Sprintf("every split point, step %d, part %d", step, part), func(c *C, want interface{}) {
				for _, p := range ps {
					for _, buf := range bufs {
						p := p
						r := &faultReader{data: s.data, chunk: func(pos int) int {
							if pos < p {
								return p - pos
							}
							return n
						}, end: n, err: io.EOF}
						must(c, want, r, buf, fmt.Sprintf("split at %d, buffer %d", p, buf))
					}
				}
			})
			one(fmt.Sprintf("I/O error after every byte, step %d, part %d", step, part), func(c *C, want interface{}) {
				for _, p := range ps {
					for _, buf := range bufs {
						for kind := 0; kind < 6; kind++ {
							r := &faultReader{data: s.data, end: p, err: errInjected}
							desc := "error"
							switch kind {
							case 1:
								r.withE = true
								desc = "error together with the data"
							case 2:
								r.err = io.ErrUnexpectedEOF
								desc = "ErrUnexpectedEOF"
							case 3:
								r.then = io.EOF
								desc = "error, then EOF"
							case 4:
								r.cont = true
								desc = "error, then the rest"
							case 5:
								r.err = io.ErrClosedPipe
								r.chunk = func(int) int { return 3 }
								r.withE = true
								desc = "error together with the last of chunks of 3"
							}
							may(c, want, r, buf, fmt.Sprintf("%s after %d of %d bytes, buffer %d", desc, p, n, buf), s.tail && kind != 4)
						}
					}
				}
			})
		}
		one("kinds of readers", func(c *C, want interface{}) {
			readerKinds(c, s.data, func(r io.Reader, what string) { must(c, want, r, 4096, what) })
		})
		// files
		one("files", func(c *C, want interface{}) {
			dir, err := os.MkdirTemp(workDir, "f")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(dir)
			p := filepath.Join(dir, "model")
			if _, err := s.file(p); err == nil {
				c.Failf("a missing file is accepted")
			}
			if _, err := s.file(dir); err == nil {
				c.Failf("a directory is accepted")
			}
			if _, err := s.file(filepath.Join(p, "x")); err == nil {
				c.Failf("a missing directory is accepted")
			}
			if err := os.WriteFile(p, s.data, 0o600); err != nil {
				panic(err)
			}
			if _, err := s.file(filepath.Join(p, "x")); err == nil {
				c.Failf("a file inside a file is accepted")
			}
			got, err := s.file(p)
			if err != nil {
				c.Failf("refused as a file: %v", err)
			}
			if !eqAny(got, want) {
				c.Failf("a different result from a file")
			}
			c.Evals(5)
			for k := 0; k < 5; k++ {
				c.Distinct(hash(s.name, "file", k))
			}
		})
	}
}

func init() {
	register(&Check{ID: "C14", Level: "fault_enumeration", Run: runCuts, MemMB: 4096,
		Rule: "every byte prefix of emitted models of every format (and of small example files; around line ends for the big ones); each distinct prefix is one non-trivial case: loading must fail or give a model with the metadata and predictions of the complete file"})
	register(&Check{ID: "C15", Level: "fault_enumeration", Run: runStreams, MemMB: 4096,
		Rule: "delivery patterns: chunk sizes, every split point, empty reads, data with EOF, an I/O error (6 kinds) after every byte, files; every kind of reader of the standard library (files at an offset, pipes, buffers, sections, limits) holding the model alone or among other bytes; every distinct pattern of a stream is one non-trivial case"})
}
