//go:build go1.23

package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/mat"
)

// ---- C25 ---------------------------------------------------------------------------------------------------------

// openAt counts the open file descriptors of the process that lead to a path or below
func openAt(path string) int {
	ds, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0
	}
	n := 0
	for _, d := range ds {
		if to, err := os.Readlink("/proc/self/fd/" + d.Name()); err == nil && strings.HasPrefix(to, path) {
			n++
		}
	}
	return n
}

// fileWatch looks at a scratch directory around calls
type fileWatch struct {
	c    *C
	dir  string
	n    int
	gor  int
	seen map[string]string
}

func watchFiles(c *C) *fileWatch {
	dir, err := os.MkdirTemp(workDir, "w")
	if err != nil {
		c.Failf("%v", err)
	}
	if dir, err = filepath.EvalSymlinks(dir); err != nil {
		c.Failf("%v", err)
	}
	f, err := os.Open(dir)
	if err != nil || openAt(dir) != 1 {
		c.Failf("the machinery does not see open files: %v", err)
	}
	f.Close()
	debug.SetGCPercent(-1) // finalizers would close files
	return &fileWatch{c: c, dir: dir, gor: runtime.NumGoroutine()}
}

func (w *fileWatch) end() {
	debug.SetGCPercent(100)
	os.RemoveAll(w.dir)
	for i := 0; runtime.NumGoroutine() > w.gor; i++ {
		if i > 500 {
			buf := make([]byte, 1<<16)
			w.c.Failf("%d goroutines instead of %d after the calls have returned\n%s", runtime.NumGoroutine(), w.gor, buf[:runtime.Stack(buf, true)])
		}
		time.Sleep(10 * time.Millisecond)
	}
}

// snapshot is the content of the directory, and the mode and time of change of everything in it
func (w *fileWatch) snapshot(except string) string {
	s := ""
	filepath.Walk(w.dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || p == except || p == w.dir {
			return nil
		}
		if fi.IsDir() {
			s += fmt.Sprintf("%s %v\n", p, fi.Mode()) // its time changes with the files in it
			return nil
		}
		b, _ := os.ReadFile(p)
		s += fmt.Sprintf("%s %v %v %x\n", p, fi.Mode(), fi.ModTime(), hashBytes(b))
		return nil
	})
	return s
}

// call runs f, which may change nothing in the directory but one file, and leaves no file open
func (w *fileWatch) call(what func() string, except string, f func()) {
	before := w.snapshot(except)
	f()
	if n := openAt(w.dir); n != 0 {
		w.c.Failf("%s: %d files are still open", what(), n)
	}
	if after := w.snapshot(except); after != before {
		w.c.Failf("%s: the files have changed\nbefore: %s\nafter: %s", what(), before, after)
	}
	w.n++
	w.c.Evals(1)
	if w.n%200 == 0 {
		runtime.GC()
	}
}

func runFiles(x *X) {
	type loader struct {
		name string
		f    func(p string) error
	}
	var ls []loader
	for fam := 0; fam < numFamilies; fam++ {
		if fam == famLGJSON || fam == famDart {
			continue // no such functions
		}
		for _, tr := range []bool{false, true} {
			if tr && !canLoad(fam) {
				continue
			}
			ls = append(ls, loader{fmt.Sprintf("%s, transformation %v", famName[fam], tr), func(p string) error {
				_, err := loadFile(fam, p, tr)
				return err
			}})
		}
	}
	ls = append(ls, loader{"DenseMatFromLibsvmFile", func(p string) error { _, err := mat.DenseMatFromLibsvmFile(p, 2, true); return err }},
		loader{"CSRMatFromLibsvmFile", func(p string) error { _, err := mat.CSRMatFromLibsvmFile(p, 0, false); return err }},
		loader{"DenseMatFromCsvFile", func(p string) error { _, err := mat.DenseMatFromCsvFile(p, 0, false, ",", 0); return err }})
	ms := smallModels(x.Thorough)
	var contents [][]byte
	var names []string
	count := map[int]int{}
	for i := range ms {
		if count[ms[i].fam]++; count[ms[i].fam] > 1 && !x.Thorough || count[ms[i].fam] > 4 {
			continue
		}
		contents = append(contents, ms[i].data)
		names = append(names, ms[i].name)
	}
	for _, s := range matrixStreams() {
		contents = append(contents, s.data)
		names = append(names, s.name)
	}
	for li, l := range ls {
		for ci, data := range contents {
			step := 1
			if len(data) > 1500 && !x.Thorough {
				step = 1 + len(data)/1500
			}
			x.Case(func() string { return fmt.Sprintf("%s of every prefix of %s", l.name, names[ci]) }, func(c *C) {
				w := watchFiles(c)
				defer w.end()
				p := filepath.Join(w.dir, "in")
				for n := 0; ; n += step {
					if n > len(data) {
						break
					}
					if err := os.WriteFile(p, data[:n], 0640); err != nil {
						c.Failf("%v", err)
					}
					w.call(func() string {
						return fmt.Sprintf("%s of the first %d of %d bytes of %s", l.name, n, len(data), names[ci])
					}, "", func() { l.f(p) })
					c.Distinct(hash(li, ci, n))
				}
				os.WriteFile(p, data, 0640)
				ok := 0
				w.call(func() string { return fmt.Sprintf("%s of %s", l.name, names[ci]) }, "", func() {
					if l.f(p) == nil {
						ok++
					}
				})
				c.Extra("files_accepted", ok)
				// damaged content
				for n := 0; n < len(data); n += step * 3 {
					for _, b := range []byte{'x', 0xff, ' '} {
						if b == ' ' && data[n] < 32 {
							continue
						}
						d := append([]byte(nil), data...)
						d[n] = b
						os.WriteFile(p, d, 0640)
						w.call(func() string { return fmt.Sprintf("%s of %s with byte %d replaced by %q", l.name, names[ci], n, b) }, "", func() { l.f(p) })
						c.Distinct(hash(li, ci, n, b))
					}
				}
			})
		}
		x.Case(func() string { return l.name + " of files with a magic number" }, func(c *C) {
			w := watchFiles(c)
			defer w.end()
			p := filepath.Join(w.dir, "in")
			for ci, data := range contents {
				for _, magic := range []string{"\xef\xbb\xbf", "\xff\xfe", "\x1f\x8b\x08\x00", "PK\x03\x04", "BZh9", "\x28\xb5\x2f\xfd", "binf", "bs64", "{", "[", "#", "#!", "\x80\x02", "\x80\x04\x95", "\x00", " ", "\n", "\r\n", "tree\n", "\"", "<?xml"} {
					for _, d := range [][]byte{append([]byte(magic), data...), append(append([]byte(nil), data...), magic...), append([]byte(magic), data[min(len(data), len(magic)):]...), []byte(magic)} {
						os.WriteFile(p, d, 0640)
						w.call(func() string { return fmt.Sprintf("%s of %s with %q", l.name, names[ci], magic) }, "", func() { l.f(p) })
						c.Distinct(hash(li, ci, magic, len(d)))
					}
				}
			}
		})
		x.Case(func() string { return l.name + " of odd paths" }, func(c *C) {
			w := watchFiles(c)
			defer w.end()
			f := filepath.Join(w.dir, "f")
			os.WriteFile(f, contents[0], 0600)
			os.Mkdir(filepath.Join(w.dir, "d"), 0700)
			os.Symlink("f", filepath.Join(w.dir, "link"))
			os.Symlink("loop", filepath.Join(w.dir, "loop"))
			os.WriteFile(filepath.Join(w.dir, "none"), nil, 0600)
			for k := 0; k < 40; k++ {
				for _, p := range []string{"f", "d", "link", "loop", "none", "missing", "f/x", "d/x", strings.Repeat("n", 300), "with\x00nul", "."} {
					w.call(func() string { return fmt.Sprintf("%s of the path %q", l.name, p) }, "", func() {
						err := l.f(w.dir + "/" + p)
						if err == nil && p != "f" && p != "link" && p != "none" {
							c.Failf("%s accepts the path %q", l.name, p)
						}
					})
					c.Distinct(hash(li, p))
				}
			}
		})
	}
	// writing
	m := mat.DenseMatZero(9, 3)
	for i := range m.Values {
		m.Values[i] = float64(i*i)/7 - 3
	}
	x.Case(func() string { return "ToCsvFile under every limit of the file size" }, func(c *C) {
		w := watchFiles(c)
		defer w.end()
		signal.Ignore(syscall.SIGXFSZ)
		var old syscall.Rlimit
		if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
			c.Extra("no_file_size_limits", 1)
			return
		}
		var b bytes.Buffer
		m.WriteStr(&b, ",")
		os.WriteFile(filepath.Join(w.dir, "other"), []byte("1"), 0600)
		p := filepath.Join(w.dir, "out")
		for n := 0; n <= b.Len()+1; n++ {
			for _, was := range []int{-1, 0, 2 * b.Len()} {
				os.Remove(p)
				if was >= 0 {
					os.WriteFile(p, make([]byte, was), 0600)
				}
				w.call(func() string { return fmt.Sprintf("ToCsvFile, file size limited to %d of %d", n, b.Len()) }, p, func() {
					if syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(n), Max: old.Max}) != nil {
						c.Extra("no_file_size_limits", 1)
						return
					}
					err := m.ToCsvFile(p, ",")
					syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
					if (err == nil) != (n >= b.Len()) {
						c.Failf("ToCsvFile, file size limited to %d of %d: %v", n, b.Len(), err)
					}
				})
				c.Distinct(hash("w", n, was))
			}
		}
	})
	x.Case(func() string { return "ToCsvFile of odd paths" }, func(c *C) {
		w := watchFiles(c)
		defer w.end()
		os.Mkdir(filepath.Join(w.dir, "d"), 0700)
		os.WriteFile(filepath.Join(w.dir, "f"), []byte("1"), 0600)
		for k := 0; k < 40; k++ {
			for _, p := range []string{"d", "f/x", "missing/x", strings.Repeat("n", 300), "with\x00nul", "."} {
				w.call(func() string { return fmt.Sprintf("ToCsvFile to the path %q", p) }, "", func() {
					if err := m.ToCsvFile(w.dir+"/"+p, ","); err == nil {
						c.Failf("ToCsvFile accepts the path %q", p)
					}
				})
				c.Distinct(hash("wp", p))
			}
			for _, name := range routeNames {
				if strings.Contains(name, "/") {
					continue
				}
				p := filepath.Join(w.dir, "d", name)
				w.call(func() string { return fmt.Sprintf("ToCsvFile to %q", name) }, p, func() {
					if err := m.ToCsvFile(p, ";"); err != nil {
						c.Failf("%v", err)
					}
				})
				w.call(func() string { return fmt.Sprintf("removing %q", name) }, p, func() { os.Remove(p) })
				c.Distinct(hash("wn", name))
			}
		}
	})
}

// ---- C26 ---------------------------------------------------------------------------------------------------------

// action loads or reads something; check compares what it gave with what it has to be, now and later
type action struct {
	name string
	do   func(c *C) (check func(c *C, when string))
}

// loadActions are loads of valid and bad models of all families, and reads of matrices
func loadActions(thorough bool) []action {
	var as []action
	var bad = errors.New("injected")
	for fam := 0; fam < numFamilies; fam++ {
		var es []*Ens
		load := canLoad(fam)
		es = append(es, zooEns(fam, 2, 1, 2, 0, load), zooEns(fam, 2, 1, 2, 1, load))
		{ // the same bytes but for the values
			e := zooEns(fam, 2, 1, 2, 0, load)
			for i := range e.Trees {
				t := &e.Trees[i]
				t.Leaf = append([]float64(nil), t.Leaf...)
				for k := range t.Leaf {
					t.Leaf[k] = -t.Leaf[k]
				}
			}
			for i := range e.Weights {
				e.Weights[i] *= -1
			}
			es = append(es, e)
		}
		g := 3
		es = append(es, zooEns(fam, 5, g, 3, 2, load && canGroups(fam, g, true)))
		if fam == famLGText || fam == famXGB {
			es = append(es, zooEns(fam, 2, 4, 1, 1, canGroups(fam, 4, true))) // another number of classes
		}
		if thorough {
			es = append(es, zooEns(fam, 3, 1, 7, 5, false))
		}
		for k, e := range es {
			data := emit(e)
			rows := rowPool(e, 5)
			add := func(name string, get func() (*leaves.Ensemble, error)) {
				as = append(as, action{fmt.Sprintf("%s of %s model %d", name, famName[fam], k), func(c *C) func(c *C, when string) {
					m, err := get()
					if err != nil {
						c.Failf("%s of %s model %d: refused: %v", name, famName[fam], k, err)
					}
					return func(c *C, when string) {
						if m.NFeatures() != e.NFeat || m.NEstimators() != e.stages() || m.NOutputGroups() != e.Groups || m.Name() != e.name() ||
							m.Transformation().Name() != linkName[e.link()] || fmt.Sprint(m.NLeaves()) != fmt.Sprint(e.nLeaves()) {
							c.Failf("%s: %s model %d has other metadata: %d features, %d estimators, %d outputs, %s, %s, leaves %v", when, famName[fam], k, m.NFeatures(), m.NEstimators(), m.NOutputGroups(), m.Name(), m.Transformation().Name(), m.NLeaves())
						}
						o := make([]float64, e.Groups)
						for _, r := range rows {
							if err := m.Predict(r, 0, o); err != nil {
								c.Failf("%s: %v", when, err)
							}
							if want := e.expect(viewOrig, r, 0); !closeAll(o, want, close12) {
								c.Failf("%s: %s model %d, row %v: got %v, want %v", when, famName[fam], k, r, o, want)
							}
						}
					}
				}})
			}
			add("load", func() (*leaves.Ensemble, error) { return loadBytes(fam, data, e.Load) })
			if k == 0 || thorough && k == 3 {
				add("byte-wise load", func() (*leaves.Ensemble, error) {
					return loadFrom(fam, &faultReader{data: data, end: len(data), err: io.EOF, chunk: func(int) int { return 1 }}, e.Load, 16)
				})
				refuse := func(name string, get func() (*leaves.Ensemble, error)) {
					as = append(as, action{name + " of " + famName[fam], func(c *C) func(c *C, when string) {
						if _, err := get(); err == nil {
							c.Failf("%s of %s succeeds", name, famName[fam])
						}
						return func(c *C, when string) {}
					}})
				}
				refuse("truncated load", func() (*leaves.Ensemble, error) { return loadBytes(fam, data[:len(data)/2], e.Load) })
				refuse("failing load", func() (*leaves.Ensemble, error) {
					return loadFrom(fam, &faultReader{data: data, end: len(data) * 2 / 3, err: bad}, e.Load, 64)
				})
			}
		}
	}
	rd := func(s string) *bufio.Reader { return bufio.NewReader(strings.NewReader(s)) }
	matrix := func(name string, get func() (interface{}, error), want interface{}) {
		as = append(as, action{name, func(c *C) func(c *C, when string) {
			got, err := get()
			if want == nil {
				if err == nil {
					c.Failf("%s succeeds", name)
				}
				return func(c *C, when string) {}
			}
			if err != nil {
				c.Failf("%s: %v", name, err)
			}
			return func(c *C, when string) {
				if !eqAny(got, want) {
					c.Failf("%s: %s gives %v instead of %v", when, name, got, want)
				}
			}
		}})
	}
	matrix("csv", func() (interface{}, error) { return mat.DenseMatFromCsv(rd("1,,3\n4,5,6\n"), 0, false, ",", -1) }, &mat.DenseMat{Values: []float64{1, -1, 3, 4, 5, 6}, Rows: 2, Cols: 3})
	matrix("other csv", func() (interface{}, error) { return mat.DenseMatFromCsv(rd("1;;7\n4;;\n"), 1, true, ";", 9) }, &mat.DenseMat{Values: []float64{9, 7}, Rows: 1, Cols: 2})
	matrix("ragged csv", func() (interface{}, error) { return mat.DenseMatFromCsv(rd("1,2\n3\n"), 0, false, ",", -1) }, nil)
	matrix("libsvm", func() (interface{}, error) { return mat.CSRMatFromLibsvm(rd("1 0:1 2:3\n0 5:6\n"), 0, true) }, &mat.CSRMat{RowHeaders: []int{0, 2, 3}, ColIndexes: []int{0, 2, 5}, Values: []float64{1, 3, 6}})
	matrix("dense libsvm", func() (interface{}, error) { return mat.DenseMatFromLibsvm(rd("0:1 1:3\n0:5 1:6\n"), 0, false) }, &mat.DenseMat{Values: []float64{1, 3, 5, 6}, Rows: 2, Cols: 2})
	matrix("bad libsvm", func() (interface{}, error) { return mat.CSRMatFromLibsvm(rd("1 0:1 2:3\n0 x:6\n"), 0, true) }, nil)
	return as
}

func runLoadHistories(x *X) {
	rewrites(x, famLGText, famLGJSON, famXGB, famDart, famLinear, famSK)
	matrixRewrites(x)
	longLoads(x)
	twinLoads(x, famLGText, famLGJSON, famXGB, famDart, famLinear, famSK)
	runAlone(x)
	as := loadActions(x.Thorough)
	run := func(c *C, seq ...int) {
		var later []func(c *C, when string)
		for i, a := range seq {
			c.stage = fmt.Sprintf("step %d of %v", i, seq)
			f := as[a].do(c)
			f(c, "at once, "+as[a].name)
			later = append(later, f)
			c.Trans(1)
		}
		for i, f := range later {
			f(c, fmt.Sprintf("step %d (%s), in the end", i, as[seq[i]].name))
		}
		c.States(1)
		c.Traces(1)
	}
	name := func(seq []int) string {
		var s []string
		for _, a := range seq {
			s = append(s, as[a].name)
		}
		return strings.Join(s, "; ")
	}
	wrap := func(c *C, seq ...int) {
		defer func() {
			if r := recover(); r != nil {
				if f, ok := r.(failure); ok {
					panic(failure{f.msg + "\nhistory: " + name(seq)})
				}
				panic(r)
			}
		}()
		run(c, seq...)
	}
	for a := range as {
		for b := range as {
			x.Case(func() string { return fmt.Sprintf("histories of loads that start with %s; %s", as[a].name, as[b].name) }, func(c *C) {
				wrap(c, a)
				wrap(c, a, b)
				for k := range as {
					wrap(c, a, b, k)
					if x.Thorough {
						for l := range as {
							if (a+b+k+l)%3 == 0 {
								wrap(c, a, b, k, l)
							}
						}
					}
				}
				// the same many times
				var seq []int
				for i := 0; i < 40; i++ {
					seq = append(seq, a, b)
				}
				wrap(c, seq...)
			})
		}
	}
}

func init() {
	register(&Check{ID: "C25", Level: "fault_enumeration", Run: runFiles,
		Rule: "every function that takes a file name x every prefix and every third single byte replacement of small files of all formats x 21 magic numbers x odd paths; ToCsvFile under a limit of the file size at every byte; after each call no descriptor to the directory is open, the files in it are as before, no goroutine is left; one non-trivial case per (function, content)"})
	register(&Check{ID: "C26", Level: "model_checking", Run: runLoadHistories,
		Rule: "all sequences of up to 3 (a third of those of 4) loads over 50 actions: valid models of all families (equal in size, larger, byte-wise), truncated ones, failing streams, matrices; and all pairs repeated 40 times; every result compared with the reference at once and again in the end; one state per sequence; every single edit of small models of every family loaded in a process of its own and after every one of about 45 other loads, and correct models after every damaged one and after a failure at every byte: same outcome"})
}
