//go:build go1.23

package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/mat"
)

// ---- C28: no cycle of operations leaves anything behind --------------------------------------------------------------

// op is one operation; it gets the number of the repetition, so that its content is new every time
type op struct {
	name string
	do   func(c *C, i int)
}

// numbered is the model with values of its own for every number
func numbered(e *Ens, i int) *Ens {
	t := *e
	d := float64(i%100000) / 8
	if e.Fam == famLinear {
		t.Weights = append([]float32(nil), e.Weights...)
		t.Weights[0] += float32(d)
		return &t
	}
	t.Trees = append([]Tree(nil), e.Trees...)
	l := append([]float64(nil), e.Trees[0].Leaf...)
	l[0] += d
	t.Trees[0].Leaf = l
	if len(t.Trees[0].Nodes) > 0 && !t.Trees[0].Nodes[0].Cat {
		n := append([]Node(nil), e.Trees[0].Nodes...)
		n[0].Thr += d
		t.Trees[0].Nodes = n
	}
	return &t
}

func useViews(c *C, m *leaves.Ensemble, e *Ens, i int) {
	row := make([]float64, e.NFeat)
	row[0] = float64(i)
	for _, v := range []*leaves.Ensemble{m, m.EnsembleWithRawPredictions(), m.EnsembleWithLeafPredictions(), m.EnsembleWithLeafPredictions().EnsembleWithRawPredictions()} {
		out := make([]float64, v.NOutputGroups())
		err := v.Predict(row, 0, out)
		if err != nil && v.Transformation().Name() != "leaf_index" {
			c.Failf("%v", err)
		}
		v.PredictSingle(row, 1)
		v.NLeaves()
		v.Name()
	}
}

func familyOps(fam int) []op {
	g := 1
	if canGroups(fam, 3, canLoad(fam)) {
		g = 3
	}
	e := zooEns(fam, 2, g, 2, 1, canLoad(fam))
	var m *leaves.Ensemble
	get := func(c *C) *leaves.Ensemble {
		if m == nil {
			m = e.load(c)
		}
		return m
	}
	n := 66
	vals, out := make([]float64, n*2), make([]float64, n*g)
	var indptr, cols []int
	for i := 0; i <= n; i++ {
		indptr = append(indptr, 2*i)
		cols = append(cols, 0, 1)
	}
	cols = cols[:2*n]
	fill := func(i int) {
		for k := range vals {
			vals[k] = float64((i*7 + k) % 100003)
		}
	}
	must := func(c *C, err error) {
		if err != nil {
			c.Failf("%v", err)
		}
	}
	loadNumbered := func(c *C, i int) *leaves.Ensemble {
		m, err := loadFrom(fam, bytes.NewReader(emit(numbered(e, i))), e.Load, 512)
		if err != nil {
			c.Failf("%v", err)
		}
		return m
	}
	ops := []op{
		{"load", func(c *C, i int) { loadNumbered(c, i) }},
		{"load and use", func(c *C, i int) {
			m := loadNumbered(c, i)
			useViews(c, m, e, i)
			fill(i)
			must(c, m.PredictDense(vals, n, 2, out, 0, 2))
		}},
		{"truncated load", func(c *C, i int) {
			d := emit(numbered(e, i))
			if _, err := loadFrom(fam, bytes.NewReader(d[:len(d)*(1+i%3)/4]), e.Load, 512); err == nil {
				c.Failf("a part of a file is accepted")
			}
		}},
		{"failing load", func(c *C, i int) {
			d := emit(numbered(e, i))
			if _, err := loadFrom(fam, &faultReader{data: d, end: len(d) * (1 + i%3) / 4, err: fmt.Errorf("injected %d", i)}, e.Load, 512); err == nil {
				c.Failf("an I/O error is ignored")
			}
		}},
		{"load of a file", func(c *C, i int) {
			p := filepath.Join(workDir, fmt.Sprintf("leak%d", i))
			must(c, os.WriteFile(p, emit(numbered(e, i)), 0644))
			_, err := loadFile(fam, p, e.Load)
			os.Remove(p)
			if err != nil {
				c.Failf("%v", err)
			}
		}},
		{"load of a truncated file", func(c *C, i int) {
			p := filepath.Join(workDir, fmt.Sprintf("leak%d", i))
			d := emit(numbered(e, i))
			must(c, os.WriteFile(p, d[:len(d)*(1+i%3)/4], 0644))
			_, err := loadFile(fam, p, e.Load)
			os.Remove(p)
			if err == nil {
				c.Failf("a part of a file is accepted")
			}
		}},
		{"load of a missing file", func(c *C, i int) {
			if _, err := loadFile(fam, fmt.Sprintf("/nonexistent/%d", i), e.Load); err == nil {
				c.Failf("a missing file is accepted")
			}
		}},
		{"views", func(c *C, i int) { useViews(c, get(c), e, i) }},
		{"dense", func(c *C, i int) { fill(i); must(c, get(c).PredictDense(vals, n, 2, out, 0, 1)) }},
		{"parallel dense", func(c *C, i int) { fill(i); must(c, get(c).PredictDense(vals, i%67, 2, out, i%5-1, i/3%7-1)) }},
		{"sparse", func(c *C, i int) { fill(i); must(c, get(c).PredictCSR(indptr, cols, vals, out, 0, 1)) }},
		{"parallel sparse", func(c *C, i int) { fill(i); must(c, get(c).PredictCSR(indptr[:i%67+1], cols, vals, out, i%5-1, i/3%7-1)) }},
		{"refused calls", func(c *C, i int) {
			fill(i)
			m := get(c)
			if m.Predict(vals[:1], 0, out) == nil || m.PredictDense(vals, n, 1, out, 0, 2) == nil || m.PredictDense(vals, n, 2, out[:1], 0, 2) == nil ||
				m.PredictCSR([]int{0, 5, 3}, cols, vals, out, 0, 2) == nil {
				c.Failf("a call with short slices is accepted")
			}
		}},
	}
	if fam == famLGJSON {
		ops = append(ops[:4], ops[7:]...) // loaded from readers only
	}
	return ops
}

// brokenOps load files that are cut off or damaged anywhere
func brokenOps(fam int) []op {
	e := plain(fam, 1, 1, stump(0, fam))
	if fam == famSK {
		e = zooEns(fam, 1, 1, 1, 0, false)
	}
	if fam == famLinear {
		e = zooEns(fam, 2, 1, 1, 0, canLoad(fam))
	}
	return []op{
		{"loads of all prefixes", func(c *C, i int) {
			d := emit(numbered(e, i))
			loadFrom(fam, bytes.NewReader(d[:i*97%(len(d)+1)]), e.Load, 512)
		}},
		{"failing loads at all places", func(c *C, i int) {
			d := emit(numbered(e, i))
			loadFrom(fam, &faultReader{data: d, end: i * 97 % (len(d) + 1), err: fmt.Errorf("injected %d", i)}, e.Load, 512)
		}},
		{"loads with a damaged byte", func(c *C, i int) {
			d := emit(numbered(e, i))
			k := i * 97 % len(d)
			d[k] = "0:x-\n9 \xff\x00"[i/len(d)%9]
			m, err := loadFrom(fam, bytes.NewReader(d), e.Load, 512)
			if err == nil && m.NFeatures() < 100 && m.NRawOutputGroups() < 10 {
				m.PredictSingle(make([]float64, m.NFeatures()), 0)
			}
		}},
	}
}

func matrixOps() []op {
	rd := func(s string) *bufio.Reader { return bufio.NewReader(strings.NewReader(s)) }
	must := func(c *C, err error) {
		if err != nil {
			c.Failf("%v", err)
		}
	}
	refused := func(c *C, err error) {
		if err == nil {
			c.Failf("malformed input is accepted")
		}
	}
	return []op{
		{"csv", func(c *C, i int) {
			_, err := mat.DenseMatFromCsv(rd(fmt.Sprintf("%d,2,%d.5\n3,,4\n", i, i)), 0, false, ",", 0)
			must(c, err)
		}},
		{"libsvm", func(c *C, i int) {
			s := fmt.Sprintf("1 0:%d 1:2\n0 0:%d.25 1:3\n", i, i)
			_, err := mat.DenseMatFromLibsvm(rd(s), 0, true)
			must(c, err)
			_, err = mat.CSRMatFromLibsvm(rd(s), 0, true)
			must(c, err)
		}},
		{"malformed csv", func(c *C, i int) {
			_, err := mat.DenseMatFromCsv(rd(fmt.Sprintf("%d,2\n3,x%d\n", i, i)), 0, false, ",", 0)
			refused(c, err)
		}},
		{"malformed libsvm", func(c *C, i int) {
			_, err := mat.CSRMatFromLibsvm(rd(fmt.Sprintf("1 0:%d\n1 1:y%d\n", i, i)), 0, true)
			refused(c, err)
		}},
		{"matrices of arrays", func(c *C, i int) {
			a := []float64{float64(i), 0, 2, 3}
			_, err := mat.DenseMatFromArray(a, 2, 2)
			must(c, err)
			_, err = mat.CSRMatFromArray(a, 2, 2)
			must(c, err)
			_, err = mat.DenseMatFromArray(a, 3, 2)
			refused(c, err)
		}},
		{"files", func(c *C, i int) {
			p := filepath.Join(workDir, fmt.Sprintf("leakmat%d", i))
			d, err := mat.DenseMatFromArray([]float64{float64(i), 0, 2, 3}, 2, 2)
			must(c, err)
			must(c, d.ToCsvFile(p, ","))
			_, err = mat.DenseMatFromCsvFile(p, 0, false, ",", 0)
			os.Remove(p)
			must(c, err)
			_, err = mat.DenseMatFromLibsvmFile(p, 0, true)
			refused(c, err)
		}},
		{"malformed files", func(c *C, i int) {
			p := filepath.Join(workDir, fmt.Sprintf("leakbad%d", i))
			must(c, os.WriteFile(p, []byte(fmt.Sprintf("%d,1\n2\n", i)), 0644))
			_, e1 := mat.DenseMatFromCsvFile(p, 0, false, ",", 0)
			_, e2 := mat.CSRMatFromLibsvmFile(p, 0, true)
			_, e3 := mat.DenseMatFromLibsvmFile(p, 0, true)
			os.Remove(p)
			refused(c, e1)
			refused(c, e2)
			refused(c, e3)
			_, err := mat.DenseMatFromCsvFile(p, 0, false, ",", 0)
			refused(c, err)
		}},
		{"failing write", func(c *C, i int) {
			d, err := mat.DenseMatFromArray([]float64{float64(i), 0, 2, 3}, 2, 2)
			must(c, err)
			refused(c, d.WriteStr(&limitedWriter{n: 3}, ","))
			must(c, d.WriteStr(io.Discard, ","))
			refused(c, d.ToCsvFile(fmt.Sprintf("/nonexistent/%d", i), ","))
		}},
	}
}

// limitedWriter takes n bytes
type limitedWriter struct{ n int }

func (w *limitedWriter) Write(p []byte) (int, error) {
	if len(p) > w.n {
		k := w.n
		w.n = 0
		return k, io.ErrShortWrite
	}
	w.n -= len(p)
	return len(p), nil
}

var warm sync.Once

// warmUp makes the runtime allocate what it keeps of goroutines that have ended
func warmUp() {
	warm.Do(func() {
		var wg sync.WaitGroup
		hold := make(chan struct{})
		for i := 0; i < 4000; i++ {
			wg.Add(1)
			go func() {
				<-hold
				wg.Done()
			}()
		}
		runtime.Gosched()
		close(hold)
		wg.Wait()
	})
}

func inUse() int {
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	var s runtime.MemStats
	runtime.ReadMemStats(&s)
	return int(s.HeapAlloc)
}

// lasso repeats the cycle and measures memory in use after n, 2n, 4n and 8n repetitions. It is unbounded if every
// doubling adds memory of more than 4 bytes for each repetition; then it goes on to 64n to tell it from a cache that fills up
func lasso(c *C, n int, cycle ...op) {
	name := func() string {
		var s []string
		for _, o := range cycle {
			s = append(s, o.name)
		}
		return strings.Join(s, ", then ")
	}
	i := 0
	upTo := func(k int) int {
		for ; i < k; i++ {
			for _, o := range cycle {
				o.do(c, i)
			}
			if i%64 == 0 {
				c.Alive()
			}
		}
		c.Trans(len(cycle))
		return inUse()
	}
	warmUp()
	upTo(16)
	before := runtime.NumGoroutine()
	at := []int{upTo(n), upTo(2 * n), upTo(4 * n)}
	if os.Getenv("VERIF_LEAKS") != "" {
		fmt.Fprintln(os.Stderr, name(), at)
	}
	grows := func(a, b, reps int) bool { return b-a > 4*reps && b-a > 12<<10 }
	if grows(at[0], at[2], 3*n) {
		at = append(at, upTo(8*n), upTo(16*n))
		if grows(at[2], at[4], 12*n) {
			at = append(at, upTo(64*n))
			if grows(at[4], at[5], 48*n) {
				c.Failf("%s: bytes in use after %d, %d, %d, %d, %d and %d repetitions: %v", name(), n, 2*n, 4*n, 8*n, 16*n, 64*n, at)
			}
		}
	}
	for w := 0; ; w++ {
		k := runtime.NumGoroutine()
		if k <= before+8 {
			break
		}
		if w == 40 {
			c.Failf("%s: %d goroutines at first, %d after %d repetitions", name(), before, k, i)
		}
		time.Sleep(50 * time.Millisecond)
		runtime.GC()
		c.Alive()
	}
	c.States(i * len(cycle))
	c.Traces(1)
}

func runLeaks(x *X) {
	single, pair := 512, 96
	if x.Thorough {
		single, pair = 8192, 512
	}
	var all [][]op
	for fam := 0; fam < numFamilies; fam++ {
		all = append(all, familyOps(fam))
	}
	all = append(all, matrixOps())
	where := append(append([]string(nil), famName[:]...), "matrices")
	for fam := 0; fam < numFamilies; fam++ {
		for _, o := range brokenOps(fam) {
			x.Case(func() string { return famName[fam] + ": " + o.name }, func(c *C) { lasso(c, 2*single, o) })
		}
	}
	for f, ops := range all {
		for a := range ops {
			x.Case(func() string { return where[f] + ": " + ops[a].name }, func(c *C) { lasso(c, single, all[f][a]) })
			for b := range ops {
				if a < b { // b, then a is the same cycle
					x.Case(func() string { return where[f] + ": " + ops[a].name + ", then " + ops[b].name }, func(c *C) { lasso(c, pair, all[f][a], all[f][b]) })
				}
			}
			for g := range all {
				if g <= f || !x.Thorough {
					continue
				}
				for b := range all[g] {
					x.Case(func() string { return where[f] + ": " + ops[a].name + ", then " + where[g] + ": " + all[g][b].name }, func(c *C) { lasso(c, 64, all[f][a], all[g][b]) })
				}
			}
		}
	}
}

func init() {
	register(&Check{ID: "C28", Level: "model_checking", Run: runLeaks,
		Rule: "lassos: every operation (loads of valid, truncated, failing and missing files of all families, derived views, predictions by every path, refused calls, reading and writing of matrices; loads cut off after every byte, failing at every place, with one damaged byte; new content in every repetition) and every pair of operations of one family (thorough: of all) repeated n, 2n and 4n times, on suspicion 64n times; memory in use after garbage collection, goroutines; one state per operation"})
}
