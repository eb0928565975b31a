//go:build go1.23

package main

import (
	"bytes"
	"fmt"
	"math"

	"github.com/dmitryikh/leaves"
)

// longHistories are histories of more than 65536 calls on one ensemble, whose sparse rows hold a feature only once in
// 65537 calls, so that what is left of a call shows in later ones
func longHistories(x *X) {
	for fam := 0; fam < numFamilies; fam++ {
		for _, load := range []bool{false, true} {
			if load && !canLoad(fam) {
				continue
			}
			for _, g := range []int{1, 3} {
				if !canGroups(fam, g, load) {
					continue
				}
				for kind := 0; kind < 7; kind++ {
					x.Case(func() string {
						return fmt.Sprintf("%s, %d groups, transformation %v: 140000 calls of kind %d", famName[fam], g, load, kind)
					}, func(c *C) { longCase(c, fam, g, load, kind) })
				}
			}
		}
	}
}

func longCase(c *C, fam, g int, load bool, kind int) {
	e := zooEns(fam, 3, g, 2, 1, load)
	m := e.load(c)
	ms := [3]*leaves.Ensemble{m, m.EnsembleWithRawPredictions(), m.EnsembleWithLeafPredictions()}
	noLeaf := fam == famLinear
	n := 140000
	if kind == 3 || kind == 4 {
		n = 70000
	}
	type key struct {
		v          int
		a, b, d, s int
	}
	memo := map[key][]float64{}
	expect := func(v int, present [3]int, sparse int) []float64 {
		k := key{v, present[0], present[1], present[2], sparse}
		if w, ok := memo[k]; ok {
			return w
		}
		row := make([]float64, 3)
		for f := range row {
			if sparse == 1 {
				row[f] = absent(fam)
			}
			if present[f] > 0 {
				row[f] = float64(present[f]) - 2.5
			}
		}
		w := e.expect(v, row, 0)
		if v == viewLeaf && !e.leafExact() { // the numbering is the library's: what a fresh view says
			w = make([]float64, m.NEstimators()*g)
			if err := e.load(c).EnsembleWithLeafPredictions().Predict(row, 0, w); err != nil {
				c.Failf("leaf predictions: %v", err)
			}
		}
		memo[k] = w
		return w
	}
	outs := [3][]float64{}
	for v := range outs {
		outs[v] = make([]float64, ms[v].NOutputGroups())
	}
	for i := 0; i < n; i++ {
		v := viewOrig
		switch {
		case kind > 4: // one view all the time
			v = viewOrig + (kind-5)*(viewRaw-viewOrig)
		case i%5 == 3:
			v = viewRaw
		case i%7 == 2 && !noLeaf:
			v = viewLeaf
		}
		var present [3]int
		for f := range present {
			if i%65537 == f*3 || i%257 == 100+f && i < 65536/2 {
				present[f] = 1 + (i+f)%7
			}
		}
		out := outs[v]
		var err error
		sparse := 0
		switch kind {
		case 0, 3, 5, 6: // sparse rows
			sparse = 1
			var cols []int
			var vals []float64
			for f, p := range present {
				if p > 0 {
					cols, vals = append(cols, f), append(vals, float64(p)-2.5)
				}
			}
			if kind == 3 { // new views every time
				switch v {
				case viewRaw:
					ms[v] = m.EnsembleWithRawPredictions()
				case viewLeaf:
					ms[v] = m.EnsembleWithLeafPredictions()
				}
			}
			err = ms[v].PredictCSR([]int{0, len(cols)}, cols, vals, out, 0, 1+i%2)
		default:
			row := make([]float64, 3)
			for f, p := range present {
				if p > 0 {
					row[f] = float64(p) - 2.5
				}
			}
			switch {
			case kind == 1:
				err = ms[v].Predict(row, 0, out)
			case kind == 2:
				err = ms[v].PredictDense(row, 1, 3, out, 0, 1+i%2)
			case i%3 == 0 && g == 1 && v != viewLeaf:
				out[0] = ms[v].PredictSingle(row, 0)
			case i%3 == 1: // failing calls between
				if ms[v].Predict(row[:2], 0, out) == nil || ms[v].Predict(row, 0, out[:0]) == nil || ms[v].PredictDense(row, 1, 2, out, 0, 1) == nil {
					c.Failf("call %d: a short slice is accepted", i)
				}
				err = ms[v].Predict(row, 0, out)
			default:
				err = ms[v].PredictDense(row, 1, 3, out, 0, 1)
			}
		}
		if err != nil {
			c.Failf("call %d (view %d): %v", i, v, err)
		}
		if want := expect(v, present, sparse); !closeAll(out, want, close12) {
			c.Failf("call %d of kind %d (view %d), features %v (0: absent): got %v, want %v\n%s", i, kind, v, present, out, want, e)
		}
		if i%4096 == 0 {
			c.Alive()
		}
	}
	c.States(n)
	c.Trans(n)
	c.Traces(n)
}

// absent is the value a feature has that a sparse row doesn't list
func absent(fam int) float64 {
	if fam == famXGB || fam == famDart || fam == famLinear {
		return math.NaN()
	}
	return 0
}

// longLoads are more than 65536 loads of small models in one process, with refused ones between
func longLoads(x *X) {
	for fam := 0; fam < numFamilies; fam++ {
		x.Case(func() string { return fmt.Sprintf("70000 loads of %s models", famName[fam]) }, func(c *C) {
			n := 70000
			var es []*Ens
			var docs [][]byte
			var rows [][][]float64
			for v := 0; v < 3; v++ {
				e := plain(fam, 2, 1)
				if fam == famLinear {
					e.Weights = []float32{1, float32(v), 0.5}
				} else {
					e.Trees = []Tree{stump(v, v%2)}
					e.Drop = []float32{float32(v + 1)}
				}
				es, docs = append(es, e), append(docs, emit(e))
				rows = append(rows, [][]float64{{0, 0}, {1, 1}, {3, -2}})
			}
			if fam == famSK {
				n = 20000
			}
			for i := 0; i < n; i++ {
				k := i % 3
				if i%257 == 3 {
					if _, err := loadFrom(fam, bytes.NewReader(docs[k][:len(docs[k])/2]), false, 64); err == nil {
						c.Failf("load %d: half of a file is accepted", i)
					}
				}
				m, err := loadFrom(fam, bytes.NewReader(docs[k]), false, 4096)
				if err != nil {
					c.Failf("load %d: %v", i, err)
				}
				r := rows[k][i%3]
				if got, want := m.PredictSingle(r, 0), es[k].raw(r, 0)[0]; !same(got, want) {
					c.Failf("load %d, row %v: got %v, want %v\n%s", i, r, got, want, es[k])
				}
				if i%1024 == 0 {
					c.Alive()
				}
			}
			c.States(n)
			c.Trans(n)
			c.Traces(n)
		})
	}
}
