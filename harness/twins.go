//go:build go1.23

package main

import (
	"fmt"
	"math"

	"github.com/dmitryikh/leaves"
)

func cloneEns(e *Ens) *Ens {
	t := *e
	t.Weights = append([]float32(nil), e.Weights...)
	t.Drop = append([]float32(nil), e.Drop...)
	t.Prior = append([]float64(nil), e.Prior...)
	t.Trees = append([]Tree(nil), e.Trees...)
	for k := range t.Trees {
		t.Trees[k].Leaf = append([]float64(nil), e.Trees[k].Leaf...)
		t.Trees[k].Nodes = append([]Node(nil), e.Trees[k].Nodes...)
		for i := range t.Trees[k].Nodes {
			t.Trees[k].Nodes[i].Cats = append([]int(nil), e.Trees[k].Nodes[i].Cats...)
		}
	}
	return &t
}

// nearTwins are all models that differ from e in one number, one category or one flag; rows tells them apart
func nearTwins(e *Ens) (all []*Ens, rows [][]float64) {
	add := func(f func(t *Ens)) {
		t := cloneEns(e)
		f(t)
		all = append(all, t)
	}
	add(func(t *Ens) {})
	for k := range e.Trees {
		for l := range e.Trees[k].Leaf {
			add(func(t *Ens) { t.Trees[k].Leaf[l] += 64 })
		}
		for i := range e.Trees[k].Nodes {
			n := &e.Trees[k].Nodes[i]
			if e.NFeat > 1 {
				add(func(t *Ens) { t.Trees[k].Nodes[i].F = (n.F + 1) % e.NFeat })
			}
			if e.Fam != famSK {
				add(func(t *Ens) { t.Trees[k].Nodes[i].DefLeft = !n.DefLeft })
			}
			if n.L < 0 && n.R < 0 {
				add(func(t *Ens) { t.Trees[k].Nodes[i].L, t.Trees[k].Nodes[i].R = n.R, n.L })
			}
			if (e.Fam == famLGText || e.Fam == famLGJSON) && !n.Cat {
				add(func(t *Ens) { t.Trees[k].Nodes[i].Missing = (n.Missing + 1) % 3 })
				add(func(t *Ens) { t.Trees[k].Nodes[i].Missing = (n.Missing + 2) % 3 })
			}
			if !n.Cat {
				add(func(t *Ens) { t.Trees[k].Nodes[i].Thr = n.Thr + 0.25 })
				add(func(t *Ens) { t.Trees[k].Nodes[i].Thr = -n.Thr - 8 })
				continue
			}
			for v := 0; v < 160; v++ {
				if len(n.Cats) == 1 && n.Cats[0] == v {
					continue
				}
				add(func(t *Ens) {
					m := &t.Trees[k].Nodes[i]
					for j, c := range m.Cats {
						if c == v {
							m.Cats = append(m.Cats[:j], m.Cats[j+1:]...)
							return
						}
					}
					m.Cats = append(m.Cats, v)
				})
			}
		}
	}
	for k := range e.Trees { // two numbers swapped, a category replaced: sums and counts stay the same
		l := e.Trees[k].Leaf
		for i := range l {
			for j := 0; j < i; j++ {
				add(func(t *Ens) { t.Trees[k].Leaf[i], t.Trees[k].Leaf[j] = l[j], l[i] })
			}
		}
		for i := range e.Trees[k].Nodes {
			n := &e.Trees[k].Nodes[i]
			for j, v := range n.Cats {
				for _, to := range []int{v ^ 1, v ^ 2, v ^ 16, v + 32, v - 32, v ^ 64} {
					if has := func() bool {
						for _, w := range n.Cats {
							if w == to {
								return true
							}
						}
						return to < 0 || to >= 160
					}(); !has {
						add(func(t *Ens) { t.Trees[k].Nodes[i].Cats[j] = to })
					}
				}
			}
			for j := 0; j < i; j++ {
				if m := &e.Trees[k].Nodes[j]; !m.Cat && !n.Cat && m.Thr != n.Thr {
					add(func(t *Ens) { t.Trees[k].Nodes[i].Thr, t.Trees[k].Nodes[j].Thr = m.Thr, n.Thr })
				}
			}
		}
	}
	for i := range e.Weights {
		for j := 0; j < i; j++ {
			if e.Weights[i] != e.Weights[j] {
				add(func(t *Ens) { t.Weights[i], t.Weights[j] = e.Weights[j], e.Weights[i] })
			}
		}
		add(func(t *Ens) { t.Weights[i] += 64 })
	}
	for i := range e.Prior {
		add(func(t *Ens) { t.Prior[i] += 64 })
	}
	if e.Fam == famDart {
		for i := range e.Drop {
			add(func(t *Ens) { t.Drop[i] *= 2 })
		}
	}
	switch e.Fam {
	case famXGB, famDart, famLinear:
		add(func(t *Ens) { t.Base += 64 })
	case famSK:
		add(func(t *Ens) { t.LR *= 2 })
	}
	rows = rowPool(e, 3)
	if len(rows) > 40 {
		rows = rows[:40]
	}
	for v := 0; v < 160; v++ {
		for f := 0; f < e.NFeat; f++ {
			r := make([]float64, e.NFeat)
			r[f] = float64(v)
			rows = append(rows, r)
		}
	}
	for f := 0; f < e.NFeat; f++ {
		for _, v := range []float64{math.NaN(), 0.6, -0.6, -7.5, 1.2, 1e300} {
			if e.Fam == famSK && math.IsNaN(v) {
				continue
			}
			r := make([]float64, e.NFeat)
			r[f] = v
			rows = append(rows, r)
		}
	}
	return all, rows
}

// twinBase is a model with category sets of all encodings, if its family has them
func twinBase(fam, g, v int) *Ens {
	e := zooEns(fam, 3, g, 2, v, false)
	if fam == famLGText || fam == famLGJSON {
		e = cloneEns(e)
		sets := [][]int{{5, 7}, {1, 40, 41, 63, 64, 127, 159}, {2, 33}, {0, 31, 32, 95, 96, 150}}
		for k := range e.Trees {
			n := Node{F: k % 3, Cat: true, Cats: sets[(k+v)%4], L: -1, R: -2}
			if len(e.Trees[k].Nodes) > 0 { // a new root above the others
				for i := range e.Trees[k].Nodes {
					if m := &e.Trees[k].Nodes[i]; m.L >= 0 {
						m.L++
					}
					if m := &e.Trees[k].Nodes[i]; m.R >= 0 {
						m.R++
					}
				}
				n.L, n.R = ^len(e.Trees[k].Leaf), 1
			} else {
				n.L, n.R = -2, -1
			}
			e.Trees[k].Nodes = append([]Node{n}, e.Trees[k].Nodes...)
			e.Trees[k].Leaf = append(e.Trees[k].Leaf, 7.5)
		}
	}
	return e
}

// twinLoads loads all models that differ in one place from each other in one process, forwards and backwards, while
// all of them stay in use
func twinLoads(x *X, fams ...int) {
	for _, fam := range fams {
		for _, g := range []int{1, 2} {
			for v := 0; v < 3; v++ {
				if !canGroups(fam, g, false) {
					continue
				}
				x.Case(func() string { return fmt.Sprintf("%s, %d groups: near twins of model %d", famName[fam], g, v) }, func(c *C) {
					all, rows := nearTwins(twinBase(fam, g, v))
					loaded := make([]*leaves.Ensemble, 0, 2*len(all))
					for i := range all {
						loaded = append(loaded, mustLoad(c, fam, emit(all[i]), false))
						c.Alive()
					}
					for i := range all {
						loaded = append(loaded, mustLoad(c, fam, emit(all[len(all)-1-i]), false))
						c.Alive()
					}
					out := make([]float64, g)
					for i, t := range all {
						c.Alive()
						for _, r := range rows {
							want := t.raw(r, 0)
							for _, j := range []int{i, 2*len(all) - 1 - i} {
								if err := loaded[j].Predict(r, 0, out); err != nil {
									c.Failf("%v\n%s", err, t)
								}
								if !closeAll(out, want, close12) {
									c.SetModel(emit(t))
									c.Failf("model %d of %d models that differ in one place (load %d), row %v: got %v, want %v\n%s", i, len(all), j, r, out, want, t)
								}
							}
						}
					}
					c.States(2 * len(all))
					c.Trans(2 * len(all) * len(rows))
					c.Traces(2 * len(all))
				})
			}
		}
	}
}

// wideBatches are matrices of many features whose rows differ from the row before them in few features
func wideBatches(x *X) {
	for fam := 0; fam < numFamilies; fam++ {
		for _, g := range []int{1, 3} {
			for _, w := range []int{20, 150, 400} {
				for kind := 0; kind < 3; kind++ {
					if !canGroups(fam, g, false) || w == 400 && (fam == famSK || fam == famLGJSON) && !x.Thorough {
						continue
					}
					x.Case(func() string {
						return fmt.Sprintf("%s, %d groups, %d features, rows of kind %d", famName[fam], g, w, kind)
					}, func(c *C) { wideCase(c, fam, g, w, kind) })
				}
			}
		}
	}
}

func wideCase(c *C, fam, g, w, kind int) {
	e := plain(fam, w, g)
	if fam == famLinear {
		for i := 0; i < (w+1)*g; i++ {
			e.Weights = append(e.Weights, float32(i+1))
		}
	} else {
		for f := 0; f < w; f++ {
			for k := 0; k < g; k++ {
				t := stump(f, f)
				t.Leaf = []float64{float64(-f - 1), float64((k + 1) * (f + 1))}
				t.Nodes[0].Thr = 0.5
				e.Trees = append(e.Trees, t)
				e.Drop = append(e.Drop, 1)
			}
		}
	}
	m := e.load(c)
	var rows [][]float64
	for f := 0; f < w; f++ {
		r := make([]float64, w)
		switch kind {
		case 0: // one feature set, and none
			r[f] = 1
			rows = append(rows, make([]float64, w), r)
		case 1: // one feature set, the next one set
			r[f] = 1
			rows = append(rows, r)
		case 2: // all features set but one, and all
			for j := range r {
				r[j] = 1
			}
			all := append([]float64(nil), r...)
			r[f] = 0
			rows = append(rows, all, r)
		}
	}
	n := len(rows)
	want := make([][]float64, n)
	var flat []float64
	indptr := []int{0}
	var cols []int
	var vals []float64
	out := make([]float64, g)
	for i, r := range rows {
		want[i] = e.raw(r, 0)
		flat = append(flat, r...)
		if err := m.Predict(r, 0, out); err != nil || !closeAll(out, want[i], close12) {
			c.Failf("row %d alone: got %v (%v), want %v", i, out, err, want[i])
		}
		for f, v := range r {
			if v != 0 || fam == famXGB || fam == famDart {
				cols, vals = append(cols, f), append(vals, v)
			}
		}
		indptr = append(indptr, len(cols))
		c.Alive()
	}
	for _, threads := range []int{1, 3} {
		for form := 0; form < 2; form++ {
			got := make([]float64, n*g)
			var err error
			if form == 0 {
				err = m.PredictDense(flat, n, w, got, 0, threads)
			} else {
				err = m.PredictCSR(indptr, cols, vals, got, 0, threads)
			}
			if err != nil {
				c.Failf("%v", err)
			}
			for i := range rows {
				if !closeAll(got[i*g:(i+1)*g], want[i], close12) {
					c.Failf("%s, %d threads, row %d (kind %d, %d features): got %v, want %v", []string{"dense", "sparse"}[form], threads, i, kind, w, got[i*g:(i+1)*g], want[i])
				}
			}
			c.Alive()
			c.States(n)
			c.Trans(n)
			c.Traces(n)
		}
	}
}

// twinTrees are models whose trees differ from each other in one place
func twinTrees(x *X, fams ...int) {
	for _, fam := range fams {
		for v := 0; v < 3; v++ {
			x.Case(func() string {
				return fmt.Sprintf("%s: trees that are near twins of those of model %d", famName[fam], v)
			}, func(c *C) {
				all, rows := nearTwins(twinBase(fam, 1, v))
				e := cloneEns(all[0])
				for _, t := range all[1:] {
					e.Trees = append(e.Trees, t.Trees...)
					e.Drop = append(e.Drop, t.Drop...)
				}
				m := mustLoad(c, fam, emit(e), false)
				out := make([]float64, 1)
				for _, r := range rows {
					c.Alive()
					for _, n := range []int{0, 1, len(e.Trees) / 2, len(e.Trees) - 1} {
						if err := m.Predict(r, n, out); err != nil {
							c.Failf("%v", err)
						}
						if want := e.raw(r, n); !closeAll(out, want, close12) {
							c.SetModel(emit(e))
							c.Failf("%d trees that differ in one place, the first %d used, row %v: got %v, want %v", len(e.Trees), n, r, out, want)
						}
					}
				}
				c.States(len(e.Trees))
				c.Trans(4 * len(rows))
				c.Traces(4 * len(rows))
			})
		}
	}
}
