//go:build go1.23

package main

import "fmt"

// sweep explores the sizes of ensembles: outputs x stages x features around the sizes at which buffers, counters and
// loops change their ways, with special weights, priors and leaf values. f gets every model.
func sweep(x *X, fams []int, limit int, f func(c *C, e *Ens)) {
	if x.Thorough {
		limit *= 4
	}
	for _, fam := range fams {
		if fam == famLinear {
			continue
		}
		for _, g := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300} {
			for _, st := range []int{1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257, 300} {
				if g*st > limit {
					continue
				}
				for vi, nf := range []int{1, 2, 3, 9, 11, 33} {
					if vi > 1 && (g > 3 && st > 3) && (vi+g+st)%4 > 0 {
						continue
					}
					for _, load := range []bool{false, true} {
						if load && !canLoad(fam) || !canGroups(fam, g, load) {
							continue
						}
						x.Case(func() string {
							return fmt.Sprintf("%s: %d outputs, %d stages, %d features, transformation %v", famName[fam], g, st, nf, load)
						}, func(c *C) { f(c, sweepEns(fam, nf, g, st, vi, load)) })
					}
				}
			}
		}
	}
}

func sweepEns(fam, nf, g, st, vi int, load bool) *Ens {
	e := zooEns(fam, nf, g, st, vi+g, load)
	switch (vi + st + g) % 5 {
	case 0: // weights of all kinds
		for i := range e.Drop {
			e.Drop[i] = []float32{0, 1, -1, 0.25, 0, 3, 1e-3}[i%7]
		}
		e.LR = 1
		e.Base = -1.5
	case 1: // leaf values of zero
		for i := range e.Trees {
			t := &e.Trees[i]
			t.Leaf = append([]float64(nil), t.Leaf...)
			for l := range t.Leaf {
				if (l+i)%2 == 0 {
					t.Leaf[l] = 0
				}
			}
		}
		e.Base = 0
		e.LR = 0.125
	case 2: // zero offsets
		e.Base, e.LR = 0, 1
		for i := range e.Prior {
			e.Prior[i] = 0
		}
	case 3: // equal trees
		for i := range e.Trees {
			e.Trees[i] = e.Trees[i%g]
		}
		e.RF = fam == famLGText
	}
	return e
}

// sweepRows are n rows that differ in every feature
func sweepRows(e *Ens, n int) [][]float64 {
	if len(e.Trees) < 40 {
		return rowPool(e, n)
	}
	al := make([][]float64, e.NFeat)
	for j := range al {
		al[j] = alphabet(e.Fam, e.Trees[:20], j, 2)
	}
	var rows [][]float64
	for k := 0; k < n; k++ {
		r := make([]float64, e.NFeat)
		for j := range r {
			r[j] = 0.75
			if len(al[j]) > 0 {
				r[j] = al[j][(k*(2*j+1)+j+k/7)%len(al[j])]
			}
		}
		rows = append(rows, r)
	}
	return rows
}

// sweepRaw compares predictions of all calls with the reference
func sweepRaw(c *C, e *Ens) {
	m := e.load(c)
	rows := sweepRows(e, 20)
	for _, v := range []int{viewOrig, viewRaw} {
		d := deriveView(m, v)
		no := d.NOutputGroups()
		if no != e.Groups {
			c.Failf("%d outputs, want %d", no, e.Groups)
		}
		want := make([]float64, 0, len(rows)*no)
		for i, r := range rows {
			w := e.expect(v, r, 0)
			want = append(want, w...)
			o := guarded(no, 1)
			if err := d.Predict(r, 0, o); err != nil {
				c.Failf("%v\n%s", err, e)
			}
			if !closeAll(o[:no], w, close12) {
				c.Failf("row %d, %v: got %v, want %v\n%s", i, r, o[:no], w, e)
			}
			checkGuard(c, "Predict", o, no)
			if no == 1 {
				if got := d.PredictSingle(r, 0); !close12(got, w[0]) {
					c.Failf("row %d, %v: PredictSingle gives %v, want %v\n%s", i, r, got, w[0], e)
				}
			}
			c.Trans(len(e.Trees))
		}
		nr := len(rows)
		for _, th := range []int{1, 2} {
			o := guarded(nr*no, 1)
			if err := d.PredictDense(flat(rows, 0), nr, e.NFeat, o, 0, th); err != nil {
				c.Failf("%v", err)
			}
			if !closeAll(o[:nr*no], want, close12) {
				c.Failf("PredictDense, %d threads: got %v, want %v\n%s", th, o[:nr*no], want, e)
			}
			checkGuard(c, "PredictDense", o, nr*no)
			o = guarded(nr*no, 1)
			sp := e.csrOf(rows, true)
			if err := d.PredictCSR(sp.indptr, sp.cols, sp.vals, o, 0, th); err != nil {
				c.Failf("%v", err)
			}
			if !closeAll(o[:nr*no], want, close12) {
				c.Failf("PredictCSR, %d threads: got %v, want %v\n%s", th, o[:nr*no], want, e)
			}
			checkGuard(c, "PredictCSR", o, nr*no)
			c.Traces(2 * nr)
		}
		c.States(nr)
		c.Traces(nr)
	}
}

// sweepPrefix compares predictions with the first n estimators with the reference
func sweepPrefix(c *C, e *Ens) {
	m := e.load(c)
	rows := sweepRows(e, 6)
	st := e.stages()
	for n := -1; n <= st+2; n++ {
		if st > 40 && n > 20 && n < st-20 && n%16 > 1 {
			continue
		}
		for _, v := range []int{viewOrig, viewRaw} {
			d := deriveView(m, v)
			no := d.NOutputGroups()
			for i, r := range rows {
				w := e.expect(v, r, n)
				o := guarded(no, 1)
				if err := d.Predict(r, n, o); err != nil {
					c.Failf("%v", err)
				}
				if !closeAll(o[:no], w, close12) {
					c.Failf("row %d, %v, first %d estimators: got %v, want %v\n%s", i, r, n, o[:no], w, e)
				}
				checkGuard(c, "Predict", o, no)
			}
			rs := [][]float64{}
			for len(rs) < 18 {
				rs = append(rs, rows[len(rs)%len(rows)])
			}
			for _, th := range []int{1, 2} {
				o := guarded(18*no, 1)
				if err := d.PredictDense(flat(rs, 0), 18, e.NFeat, o, n, th); err != nil {
					c.Failf("%v", err)
				}
				p := guarded(18*no, 1)
				sp := e.csrOf(rs, true)
				if err := d.PredictCSR(sp.indptr, sp.cols, sp.vals, p, n, th); err != nil {
					c.Failf("%v", err)
				}
				for i, r := range rs[:len(rows)] {
					w := e.expect(v, r, n)
					if !closeAll(o[i*no:(i+1)*no], w, close12) || !closeAll(p[i*no:(i+1)*no], w, close12) {
						c.Failf("row %d of 18, first %d estimators, %d threads: got %v and %v (sparse), want %v\n%s", i, n, th, o[i*no:(i+1)*no], p[i*no:(i+1)*no], w, e)
					}
				}
				checkGuard(c, "PredictDense", o, 18*no)
				checkGuard(c, "PredictCSR", p, 18*no)
			}
			c.States(len(rows))
			c.Trans(len(rows) * len(e.Trees))
			c.Traces(3 * len(rows))
		}
	}
}
