//go:build go1.23

package main

import (
	"fmt"
	"math"

	"github.com/dmitryikh/leaves"
)

// ---- C04 ---------------------------------------------------------------------------------------------------------

func runLinear(x *X) {
	vals := []float64{math.NaN(), 0, math.Copysign(0, -1), 1, -1, 0.5, 2, -3, 1e10, 1e-10, math.Inf(1)}
	wsets := [][]float32{
		{1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536},
		{-1, 0.5, -0.25, 3, 0.125, -7, 1.5, 2.5, -16, 5, 6, 7, 8, -9, 10, 11, 12},
		{0, 1, 0, -1, 2, 0, 0, 4, 0, 1, 0, 2, 0, 3, 0, 1, 1},
		{0.1, -0.3333, 1e-7, 1e7, 0.7, -0.9, 3.3, 1e-20, 5.5, 6.6, 7.7, 8.8, 9.9, 0.11, 0.22, 0.33, 0.44},
	}
	for nf := 1; nf <= 4; nf++ {
		al := vals
		if nf == 3 && !x.Thorough {
			al = vals[:8]
		}
		if nf == 4 {
			al = vals[:5]
		}
		for g := 1; g <= 4; g++ {
			for wi, ws := range wsets {
				for rot := 0; rot < 3; rot++ {
					for _, base := range []float32{0, 0.5, -2, 0.1} {
						e := &Ens{Fam: famLinear, NFeat: nf, Groups: g, Base: base}
						for i := 0; i < (nf+1)*g; i++ {
							e.Weights = append(e.Weights, ws[(i*(1+rot)+rot)%len(ws)])
						}
						x.Case(func() string { return e.String() }, func(c *C) {
							m := e.load(c)
							if m.NFeatures() != nf || m.NOutputGroups() != g || m.NEstimators() != 1 {
								c.Failf("features %d groups %d estimators %d, want %d %d 1", m.NFeatures(), m.NOutputGroups(), m.NEstimators(), nf, g)
							}
							row := make([]float64, nf)
							n := 0
							var rec func(i int)
							rec = func(i int) {
								if i < nf {
									for _, v := range al {
										row[i] = v
										rec(i + 1)
									}
									return
								}
								want := e.raw(row, 0)
								out := guarded(g, 1)
								if err := m.Predict(row, n%4-1, out); err != nil {
									c.Failf("%v", err)
								}
								if !closeAll(out[:g], want, close12) {
									c.Failf("row %v: got %v want %v\n%s", row, out[:g], want, e)
								}
								checkGuard(c, "Predict", out, g)
								// sparse form without missing values and zeros
								if wi == 0 || n%3 == 0 {
									ip, cols, vs := []int{0}, []int{}, []float64{}
									for j := nf - 1; j >= 0; j-- {
										if row[j] != 0 && !math.IsNaN(row[j]) {
											cols = append(cols, j)
											vs = append(vs, row[j])
										}
									}
									ip = append(ip, len(cols))
									out := guarded(g, 1)
									if err := m.PredictCSR(ip, cols, vs, out, 0, 1); err != nil {
										c.Failf("%v", err)
									}
									if !closeAll(out[:g], want, close12) {
										c.Failf("sparse row %v: got %v want %v\n%s", row, out[:g], want, e)
									}
									c.Traces(1)
								}
								n++
								c.Trans(nf)
							}
							rec(0)
							c.States(n)
							c.Traces(n)
						})
					}
				}
			}
		}
	}
	for _, nf := range []int{5, 16, 100, 255, 256, 257, 1000, 70000} {
		for g := 1; g <= 3; g++ {
			e := &Ens{Fam: famLinear, NFeat: nf, Groups: g, Base: 0.5}
			for i := 0; i < (nf+1)*g; i++ {
				e.Weights = append(e.Weights, float32((i*7)%1021-500))
			}
			x.Case(func() string { return fmt.Sprintf("gblinear, %d features, %d groups", nf, g) }, func(c *C) {
				m := e.load(c)
				row := make([]float64, nf)
				for k := 0; k < nf; k += 1 + nf/300 {
					row[k] = 3
					row[(k*7+1)%nf] = math.NaN()
					out := make([]float64, g)
					if err := m.Predict(row, 0, out); err != nil {
						c.Failf("%v", err)
					}
					if want := e.raw(row, 0); !closeAll(out, want, same) {
						c.Failf("value at %d: got %v want %v", k, out, want)
					}
					row[k] = 0
					c.States(1)
					c.Trans(nf)
					c.Traces(1)
				}
			})
		}
	}
	// many outputs: every row alone and in batches by every call
	for _, g := range []int{1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257, 1000} {
		for _, nf := range []int{1, 2, 3, 5, 7, 8, 9, 17, 64} {
			if g*nf > 20000 && !x.Thorough {
				continue
			}
			for bi, base := range []float32{0, 0.5, -2, 0.1, 1e6} {
				load := g == 1 && bi%2 == 1
				e := &Ens{Fam: famLinear, NFeat: nf, Groups: g, Base: base, Load: load}
				if load {
					e.Objective = "binary:logistic"
				}
				for i := 0; i < (nf+1)*g; i++ {
					e.Weights = append(e.Weights, float32((i*37)%1021-500)/8)
				}
				x.Case(func() string {
					return fmt.Sprintf("gblinear, %d groups, %d features, base score %v, transformation %v", g, nf, base, load)
				}, func(c *C) {
					m := e.load(c)
					var rows [][]float64
					for k := 0; k < 35; k++ {
						r := make([]float64, nf)
						for j := range r {
							r[j] = vals[(j*3+k*(1+j%2)+k/7)%6]
							if k > nf && (j+k)%nf != 0 {
								r[j] = 0 // sparse rows
							}
						}
						rows = append(rows, r)
					}
					for _, v := range []int{viewOrig, viewRaw} {
						d := deriveView(m, v)
						no := d.NOutputGroups()
						if no != g {
							c.Failf("%d outputs, want %d", no, g)
						}
						var want []float64
						for i, r := range rows {
							w := e.expect(v, r, 0)
							want = append(want, w...)
							for _, n := range []int{-1, 0, 1, 2} {
								o := guarded(no, 1)
								if err := d.Predict(r, n, o); err != nil {
									c.Failf("%v", err)
								}
								if !closeAll(o[:no], w, close12) {
									c.Failf("row %d, %v, n=%d: got %v want %v\n%s", i, r, n, o[:no], w, e)
								}
								checkGuard(c, "Predict", o, no)
							}
							if no == 1 {
								if got := d.PredictSingle(r, 0); !close12(got, w[0]) {
									c.Failf("row %d, %v: PredictSingle gives %v, want %v\n%s", i, r, got, w[0], e)
								}
							}
							c.Trans(nf * g)
						}
						for _, nr := range []int{1, 2, 16, 17, 35} {
							for _, th := range []int{0, 1, 2, 4} {
								o := guarded(nr*no, 1)
								if err := d.PredictDense(flat(rows[:nr], 0), nr, nf, o, 0, th); err != nil {
									c.Failf("%v", err)
								}
								if !closeAll(o[:nr*no], want[:nr*no], close12) {
									c.Failf("PredictDense of %d rows, %d threads: got %v want %v\n%s", nr, th, o[:nr*no], want[:nr*no], e)
								}
								checkGuard(c, "PredictDense", o, nr*no)
								o = guarded(nr*no, 1)
								sp := e.csrOf(rows[:nr], true)
								if err := d.PredictCSR(sp.indptr, sp.cols, sp.vals, o, 0, th); err != nil {
									c.Failf("%v", err)
								}
								if !closeAll(o[:nr*no], want[:nr*no], close12) {
									c.Failf("PredictCSR of %d rows, %d threads: got %v want %v\n%s", nr, th, o[:nr*no], want[:nr*no], e)
								}
								checkGuard(c, "PredictCSR", o, nr*no)
								c.Traces(2 * nr)
							}
						}
						c.States(len(rows))
					}
				})
			}
		}
	}
}

// ---- C06 ---------------------------------------------------------------------------------------------------------

func runPrefix(x *X) {
	hugePrefix(x)
	ns := []int{0, -1, -2, -100, math.MinInt64, math.MaxInt64, math.MaxInt32, 1 << 32, 1<<32 + 1, -1 << 32, 1000}
	total := 6
	if x.Thorough {
		total = 9
	}
	for fam := 0; fam < numFamilies; fam++ {
		for _, load := range []bool{false, true} {
			if load && !canLoad(fam) {
				continue
			}
			for _, rf := range []bool{false, true} {
				if rf && fam != famLGText {
					continue
				}
				for g := 1; g <= 4; g++ {
					if !canGroups(fam, g, load) {
						continue
					}
					for st := 1; st <= total; st++ {
						if fam == famLinear && st > 1 {
							continue
						}
						for v := 0; v < 4; v++ {
							e := zooEns(fam, 3, g, st, v, load)
							e.RF = rf
							x.Case(func() string { return e.String() }, func(c *C) { prefixCase(c, e, ns) })
						}
					}
				}
			}
		}
	}
}

func prefixCase(c *C, e *Ens, ns []int) {
	m := e.load(c)
	st := e.stages()
	rows := rowPool(e, 12)
	all := append([]int{}, ns...)
	for n := -1; n <= st+2; n++ {
		all = append(all, n)
	}
	for _, n := range all {
		used := adjust(n, st)
		// the model made of the first `used` estimators
		cut := *e
		if e.Fam != famLinear {
			cut.Trees = e.Trees[:used*e.Groups]
			if len(e.Drop) > 0 {
				cut.Drop = e.Drop[:used*e.Groups]
			}
		}
		mc := cut.load(c)
		for view := viewOrig; view <= viewRaw; view++ {
			mv, mcv := deriveView(m, view), deriveView(mc, view)
			g := e.Groups
			prefixBatch(c, e, mv, view, n)
			dense := flat(rows, 1)
			sp := e.csrOf(rows, true)
			od, oc := guarded(len(rows)*g, 2), guarded(len(rows)*g, 2)
			if err := mv.PredictDense(dense, len(rows), e.NFeat+1, od, n, 1); err != nil {
				c.Failf("PredictDense n=%d: %v", n, err)
			}
			if err := mv.PredictCSR(sp.indptr, sp.cols, sp.vals, oc, n, 1); err != nil {
				c.Failf("PredictCSR n=%d: %v", n, err)
			}
			checkGuard(c, "PredictDense", od, len(rows)*g)
			checkGuard(c, "PredictCSR", oc, len(rows)*g)
			for i, r := range rows {
				want := e.expect(view, r, n)
				op, ocut := guarded(g, 1), guarded(g, 1)
				if err := mv.Predict(r, n, op); err != nil {
					c.Failf("Predict n=%d: %v", n, err)
				}
				if err := mcv.Predict(r, 0, ocut); err != nil {
					c.Failf("Predict of the cut model: %v", err)
				}
				forms := [][]float64{op[:g], ocut[:g], od[i*g : (i+1)*g], oc[i*g : (i+1)*g]}
				if g == 1 {
					forms = append(forms, []float64{mv.PredictSingle(r, n)})
				}
				for k, f := range forms {
					if !closeAll(f, want, close12) {
						c.Failf("n=%d of %d, %s view, call form %d (0 single, 1 model of the first estimators, 2 dense, 3 sparse, 4 PredictSingle), row %v: got %v want %v\n%s",
							n, st, viewName[view], k, r, f, want, e)
					}
				}
				c.States(1)
				c.Trans(used * g)
				c.Traces(len(forms))
			}
		}
	}
}

// prefixBatch predicts enough rows for several batches, also on several threads
func prefixBatch(c *C, e *Ens, mv *leaves.Ensemble, view, n int) {
	defer setProcs(4)()
	g := e.Groups
	base := rowPool(e, 7)
	var rows [][]float64
	for i := 0; i < 37; i++ {
		rows = append(rows, base[(i*i+i)%len(base)])
	}
	want := map[int][]float64{}
	for i := range rows {
		k := (i*i + i) % len(base)
		if want[k] == nil {
			want[k] = e.expect(view, rows[i], n)
		}
	}
	dense := flat(rows, 1)
	sp := e.csrOf(rows, true)
	for _, nr := range []int{17, 37} {
		for _, th := range []int{1, 2, 3} {
			od, oc := guarded(nr*g, 2), guarded(nr*g, 2)
			if err := mv.PredictDense(dense[:nr*(e.NFeat+1)], nr, e.NFeat+1, od, n, th); err != nil {
				c.Failf("PredictDense n=%d: %v", n, err)
			}
			if err := mv.PredictCSR(sp.indptr[:nr+1], sp.cols[:sp.indptr[nr]], sp.vals[:sp.indptr[nr]], oc, n, th); err != nil {
				c.Failf("PredictCSR n=%d: %v", n, err)
			}
			checkGuard(c, "PredictDense", od, nr*g)
			checkGuard(c, "PredictCSR", oc, nr*g)
			for i, r := range rows[:nr] {
				w := want[(i*i+i)%len(base)]
				for k, f := range [][]float64{od[i*g : (i+1)*g], oc[i*g : (i+1)*g]} {
					if !closeAll(f, w, close12) {
						c.Failf("n=%d, %s view, %d rows on %d threads, %s, row %d %v: got %v want %v\n%s", n, viewName[view], nr, th, []string{"dense", "sparse"}[k], i, r, f, w, e)
					}
				}
			}
			c.States(1)
			c.Traces(2)
		}
	}
}

// ---- C07 ---------------------------------------------------------------------------------------------------------

func runBatch(x *X) {
	wideBatches(x)
	hugeBatches(x)
	manyThreads(x)
	sizes := []int{1<<24 + 17}
	fams := []int{famLGText, famLinear}
	if x.Thorough {
		sizes = append(sizes, 1<<24+1, 1<<25+3)
		fams = []int{famLGText, famXGB, famLinear, famSK}
	}
	giantBatch(x, fams, sizes)
	maxRows := 66
	if x.Thorough {
		maxRows = 200
	}
	threads := []int{-1000000, -5, -1, 0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 33, 1000, math.MaxInt64, math.MinInt64}
	if !x.Thorough {
		threads = []int{-5, -1, 0, 1, 2, 3, 4, 5, 8, 16, 1000}
	}
	for fam := 0; fam < numFamilies; fam++ {
		for _, load := range []bool{false, true} {
			if load && !canLoad(fam) {
				continue
			}
			for _, g := range []int{1, 3} {
				if !canGroups(fam, g, load) {
					continue
				}
				for view := viewOrig; view <= viewLeaf; view++ {
					if view == viewLeaf && fam == famLinear {
						continue
					}
					for _, procs := range []int{1, 2, 3, 8} {
						for _, extra := range []int{0, 1, 5} {
							e := zooEns(fam, 3, g, 2, 1, load)
							x.Case(func() string {
								return fmt.Sprintf("rows 0..%d, GOMAXPROCS=%d, %d extra columns, %s view of %s", maxRows, procs, extra, viewName[view], e)
							}, func(c *C) {
								batchCase(c, e, view, procs, extra, maxRows, threads)
							})
						}
					}
				}
			}
		}
	}
}

func batchCase(c *C, e *Ens, view, procs, extra, maxRows int, threads []int) {
	defer setProcs(procs)()
	m := deriveView(e.load(c), view)
	base := rowPool(e, 23)
	var rows [][]float64
	for i := 0; i < maxRows; i++ {
		rows = append(rows, base[(i*i+i)%len(base)])
	}
	no := e.nOut(view)
	var want []float64
	for _, r := range rows {
		o := make([]float64, no)
		if err := m.Predict(r, 0, o); err != nil {
			c.Failf("%v", err)
		}
		if view != viewLeaf || e.leafExact() {
			if w := e.expect(view, r, 0); !closeAll(o, w, close12) {
				c.Failf("row %v: got %v want %v", r, o, w)
			}
		}
		want = append(want, o...)
		c.Trans(e.Groups * e.stages())
	}
	for n := 0; n <= maxRows; n++ {
		dense := flat(rows[:n], extra)
		sp := e.csrOf(rows[:n], true)
		for k := 0; k < extra && n > 0; k++ { // entries beyond the model's features
			sp.cols = append(sp.cols, e.NFeat+k*1000)
			sp.vals = append(sp.vals, 17)
			sp.indptr[n]++
		}
		d0, s0 := cloneF(dense), csr{append([]int(nil), sp.indptr...), append([]int(nil), sp.cols...), cloneF(sp.vals)}
		for _, t := range threads {
			for form := 0; form < 2; form++ {
				out := guarded(n*no, 3)
				var err error
				what := fmt.Sprintf("%d rows, %d threads", n, t)
				if form == 0 {
					what = "PredictDense " + what
					err = m.PredictDense(dense, n, e.NFeat+extra, out, 0, t)
				} else {
					what = "PredictCSR " + what
					err = m.PredictCSR(sp.indptr, sp.cols, sp.vals, out, 0, t)
				}
				if err != nil {
					c.Failf("%s: %v", what, err)
				}
				if !sameBits(out[:n*no], want[:n*no]) {
					for i := range want[:n*no] {
						if !same(out[i], want[i]) {
							c.Failf("%s: output %d (row %d): got %v, the row alone gives %v", what, i, i/no, out[i], want[i])
						}
					}
					c.Failf("%s: not bit-identical to row by row prediction", what)
				}
				checkGuard(c, what, out, n*no)
				c.States(1)
				c.Traces(1)
			}
		}
		if !sameBits(dense, d0) || fmt.Sprint(sp.indptr, sp.cols) != fmt.Sprint(s0.indptr, s0.cols) || !sameBits(sp.vals, s0.vals) {
			c.Failf("%d rows: the input matrix was modified", n)
		}
	}
}

// ---- C09 ---------------------------------------------------------------------------------------------------------

type sparseRow struct {
	cols []int
	vals []float64
}

func (e *Ens) denseOf(r sparseRow) []float64 {
	d := make([]float64, e.NFeat)
	for i := range d {
		d[i] = e.absentValue()
	}
	for i, ct := range r.cols {
		if ct < e.NFeat {
			d[ct] = r.vals[i]
		}
	}
	return d
}

// sparseRows gives every ordered selection of columns (one of them beyond the model's features) with values
func sparseRows(nfeat int, vals []float64, thorough bool) []sparseRow {
	cols := []int{}
	for i := 0; i < nfeat; i++ {
		cols = append(cols, i)
	}
	cols = append(cols, nfeat, nfeat+1000)
	var out []sparseRow
	var rec func(r sparseRow, used int)
	rec = func(r sparseRow, used int) {
		out = append(out, sparseRow{append([]int(nil), r.cols...), cloneF(r.vals)})
		if len(r.cols) == nfeat+1 {
			return
		}
		for ci, ct := range cols {
			if used>>uint(ci)&1 > 0 {
				continue
			}
			vs := vals
			if ct >= nfeat {
				vs = []float64{9}
			}
			if len(r.cols) >= 2 && !thorough {
				vs = vs[:1+len(vs)/3]
			}
			for _, v := range vs {
				rec(sparseRow{append(r.cols[:len(r.cols):len(r.cols)], ct), append(r.vals[:len(r.vals):len(r.vals)], v)}, used|1<<uint(ci))
			}
		}
	}
	rec(sparseRow{}, 0)
	return out
}

func runSparse(x *X) {
	wideBatches(x)
	hugeGaps(x)
	for fam := 0; fam < numFamilies; fam++ {
		for _, g := range []int{1, 3} {
			for v := 0; v < 3; v++ {
				for nf := 1; nf <= 3; nf++ {
					e := zooEns(fam, nf, g, 3, v, false)
					vals := []float64{1, 0, -2, math.NaN(), 33}
					if fam == famSK {
						vals = []float64{1, 0, -2, 0.5, 33}
					}
					if nf == 3 && !x.Thorough {
						vals = append(vals[:2:2], vals[3])
					}
					rows := sparseRows(nf, vals, nf < 2 || (x.Thorough && nf < 3))
					want := make([][]float64, len(rows))
					for i, r := range rows {
						want[i] = e.raw(e.denseOf(r), 0)
					}
					// all pairs, as pairs: first row by case
					step := 1
					if nf == 3 && !x.Thorough {
						step = 7
					}
					x.Case(func() string {
						return fmt.Sprintf("single sparse rows (%d), sequences of all of them; %s", len(rows), e)
					}, func(c *C) {
						m := e.load(c)
						for i := range rows {
							sparseBatch(c, e, m, rows, want, []int{i}, 1, 0)
						}
						var ids []int
						for i := range rows {
							ids = append(ids, i)
						}
						for _, th := range []int{0, 1, 2, 3, 8} {
							for _, off := range []int{0, 3} {
								sparseBatch(c, e, m, rows, want, ids, th, off)
							}
						}
						for i := range ids {
							ids[i] = len(rows) - 1 - i
						}
						sparseBatch(c, e, m, rows, want, ids, 1, 0)
						sparseBatch(c, e, m, rows, want, ids, 4, 1)
					})
					for i := 0; i < len(rows); i += step {
						x.Case(func() string { return fmt.Sprintf("sparse row %v before every other row, triples; %s", rows[i], e) }, func(c *C) {
							m := e.load(c)
							for j := range rows {
								sparseBatch(c, e, m, rows, want, []int{i, j}, 1, 0)
							}
							// row i before and after each row, in one batch (sequential and parallel)
							var ids []int
							for j := range rows {
								ids = append(ids, i, j)
							}
							sparseBatch(c, e, m, rows, want, ids, 1, 0)
							sparseBatch(c, e, m, rows, want, ids, 3, 0)
							if x.Thorough || nf == 1 {
								for j := range rows {
									for k := 0; k < len(rows); k += 1 + len(rows)/60 {
										sparseBatch(c, e, m, rows, want, []int{i, j, k}, 1, 0)
									}
								}
							}
						})
					}
				}
			}
		}
	}
}

func sparseBatch(c *C, e *Ens, m *leaves.Ensemble, rows []sparseRow, want [][]float64, ids []int, threads, offset int) {
	var cols []int
	var vals []float64
	for i := 0; i < offset; i++ {
		cols = append(cols, 0)
		vals = append(vals, 1e9)
	}
	ip := make([]int, 0, len(ids)+1)
	ip = append(ip, offset)
	for _, id := range ids {
		cols = append(cols, rows[id].cols...)
		vals = append(vals, rows[id].vals...)
		ip = append(ip, len(cols))
	}
	g := e.Groups
	out := guarded(len(ids)*g, 1)
	if err := m.PredictCSR(ip, cols, vals, out, 0, threads); err != nil {
		c.Failf("%v", err)
	}
	for i, id := range ids {
		if !closeAll(out[i*g:(i+1)*g], want[id], close12) {
			prev := "none"
			if i > 0 {
				prev = fmt.Sprint(rows[ids[i-1]])
			}
			c.Failf("sparse row %v (position %d of %d, row before: %s, %d threads): got %v want %v", rows[id], i, len(ids), prev, threads, out[i*g:(i+1)*g], want[id])
		}
	}
	checkGuard(c, "PredictCSR", out, len(ids)*g)
	c.States(len(ids))
	c.Trans(len(ids) * len(e.Trees))
	c.Traces(1)
}

func init() {
	register(&Check{ID: "C04", Level: "model_checking",
		Rule: "features 1..4 x groups 1..4 x weight vectors (distinct powers, signed, sparse, decimal) x base scores x the full product of the value alphabet per row, dense and sparse; large feature counts; 1..257 and 1000 outputs x features x base scores by every call form, file names; one state per (model,row)",
		Run:  func(x *X) { routes(x, famLinear); rewrites(x, famLinear); magnitudes(x, famLinear); runLinear(x) }})
	register(&Check{ID: "C06", Level: "model_checking",
		Rule: "families x transformation x forests x groups 1..4 x stages 1..6 (9) x four decision variants x every n in -1..stages+2 and extreme n x views x call forms; compared with the reference prefix and with the loaded model of the first n estimators; 17 and 37 rows in one call with 1 to 3 threads; one state per (model, n, view, row)",
		Run: func(x *X) {
			sweep(x, []int{famLGText, famLGJSON, famXGB, famDart, famSK}, 64, sweepPrefix)
			runPrefix(x)
		}})
	register(&Check{ID: "C07", Level: "model_checking",
		Rule: "families x transformation x groups x views x GOMAXPROCS x extra columns x every row count 0..66 (200) x thread counts x dense/sparse; bit-compared with row-by-row calls, guard cells behind the output, inputs compared; every number of threads up to 300 on as many processors; a few batches of tens of thousands of rows; one state per batch call",
		Run:  runBatch})
	register(&Check{ID: "C09", Level: "model_checking",
		Rule: "families x groups x features 1..3: every ordered selection of columns (also beyond the model's features) with values; every row alone, every ordered pair, (triples), long batches of all rows sequentially and in parallel; compared with the dense reference row; one state per row of a batch",
		Run:  runSparse})
}
