//go:build go1.23

package main

import (
	"fmt"
	"math"

	"github.com/dmitryikh/leaves"
)

// ---- C13 ---------------------------------------------------------------------------------------------------------

// argCase holds a model, its views and the expected results of a fresh prediction per row
type argCase struct {
	c     *C
	e     *Ens
	v     *leaves.Ensemble
	view  int
	no    int
	rows  [][]float64
	want  [][]float64
	valid bool // leaf predictions of gblinear are always refused
	calls int
	oks   int
}

func (a *argCase) wantRow(row []float64) []float64 {
	o := make([]float64, a.no)
	if a.valid {
		if err := a.v.Predict(row, 0, o); err != nil {
			a.c.Failf("%v", err)
		}
	}
	return o
}

// verify checks the outcome of a call; ok tells whether the arguments are usable
func (a *argCase) verify(what func() string, err error, ok bool, either bool, out []float64, want []float64, in, inBefore []float64) {
	a.calls++
	if !sameBits(in, inBefore) {
		a.c.Failf("%s: the input was changed", what())
	}
	if err == nil && !ok && !either {
		a.c.Failf("%s: unusable arguments are accepted", what())
	}
	if err != nil && ok && !either {
		a.c.Failf("%s: usable arguments are refused: %v", what(), err)
	}
	if err != nil || !ok {
		checkGuard(a.c, what(), out, 0)
		return
	}
	a.oks++
	if len(want) > len(out) {
		a.c.Failf("%s: accepted", what())
	}
	if !closeAll(out[:len(want)], want, close12) {
		a.c.Failf("%s: got %v, want %v", what(), out[:len(want)], want)
	}
	checkGuard(a.c, what(), out, len(want))
}

func (a *argCase) predict() {
	e := a.e
	for _, row := range a.rows {
		full := append(cloneF(row), 5, math.NaN(), -7)
		for k := 0; k <= e.NFeat+2; k++ {
			for j := 0; j <= a.no+3; j++ {
				for _, n := range []int{0, 1, -3, e.stages(), e.stages() + 5} {
					buf := guarded(a.no+8, 0)
					in := full[:k]
					before := cloneF(in)
					out := buf[:j]
					err := a.v.Predict(in, n, out)
					ok := a.valid && k >= e.NFeat && j >= a.no && !(a.view == viewLeaf && adjust(n, e.stages()) < e.stages())
					var want []float64
					if ok {
						want = a.expectN(row, n)
					}
					a.verify(func() string { return fmt.Sprintf("Predict(row of %d, n=%d, out of %d)", k, n, j) }, err, ok, false, buf, want, in, before)
				}
			}
			for _, n := range []int{0, 1, -3, e.stages() + 5} {
				in := full[:k]
				before := cloneF(in)
				got := a.v.PredictSingle(in, n)
				a.calls++
				want := 0.0
				if a.valid && k >= e.NFeat && a.no == 1 {
					want = a.expectN(row, n)[0]
				}
				if !close12(got, want) {
					a.c.Failf("PredictSingle(row of %d, n=%d) of a model with %d outputs = %v, want %v", k, n, a.no, got, want)
				}
				if !sameBits(in, before) {
					a.c.Failf("PredictSingle changed its input")
				}
			}
		}
	}
}

// expectN is the expected output for the first n estimators
func (a *argCase) expectN(row []float64, n int) []float64 {
	if a.view == viewLeaf {
		return a.wantRow(row)
	}
	return a.e.expect(a.view, row, n)
}

func (a *argCase) dense(maxRows int, ths []int) {
	e := a.e
	for nrows := 0; nrows <= maxRows; nrows++ {
		if nrows > 3 && nrows != 16 && nrows != 17 && nrows != 33 {
			continue
		}
		for ncols := 0; ncols <= e.NFeat+2; ncols++ {
			var vals, want []float64
			for i := 0; i < nrows; i++ {
				r := a.rows[i%len(a.rows)]
				vals = append(vals, append(cloneF(r), 1e9, math.NaN())[:ncols]...)
				want = append(want, a.want[i%len(a.rows)]...)
			}
			lens := map[int]bool{}
			for d := -2; d <= 2; d++ {
				lens[nrows*ncols+d] = true
				lens[(nrows-1)*ncols+d] = true
				lens[nrows*e.NFeat+d] = true
				lens[d] = true
			}
			outs := map[int]bool{}
			for d := -2; d <= 2; d++ {
				outs[nrows*a.no+d] = true
				outs[(nrows-1)*a.no+d] = true
				outs[nrows*e.Groups+d] = true
				outs[nrows*e.stages()+d] = true
				outs[nrows+d] = true
			}
			for vl := range lens {
				if vl < 0 {
					continue
				}
				in := append(cloneF(vals), 3, 4, 5, 6, 7, 8, 9)
				for len(in) < vl {
					in = append(in, 1)
				}
				in = in[:vl]
				for ol := range outs {
					if ol < 0 {
						continue
					}
					for _, th := range ths {
						if nrows <= 16 && th != ths[0] {
							continue
						}
						before := cloneF(in)
						buf := guarded(ol, 0)
						err := a.v.PredictDense(in, nrows, ncols, buf, 0, th)
						ok := a.valid && ncols >= e.NFeat && vl >= nrows*ncols && ol >= nrows*a.no
						a.verify(func() string {
							return fmt.Sprintf("PredictDense(%d vals, %d rows, %d cols, out of %d, %d threads)", vl, nrows, ncols, ol, th)
						}, err, ok, ok && nrows == 0 || nrows == 0 && ncols == 0, buf, want, in, before)
					}
				}
			}
		}
	}
	// shapes that are out of any range
	huge := []int{-1, -2, -16, -17, -1 << 31, -1 << 32, math.MinInt64, math.MaxInt64, math.MaxInt64 - 1, 1 << 62, 1 << 61, 1 << 60, 1 << 32, 1<<63 - 16, 1 << 40}
	for g := 1; g <= 8; g++ {
		huge = append(huge, math.MaxInt64/g, math.MaxInt64/g+1, math.MinInt64/g, 1<<62/g+1)
	}
	small := []int{0, 1, e.NFeat - 1, e.NFeat, e.NFeat + 1, 2, 16, 17}
	var pairs [][2]int
	for _, h := range huge {
		for _, s := range small {
			pairs = append(pairs, [2]int{h, s}, [2]int{s, h})
		}
		for _, h2 := range huge {
			pairs = append(pairs, [2]int{h, h2})
		}
	}
	in := append(cloneF(a.rows[0]), 1, 2, 3, 4, 5, 6, 7, 8)
	for _, p := range pairs {
		for _, th := range ths {
			before := cloneF(in)
			out := guarded(a.no, 3)
			err := a.v.PredictDense(in, p[0], p[1], out, 0, th)
			a.calls++
			// no rows: nothing to do; otherwise refused
			if err == nil && p[0] > 0 {
				a.c.Failf("PredictDense with %d rows and %d columns is accepted for %d values", p[0], p[1], len(in))
			}
			checkGuard(a.c, fmt.Sprintf("PredictDense with %d rows and %d columns", p[0], p[1]), out, 0)
			if !sameBits(in, before) {
				a.c.Failf("PredictDense changed its input")
			}
		}
	}
	// nil slices
	if a.v.PredictDense(nil, 1, e.NFeat, guarded(a.no, 0), 0, 1) == nil || a.v.PredictDense(in, 1, e.NFeat, nil, 0, 1) == nil ||
		a.v.Predict(nil, 0, guarded(a.no, 0)) == nil || a.v.Predict(in, 0, nil) == nil {
		a.c.Failf("nil slices are accepted")
	}
	if a.v.PredictSingle(nil, 0) != 0 {
		a.c.Failf("PredictSingle(nil) is not 0")
	}
}

func (a *argCase) sparse(ths []int) {
	e := a.e
	// every sequence of row bounds over an alphabet, with every length of cols and vals, and of the output
	al := []int{0, 1, 2, 3, -1, 4, math.MinInt64, math.MaxInt64}
	colsFull := []int{0, e.NFeat - 1, e.NFeat + 1}
	valsFull := []float64{a.rows[0][0], a.rows[1%len(a.rows)][e.NFeat-1], 1e9}
	abs := e.absentValue()
	one := func(indptr []int, cl, vl int, badCol int, th int) {
		cols := append([]int(nil), colsFull[:cl]...)
		if badCol >= 0 && badCol < cl {
			cols[badCol] = -1
		}
		vals := cloneF(valsFull[:vl])
		nrows := len(indptr) - 1
		if nrows < 0 {
			nrows = 0
		}
		ok := a.valid
		var want []float64
		either := false
		for i := 0; i < nrows; i++ {
			s, t := indptr[i], indptr[i+1]
			if s < 0 || t < s || t > cl || t > vl {
				ok = false
				break
			}
			row := make([]float64, e.NFeat)
			for j := range row {
				row[j] = abs
			}
			for j := s; j < t; j++ {
				if cols[j] < 0 {
					ok = false
				} else if cols[j] < e.NFeat {
					row[cols[j]] = vals[j]
				}
			}
			if ok {
				want = append(want, a.wantRow(row)...)
			}
		}
		if nrows == 0 {
			either = true
			want = nil
		}
		for _, d := range []int{-1, 0, 1, 3} {
			ol := nrows*a.no + d
			if ol < 0 {
				continue
			}
			buf := guarded(ol, 0)
			ip := append([]int(nil), indptr...)
			cb := append([]int(nil), cols...)
			before := cloneF(vals)
			err := a.v.PredictCSR(indptr, cols, vals, buf, 0, th)
			a.verify(func() string {
				return fmt.Sprintf("PredictCSR(indptr %v, cols %v, %d vals, out of %d, %d threads)", indptr, cols, vl, ol, th)
			}, err, ok && d >= 0, either, buf, want, vals, before)
			if fmt.Sprint(ip) != fmt.Sprint(indptr) || fmt.Sprint(cb) != fmt.Sprint(cols) {
				a.c.Failf("PredictCSR changed its input")
			}
		}
	}
	var seq []int
	var rec func(n int)
	rec = func(n int) {
		if len(seq) == n {
			for cl := 0; cl <= 3; cl++ {
				for vl := 0; vl <= 3; vl++ {
					if n == 4 && cl != 3 && vl != 3 {
						continue
					}
					one(seq, cl, vl, -1, ths[0])
					if n == 2 || n == 3 {
						for b := 0; b < cl; b++ {
							one(seq, cl, vl, b, ths[0])
						}
					}
				}
			}
			return
		}
		k := len(al)
		if n == 4 {
			k = 5
		}
		for _, v := range al[:k] {
			seq = append(seq, v)
			rec(n)
			seq = seq[:len(seq)-1]
		}
	}
	for n := 0; n <= 4; n++ {
		rec(n)
	}
	// many rows: a bad row at each position, found before anything is written, in every batch
	for _, nrows := range []int{16, 17, 33} {
		for bad := -1; bad < nrows; bad++ {
			for kind := 0; kind < 3; kind++ {
				if bad < 0 && kind > 0 {
					continue
				}
				for _, th := range ths {
					ip := make([]int, nrows+1)
					cols := make([]int, nrows)
					vals := make([]float64, nrows)
					var want []float64
					for i := 0; i < nrows; i++ {
						cols[i] = i % (e.NFeat + 1)
						vals[i] = a.rows[i%len(a.rows)][i%e.NFeat]
						ip[i+1] = i + 1
						row := make([]float64, e.NFeat)
						for j := range row {
							row[j] = abs
						}
						if cols[i] < e.NFeat {
							row[cols[i]] = vals[i]
						}
						if bad < 0 {
							want = append(want, a.wantRow(row)...)
						}
					}
					if bad >= 0 {
						switch kind {
						case 0:
							cols[bad] = -1
						case 1:
							ip[bad+1] = nrows + 1
						case 2:
							ip[bad+1] = ip[bad] - 1
						}
					}
					buf := guarded(nrows*a.no, 2)
					before := cloneF(vals)
					err := a.v.PredictCSR(ip, cols, vals, buf, 0, th)
					a.verify(func() string {
						return fmt.Sprintf("PredictCSR of %d rows, row %d bad (%d), %d threads", nrows, bad, kind, th)
					},
						err, a.valid && bad < 0, false, buf, want, vals, before)
				}
			}
		}
	}
}

func runArgs(x *X) {
	inputsUntouched(x)
	for fam := 0; fam < numFamilies; fam++ {
		for _, load := range []bool{false, true} {
			if load && !canLoad(fam) {
				continue
			}
			for _, g := range []int{1, 2, 3} {
				if !canGroups(fam, g, load) {
					continue
				}
				for nf := 1; nf <= 3; nf++ {
					for st := 1; st <= 2; st++ {
						if fam == famLinear && st > 1 {
							continue
						}
						e := zooEns(fam, nf, g, st, nf, load)
						for view := viewOrig; view <= viewLeaf; view++ {
							for part := 0; part < 3; part++ {
								x.Case(func() string {
									return fmt.Sprintf("%s of the %s view, %s", []string{"Predict and PredictSingle", "PredictDense", "PredictCSR"}[part], viewName[view], e)
								}, func(c *C) {
									m := e.load(c)
									a := &argCase{c: c, e: e, v: deriveView(m, view), view: view, no: e.nOut(view), rows: rowPool(e, 3)}
									a.valid = !(view == viewLeaf && fam == famLinear)
									for _, r := range a.rows {
										if a.valid {
											a.want = append(a.want, a.wantRow(r))
											if view != viewLeaf && !closeAll(a.want[len(a.want)-1], e.expect(view, r, 0), close12) {
												c.Failf("row %v: got %v, want %v", r, a.want[len(a.want)-1], e.expect(view, r, 0))
											}
										} else {
											a.want = append(a.want, make([]float64, a.no))
										}
									}
									ths := []int{1, 3}
									switch part {
									case 0:
										a.predict()
									case 1:
										a.dense(33, ths)
									case 2:
										a.sparse(ths)
									}
									c.States(a.calls)
									c.Trans(a.calls)
									c.Traces(a.oks)
									c.Extra("refused", a.calls-a.oks)
								})
							}
						}
					}
				}
			}
		}
	}
}

func init() {
	register(&Check{ID: "C13", Level: "model_checking", Run: runArgs,
		Rule: "states: argument tuples (lengths of rows, values, outputs, row bounds, shapes incl. overflowing ones); transitions: calls; traces: accepted calls compared with the reference"})
}
