//go:build go1.23

package main

import (
	"fmt"
	"math"

	"github.com/dmitryikh/leaves/transformation"
	"github.com/dmitryikh/leaves/util"
)

// Shapes beyond 8 and 16 bit limits: numbers of leaves, sets, trees, groups, rows, columns, weights. Each of them is
// a single model; every value of its only feature (every leaf, every row) is visited.

var treeFams = []int{famLGText, famLGJSON, famXGB, famDart, famSK}

// bst is a complete tree over one feature: value i falls into the i-th leaf in order
func bst(depth int) Tree {
	t := complete(depth)
	at := 0
	var rec func(i int)
	rec = func(i int) {
		if i < 0 {
			return
		}
		rec(t.Nodes[i].L)
		t.Nodes[i].Thr = float64(at) + 0.5
		at++
		rec(t.Nodes[i].R)
	}
	rec(0)
	return t
}

// unevenTree is a search tree over values 0..n-1 of one feature whose inner nodes divide their leaves num:den, numbered
// in one of four orders
func unevenTree(n, num, den, order int) Tree {
	type piece struct {
		lo, hi int
		l, r   *piece
		id     int
	}
	var all []*piece
	var build func(lo, hi, level int) *piece
	build = func(lo, hi, level int) *piece {
		if hi-lo == 1 {
			return nil
		}
		k := 2 // a spine with left children of two leaves
		if den > 0 {
			k = (hi - lo) * num / den
		} else if num > 0 {
			k = hi - lo - 2
		}
		if k < 1 {
			k = 1
		}
		if k > hi-lo-1 {
			k = hi - lo - 1
		}
		p := &piece{lo: lo, hi: lo + k}
		p.l, p.r = build(lo, lo+k, level+1), build(lo+k, hi, level+1)
		return p
	}
	root := build(0, n, 0)
	var walk func(p *piece)
	walk = func(p *piece) {
		if p == nil {
			return
		}
		switch order {
		case 0: // parent, left, right
			all = append(all, p)
			walk(p.l)
			walk(p.r)
		case 1: // parent, right, left
			all = append(all, p)
			walk(p.r)
			walk(p.l)
		default: // children first, turned around below
			walk(p.l)
			walk(p.r)
			all = append(all, p)
		}
	}
	if order == 3 {
		q := []*piece{root}
		for len(q) > 0 {
			p := q[0]
			q = q[1:]
			if p != nil {
				all = append(all, p)
				q = append(q, p.l, p.r)
			}
		}
	} else {
		walk(root)
	}
	if order == 2 { // the root has to be the first one
		for i, j := 0, len(all)-1; i < j; i, j = i+1, j-1 {
			all[i], all[j] = all[j], all[i]
		}
	}
	for i, p := range all {
		p.id = i
	}
	t := Tree{Leaf: make([]float64, n)}
	for _, p := range all {
		nd := Node{Thr: float64(p.hi) - 0.5}
		if p.l == nil {
			nd.L = ^p.lo
		} else {
			nd.L = p.l.id
		}
		if p.r == nil {
			nd.R = ^p.hi
		} else {
			nd.R = p.r.id
		}
		t.Nodes = append(t.Nodes, nd)
	}
	return t
}

func plain(fam, nfeat, groups int, trees ...Tree) *Ens {
	e := &Ens{Fam: fam, NFeat: nfeat, Groups: groups, Trees: trees, LR: 1, Prior: make([]float64, groups)}
	for range trees {
		e.Drop = append(e.Drop, 1)
	}
	return e
}

func stump(i, f int) Tree {
	t := Tree{Nodes: []Node{{F: f, Thr: 0.5, L: ^0, R: ^1}}, Leaf: []float64{float64(i%1021 + 1), float64(i%509 + 2000)}}
	return t
}

// allLeaves predicts a row for every leaf of the tree and compares with the reference
func allLeaves(c *C, e *Ens) {
	m := e.load(c)
	row, out := []float64{0}, make([]float64, 1)
	n := len(e.Trees[0].Leaf)
	for v := 0; v < n; v++ {
		row[0] = float64(v)
		if err := m.Predict(row, 0, out); err != nil {
			c.Failf("%v", err)
		}
		if w := e.raw(row, 0); !same(out[0], w[0]) {
			c.Failf("%s tree of %d leaves, row %v: got %v want %v", famName[e.Fam], n, row, out[0], w[0])
		}
	}
	c.States(n)
	c.Trans(n * 2)
	c.Traces(n)
}

func depths(fam int, x *X) []int {
	switch {
	case fam == famLGJSON && !x.Thorough:
		return []int{9}
	case fam == famLGText || x.Thorough:
		return []int{9, 17}
	}
	return []int{9, 17}
}

// hugeTrees goes past 65536 leaves, nodes, sets, words of sets and trees
func hugeTrees(x *X, fam int) {
	for _, d := range depths(fam, x) {
		e := oneTree(fam, bst(d))
		setLeaves(&e.Trees[0], func(l int) float64 { return float64((l*7)%200003 + 1) })
		x.Case(func() string { return fmt.Sprintf("%s tree of %d leaves", famName[fam], len(e.Trees[0].Leaf)) }, func(c *C) { allLeaves(c, e) })
	}
	// uneven trees of many sizes, numbered in different orders
	for _, n := range []int{9, 17, 18, 33, 34, 65, 66, 100, 129, 140, 255, 258, 300, 513, 520, 1025, 1100, 2500, 4200, 9000} {
		for _, d := range [][2]int{{1, 3}, {2, 3}, {1, 10}, {4, 5}, {0, 0}, {1, 0}, {1, 2}} {
			if d[1] == 0 && n > 1100 && fam == famLGJSON {
				continue
			}
			for order := 0; order < 4; order++ {
				if order > 0 && (fam == famLGJSON || n > 1100 && !x.Thorough) {
					continue
				}
				n, d, order := n, d, order
				x.Case(func() string {
					return fmt.Sprintf("%s uneven tree %d:%d of %d leaves, order %d", famName[fam], d[0], d[1], n, order)
				}, func(c *C) {
					e := oneTree(fam, unevenTree(n, d[0], d[1], order))
					setLeaves(&e.Trees[0], func(l int) float64 { return float64((l*7)%200003 + 1) })
					allLeaves(c, e)
				})
			}
		}
	}
	// a very deep tree: rows that leave it at chosen depths
	if fam != famLGJSON {
		k := 70000
		t := chain(k, 1)
		for i := range t.Nodes {
			t.Nodes[i].Thr = float64(i) + 0.5
		}
		e := oneTree(fam, t)
		setLeaves(&e.Trees[0], func(l int) float64 { return float64(l + 1) })
		x.Case(func() string { return fmt.Sprintf("%s tree of depth %d", famName[fam], k) }, func(c *C) {
			m := e.load(c)
			out := make([]float64, 1)
			for _, v := range []int{0, 1, 254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 69998, 69999, 70000, 70001} {
				row := []float64{float64(v)}
				if err := m.Predict(row, 0, out); err != nil {
					c.Failf("%v", err)
				}
				if w := e.raw(row, 0); !same(out[0], w[0]) {
					c.Failf("row %v: got %v want %v", row, out[0], w[0])
				}
				c.States(1)
				c.Trans(min(v, k))
				c.Traces(1)
			}
		})
	}
	// many groups and many trees
	type gs struct{ groups, stages int }
	list := []gs{{300, 2}, {257, 1}, {1, 300}}
	if fam != famSK && fam != famLGJSON || x.Thorough {
		list = append(list, gs{1, 66000}, gs{66000, 1})
	}
	if fam == famSK {
		list = list[:3]
	}
	for _, s := range list {
		s := s
		x.Case(func() string { return fmt.Sprintf("%s, %d groups, %d stages", famName[fam], s.groups, s.stages) }, func(c *C) {
			e := plain(fam, 2, s.groups)
			for i := 0; i < s.groups*s.stages; i++ {
				e.Trees = append(e.Trees, stump(i, i%2))
				e.Drop = append(e.Drop, 1)
			}
			compareRows(c, e, e.load(c), 2, 20, true)
		})
	}
	if fam != famLGText && fam != famLGJSON {
		return
	}
	// many large sets, every category of every set
	for _, k := range []int{300, 700} {
		for _, far := range []int{40, 64, 3000} {
			k, far := k, far
			if far == 3000 && k == 700 && fam == famLGJSON && !x.Thorough {
				continue
			}
			x.Case(func() string { return fmt.Sprintf("%s, %d large sets, distance %d", famName[fam], k, far) }, func(c *C) {
				t := chain(k, 1)
				for i := range t.Nodes {
					t.Nodes[i] = Node{Cat: true, Cats: []int{2 * i, 2*i + 1 + 2*far}, L: t.Nodes[i].L, R: t.Nodes[i].R}
				}
				e := oneTree(fam, t)
				m := e.load(c)
				out := make([]float64, 1)
				for v := -1; v < 2*(k+far)+40; v++ {
					if v > 2*k+40 && v < 2*far-40 {
						continue
					}
					row := []float64{float64(v)}
					if err := m.Predict(row, 0, out); err != nil {
						c.Failf("%v", err)
					}
					w := e.raw(row, 0)
					if !same(out[0], w[0]) {
						c.Failf("category %v: got %v want %v", row, out[0], w[0])
					}
					c.States(1)
					c.Trans(1)
					c.Traces(1)
				}
			})
		}
	}
	// sets with many members
	for _, n := range []int{31, 32, 33, 63, 64, 65, 255, 256, 257, 258, 512, 513, 65535, 65536, 65537, 70000} {
		n := n
		if n > 60000 && fam == famLGJSON && n != 65537 {
			continue
		}
		for _, off := range []int{0, 5, 64} {
			off := off
			x.Case(func() string { return fmt.Sprintf("%s, a set of %d categories from %d on", famName[fam], n, off) }, func(c *C) {
				t := chain(2, 1)
				for i := range t.Nodes {
					t.Nodes[i] = Node{Cat: true, Cats: rangeInts(off+i*n, off+i*n+n-1, 1), L: t.Nodes[i].L, R: t.Nodes[i].R}
				}
				e := oneTree(fam, t)
				m := e.load(c)
				out := make([]float64, 1)
				for v := 0; v < off+2*n+70; v++ {
					row := []float64{float64(v)}
					if err := m.Predict(row, 0, out); err != nil {
						c.Failf("%v", err)
					}
					// leaves hold l*l+l+1
					want := 7.0
					if v >= off && v < off+n {
						want = 1
					} else if v >= off+n && v < off+2*n {
						want = 3
					}
					if out[0] != want {
						c.Failf("category %d: got %v want %v", v, out[0], want)
					}
				}
				c.States(off + 2*n + 70)
				c.Trans(off + 2*n + 70)
				c.Traces(off + 2*n + 70)
			})
		}
	}
}

// hugePrefix asks for numbers of estimators around 8 and 16 bit limits
func hugePrefix(x *X) {
	for _, fam := range treeFams {
		for _, st := range []int{300, 66000} {
			if st > 300 && (fam == famSK || fam == famLGJSON) && !(x.Thorough && fam == famLGJSON) {
				continue
			}
			for _, g := range []int{1, 3} {
				if st > 300 && g > 1 {
					continue
				}
				for _, rf := range []bool{false, true} {
					if rf && fam != famLGText {
						continue
					}
					fam, st, g, rf := fam, st, g, rf
					x.Case(func() string { return fmt.Sprintf("%s, %d stages, %d groups, forest %v", famName[fam], st, g, rf) }, func(c *C) {
						e := plain(fam, 2, g)
						e.RF = rf
						for i := 0; i < st*g; i++ {
							e.Trees = append(e.Trees, stump(i, i%2))
							e.Drop = append(e.Drop, 1)
						}
						m := e.load(c)
						ns := []int{-1, 0, 1, 2, 16, 17, 126, 127, 128, 129, 254, 255, 256, 257, 299, 300, 301, 511, 512, 513, 32767, 32768, 65535, 65536, 65537, 65999, 66000, 66001, math.MaxInt32, math.MinInt32, 1 << 40}
						rows := [][]float64{{0, 0}, {1, 0}, {0, 1}, {1, 1}}
						for _, n := range ns {
							od, os := guarded(4*g, 1), guarded(4*g, 1)
							sp := e.csrOf(rows, false)
							if err := m.PredictDense(flat(rows, 0), 4, 2, od, n, 1); err != nil {
								c.Failf("n=%d: %v", n, err)
							}
							if err := m.PredictCSR(sp.indptr, sp.cols, sp.vals, os, n, 1); err != nil {
								c.Failf("n=%d: %v", n, err)
							}
							for i, r := range rows {
								want := e.raw(r, n)
								out := make([]float64, g)
								if err := m.Predict(r, n, out); err != nil {
									c.Failf("n=%d: %v", n, err)
								}
								if !closeAll(out, want, close12) || !closeAll(od[i*g:(i+1)*g], want, close12) || !closeAll(os[i*g:(i+1)*g], want, close12) {
									c.Failf("n=%d of %d, row %v: Predict %v, PredictDense %v, PredictCSR %v, want %v", n, st, r, out, od[i*g:(i+1)*g], os[i*g:(i+1)*g], want)
								}
								if g == 1 && !close12(m.PredictSingle(r, n), want[0]) {
									c.Failf("n=%d of %d, row %v: PredictSingle %v, want %v", n, st, r, m.PredictSingle(r, n), want)
								}
							}
							c.States(4)
							c.Trans(4 * adjust(n, st) * g)
							c.Traces(16)
						}
					})
				}
			}
		}
	}
}

// manyThreads has every number of threads up to 300 on as many processors
func manyThreads(x *X) {
	for fam := 0; fam < numFamilies; fam++ {
		for _, view := range []int{viewOrig, viewRaw, viewLeaf} {
			if view == viewLeaf && fam == famLinear || view == viewRaw && fam != famLGText && fam != famXGB {
				continue
			}
			for _, procs := range []int{17, 64, 300} {
				g := 1
				if view == viewRaw {
					g = 3
				}
				x.Case(func() string {
					return fmt.Sprintf("%s view of %s, every number of threads, GOMAXPROCS=%d", viewName[view], famName[fam], procs)
				}, func(c *C) {
					defer setProcs(procs)()
					e := zooEns(fam, 2, g, 2, 1, false)
					m := deriveView(e.load(c), view)
					no := e.nOut(view)
					pool := rowPool(e, 13)
					n := 16*procs + 5
					var rows [][]float64
					var want []float64
					var alone [][]float64
					for _, r := range pool {
						o := make([]float64, no)
						if err := m.Predict(r, 0, o); err != nil {
							c.Failf("%v", err)
						}
						alone = append(alone, o)
					}
					for i := 0; i < n; i++ {
						rows = append(rows, pool[(i+i/97)%len(pool)])
						want = append(want, alone[(i+i/97)%len(pool)]...)
					}
					dense, sp := flat(rows, 0), e.csrOf(rows, true)
					for th := 2; th <= procs+2; th++ {
						for form := 0; form < 2; form++ {
							k := n // once enough for all threads, once too few by far
							if form == 0 && th%3 == 0 {
								k = 16*(th-1) + th%16
							}
							if k > n {
								k = n
							}
							out := guarded(k*no, 3)
							var err error
							if form == 0 {
								err = m.PredictDense(dense[:k*e.NFeat], k, e.NFeat, out, 0, th)
							} else {
								err = m.PredictCSR(sp.indptr, sp.cols, sp.vals, out, 0, th)
							}
							if err != nil {
								c.Failf("form %d, %d threads: %v", form, th, err)
							}
							if !sameBits(out[:k*no], want[:k*no]) {
								c.Failf("form %d, %d rows, %d threads: not what the rows give alone", form, k, th)
							}
							checkGuard(c, fmt.Sprintf("%d threads", th), out, k*no)
							c.States(1)
							c.Traces(1)
						}
					}
				})
			}
		}
	}
}

// hugeBatches has more than 65536 rows
func hugeBatches(x *X) {
	for fam := 0; fam < numFamilies; fam++ {
		for _, view := range []int{viewOrig, viewLeaf} {
			if view == viewLeaf && fam != famLGText {
				continue
			}
			fam, view := fam, view
			for _, n := range []int{1000, 4097, 70001} {
				n := n
				x.Case(func() string { return fmt.Sprintf("%s view of %s, %d rows", viewName[view], famName[fam], n) }, func(c *C) {
					defer setProcs(8)()
					e := zooEns(fam, 2, 1, 2, 1, false)
					m := deriveView(e.load(c), view)
					no := e.nOut(view)
					pool := rowPool(e, 13)
					rows := make([][]float64, n)
					var alone [][]float64
					for _, r := range pool {
						o := make([]float64, no)
						if err := m.Predict(r, 0, o); err != nil {
							c.Failf("%v", err)
						}
						alone = append(alone, o)
					}
					for i := range rows {
						rows[i] = pool[(i+i/97)%len(pool)]
					}
					dense, sp := flat(rows, 0), e.csrOf(rows, true)
					for _, th := range []int{1, 2, 5, 0, -1} {
						for form := 0; form < 2; form++ {
							out := guarded(n*no, 3)
							var err error
							if form == 0 {
								err = m.PredictDense(dense, n, e.NFeat, out, 0, th)
							} else {
								err = m.PredictCSR(sp.indptr, sp.cols, sp.vals, out, 0, th)
							}
							if err != nil {
								c.Failf("form %d, %d threads: %v", form, th, err)
							}
							for i := range rows {
								if w := alone[(i+i/97)%len(pool)]; !sameBits(out[i*no:(i+1)*no], w) {
									c.Failf("form %d (0 dense, 1 sparse), %d threads, row %d of %d: got %v, the row alone gives %v", form, th, i, n, out[i*no:(i+1)*no], w)
								}
							}
							checkGuard(c, "batch", out, n*no)
							c.States(1)
							c.Trans(n)
							c.Traces(n)
						}
					}
				})
			}
		}
	}
}

// giantBatch has more rows than single precision counts, one way through both batch calls
func giantBatch(x *X, fams []int, sizes []int) {
	for _, fam := range fams {
		for _, n := range sizes {
			for form := 0; form < 2; form++ {
				for _, th := range []int{1, 4} {
					fam, n, form, th := fam, n, form, th
					x.Case(func() string {
						return fmt.Sprintf("%s, %d rows in form %d (0 dense, 1 sparse), %d threads", famName[fam], n, form, th)
					}, func(c *C) {
						defer setProcs(8)()
						e := zooEns(famLinear, 1, 1, 1, 1, false)
						if fam != famLinear {
							e = plain(fam, 1, 1, stump(3, 0))
						}
						m := e.load(c)
						present := func(i int) bool { return i%7 == 0 || i%65537 == 65535 }
						abs := e.absentValue()
						want := [2]float64{e.raw([]float64{abs}, 0)[0], e.raw([]float64{9}, 0)[0]}
						out := guarded(n, 3)
						var err error
						c.Alive()
						if form == 0 {
							vals := make([]float64, n)
							for i := range vals {
								vals[i] = abs
								if present(i) {
									vals[i] = 9
								}
							}
							err = m.PredictDense(vals, n, 1, out, 0, th)
						} else {
							ip := make([]int, n+1)
							k := 0
							for i := 0; i < n; i++ {
								if present(i) {
									k++
								}
								ip[i+1] = k
							}
							vals := make([]float64, k)
							for i := range vals {
								vals[i] = 9
							}
							err = m.PredictCSR(ip, make([]int, k), vals, out, 0, th)
						}
						c.Alive()
						if err != nil {
							c.Failf("%v", err)
						}
						for i := 0; i < n; i++ {
							w := want[0]
							if present(i) {
								w = want[1]
							}
							if !same(out[i], w) {
								c.Failf("row %d of %d: got %v, want %v", i, n, out[i], w)
							}
						}
						checkGuard(c, "batch", out, n)
						c.States(1)
						c.Trans(n)
						c.Traces(n)
					})
				}
			}
		}
	}
}

// hugeGaps has long sparse batches where columns occur in few rows, far from each other
func hugeGaps(x *X) {
	for fam := 0; fam < numFamilies; fam++ {
		for pat := 0; pat < 10; pat++ {
			for _, th := range []int{1, 3} {
				fam, pat, th := fam, pat, th
				x.Case(func() string {
					return fmt.Sprintf("%s, 140000 sparse rows, pattern %d of the columns, %d threads", famName[fam], pat, th)
				}, func(c *C) {
					defer setProcs(8)()
					const n = 140000
					e := zooEns(famLinear, 2, 1, 1, 1, false)
					if fam != famLinear {
						e = plain(fam, 2, 1, stump(3, 0), stump(5, 1))
					}
					m := e.load(c)
					has := func(i, f int) bool {
						switch pat {
						case 0, 1, 2, 3:
							return i == []int{0, 1, 255, 300}[pat]+f
						case 4:
							return i < 40 && i%2 == f
						case 5:
							return i >= 256*f && i < 256*f+256
						case 6:
							return i%1000 == 7*f
						case 7:
							return i%65537 == f
						case 8:
							return (i/257)%2 == f
						}
						return f == 1 || i%4096 == 0
					}
					var want [4]float64
					for k := range want {
						r := []float64{e.absentValue(), e.absentValue()}
						for f := range r {
							if k>>uint(f)&1 == 1 {
								r[f] = 9
							}
						}
						want[k] = e.raw(r, 0)[0]
					}
					ip := []int{0}
					var cols []int
					var vals []float64
					kinds := make([]byte, n)
					for i := 0; i < n; i++ {
						for f := 0; f < 2; f++ {
							if has(i, f) {
								cols, vals = append(cols, f), append(vals, 9)
								kinds[i] |= 1 << uint(f)
							}
						}
						ip = append(ip, len(cols))
					}
					out := guarded(n, 3)
					if err := m.PredictCSR(ip, cols, vals, out, 0, th); err != nil {
						c.Failf("%v", err)
					}
					for i := range kinds {
						if !close12(out[i], want[kinds[i]]) {
							c.Failf("row %d of %d, columns %b: got %v, want %v", i, n, kinds[i], out[i], want[kinds[i]])
						}
					}
					checkGuard(c, "batch", out, n)
					c.States(1)
					c.Trans(n)
					c.Traces(n)
				})
			}
		}
	}
}

// hugeLeaves reports every leaf of trees with more than 256 and 65536 leaves
func hugeLeaves(x *X) {
	for _, fam := range treeFams {
		for _, d := range depths(fam, x) {
			fam, d := fam, d
			x.Case(func() string { return fmt.Sprintf("%s, leaves of a tree of depth %d", famName[fam], d) }, func(c *C) {
				e := plain(fam, 1, 1, stump(0, 0), bst(d), stump(1, 0))
				m := e.load(c)
				k := len(e.Trees[1].Leaf)
				if nl := m.NLeaves(); len(nl) != 3 || nl[0] != 2 || nl[1] != k || nl[2] != 2 {
					c.Failf("NLeaves() = %v", nl)
				}
				v := m.EnsembleWithLeafPredictions()
				out := guarded(3, 1)
				seen := make([]bool, k)
				for i := 0; i < k; i++ {
					row := []float64{float64(i)}
					if err := v.Predict(row, 0, out); err != nil {
						c.Failf("%v", err)
					}
					l := int(out[1])
					if float64(l) != out[1] || l < 0 || l >= k || seen[l] {
						c.Failf("row %v: leaf %v of %d is no leaf or was reported for another row", row, out[1], k)
					}
					if w := e.leafs(row); e.leafExact() && w[1] != l {
						c.Failf("row %v: leaf %d, want %d", row, l, w[1])
					}
					seen[l] = true
				}
				checkGuard(c, "leaves", out, 3)
				c.States(k)
				c.Trans(3 * k)
				c.Traces(k)
			})
		}
		for _, s := range [][2]int{{300, 2}, {2, 300}} {
			fam, s := fam, s
			if fam == famSK && s[0] == 2 {
				s[0] = 3
			}
			x.Case(func() string { return fmt.Sprintf("%s, leaves of %d groups, %d stages", famName[fam], s[0], s[1]) }, func(c *C) {
				e := plain(fam, 3, s[0])
				for i := 0; i < s[0]*s[1]; i++ {
					t := stump(i, 0)
					if i%3 == 1 {
						t = chain(1+i%5, 1)
						for j := range t.Nodes {
							t.Nodes[j].Thr = float64(j) + 0.5
							t.Nodes[j].F = 1
						}
					} else if i%7 == 2 {
						t = Tree{Leaf: []float64{1}}
					}
					e.Trees = append(e.Trees, t)
					e.Drop = append(e.Drop, 1)
				}
				leafCase(c, e, e.load(c), 2, 100)
			})
		}
	}
}

// hugeMeta are models beyond 8 and 16 bit limits
func hugeMeta(x *X) {
	for fam := 0; fam < numFamilies; fam++ {
		for _, s := range [][3]int{{300, 1, 2}, {70000, 1, 1}, {2, 300, 1}, {2, 1, 300}} { // features, groups, stages
			fam, s := fam, s
			if fam == famLinear && s[2] > 1 {
				continue
			}
			x.Case(func() string {
				return fmt.Sprintf("%s, %d features, %d groups, %d stages", famName[fam], s[0], s[1], s[2])
			}, func(c *C) {
				e := zooEns(fam, s[0], s[1], s[2], 1, false)
				metaCase(c, e, e.load(c), "model")
			})
		}
	}
}

// hugeSoftmax has hundreds and thousands of classes
func hugeSoftmax(x *X) {
	for _, k := range []int{6, 8, 10, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 70000} {
		k := k
		x.Case(func() string { return fmt.Sprintf("softmax of %d classes", k) }, func(c *C) {
			for _, scale := range []float64{0, 1e-3, 1, 30, 1000, 1e300} {
				for _, at := range []int{0, 1, k / 2, k - 2, k - 1} {
					raw := make([]float64, k)
					for i := range raw {
						raw[i] = scale * float64((i*37)%101-50) / 50
					}
					raw[at] = scale * 1.1
					keep := cloneF(raw)
					for start := 0; start < 2; start++ {
						out, out2 := guarded(k+3, 0), guarded(k+3, 0)
						util.SoftmaxFloat64Slice(raw, out, start)
						checkSoftmax(c, "util.SoftmaxFloat64Slice", keep, out[start:start+k])
						if err := (&transformation.TransformSoftmax{NClasses: k}).Transform(raw, out2, start); err != nil {
							c.Failf("%v", err)
						}
						checkSoftmax(c, "TransformSoftmax", keep, out2[start:start+k])
						for _, o := range [][]float64{out, out2} {
							for i := start; i < start+k; i++ {
								o[i] = guard
							}
							checkGuard(c, "softmax", o, 0)
						}
					}
					if !sameBits(raw, keep) {
						c.Failf("the raw scores were changed")
					}
					c.States(1)
					c.Trans(2)
					c.Traces(2)
				}
			}
		})
	}
}

// hugeSets are bit sets of hundreds of words
func hugeSets(x *X) {
	for _, words := range []int{5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 255, 256, 257, 2047, 2048, 2049, 3000} {
		words := words
		x.Case(func() string { return fmt.Sprintf("bit sets of %d words", words) }, func(c *C) {
			n := 32 * words
			check := func(set []uint32, count, first int) {
				if got := util.NumberOfSetBits(set); got != uint32(count) {
					c.Failf("NumberOfSetBits of %d words with %d bits = %d", words, count, got)
				}
				got, err := util.FirstNonZeroBit(set)
				if (err != nil) != (count == 0) || count > 0 && got != uint32(first) {
					c.Failf("FirstNonZeroBit of %d words, first bit %d: %d, %v", words, first, got, err)
				}
				c.States(1)
				c.Trans(2)
				c.Traces(2)
			}
			set := make([]uint32, words)
			check(set, 0, 0)
			// one bit at every position, then all bits up to it, all bits from it on
			step := 1
			if words > 300 {
				step = 31
			}
			for i := 0; i < n; i += step {
				set[i/32] = 1 << uint(i%32)
				check(set, 1, i)
				set[n/32-1] |= 1 << 31
				k := 2
				if i == n-1 {
					k = 1
				}
				check(set, k, i)
				set[i/32], set[n/32-1] = 0, 0
			}
			for i := 0; i < n; i++ {
				set[i/32] |= 1 << uint(i%32)
				if i%step == 0 || i > n-40 || i%256 < 2 {
					check(set, i+1, 0)
				}
			}
			for i := 0; i < n-1; i++ {
				set[i/32] &^= 1 << uint(i%32)
				if i%step == 0 || i > n-40 || (n-i)%256 < 3 {
					check(set, n-i-1, i+1)
				}
			}
			// the same sets from lists
			for _, stride := range []int{1, 2, 31, 32, 33} {
				var l []int
				for i := n - 1; i >= 0; i -= stride {
					l = append(l, i)
				}
				got := util.ConstructBitset(l)
				if len(got) != words || util.NumberOfSetBits(got) != uint32(len(l)) {
					c.Failf("ConstructBitset of %d values up to %d: %d words", len(l), n-1, len(got))
				}
				for _, v := range l {
					if got[v/32]>>uint(v%32)&1 == 0 {
						c.Failf("ConstructBitset of %d values up to %d: no %d", len(l), n-1, v)
					}
				}
				c.States(1)
			}
		})
	}
}

// inputsUntouched: no prediction call changes its arguments, whatever the values are
func inputsUntouched(x *X) {
	special := []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1), 1e-40, -1e-40, 5e-324, -0.5, 1.5, 3, 1e300, 4294967301}
	for fam := 0; fam < numFamilies; fam++ {
		for v := 0; v < 6; v++ {
			for _, load := range []bool{false, true} {
				if load && (!canLoad(fam) || v > 2) {
					continue
				}
				fam, v, load := fam, v, load
				x.Case(func() string { return fmt.Sprintf("inputs of %s, model %d, transformed %v", famName[fam], v, load) }, func(c *C) {
					defer setProcs(4)()
					e := zooEns(fam, 2, 1, 3, v, load)
					m := e.load(c)
					var rows [][]float64
					for _, a := range special {
						for _, b := range special {
							rows = append(rows, []float64{a, b})
						}
					}
					for view := viewOrig; view <= viewLeaf; view++ {
						if view == viewLeaf && fam == famLinear {
							continue
						}
						d := deriveView(m, view)
						no := e.nOut(view)
						for _, r := range rows {
							in, out := cloneF(r), make([]float64, no)
							if err := d.Predict(in, 0, out); err != nil {
								c.Failf("%v", err)
							}
							if !sameBits(in, r) {
								c.Failf("Predict changed the row %v to %v", r, in)
							}
							d.PredictSingle(in, 0)
							if !sameBits(in, r) {
								c.Failf("PredictSingle changed the row %v to %v", r, in)
							}
							c.States(1)
							c.Trans(2)
							c.Traces(2)
						}
						for _, th := range []int{1, 3} {
							dense, sp := flat(rows, 1), e.csrOf(rows, false)
							d0, s0 := cloneF(dense), e.csrOf(rows, false)
							out := make([]float64, no*len(rows))
							if err := d.PredictDense(dense, len(rows), 3, out, 0, th); err != nil {
								c.Failf("%v", err)
							}
							if err := d.PredictCSR(sp.indptr, sp.cols, sp.vals, out, 0, th); err != nil {
								c.Failf("%v", err)
							}
							if !sameBits(dense, d0) || !sameBits(sp.vals, s0.vals) || fmt.Sprint(sp.cols, sp.indptr) != fmt.Sprint(s0.cols, s0.indptr) {
								c.Failf("the matrix was changed, %d threads", th)
							}
							c.Trans(2)
						}
					}
				})
			}
		}
	}
}
