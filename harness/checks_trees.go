//go:build go1.23

package main

import (
	"fmt"
	"math"

	"github.com/dmitryikh/leaves"
)

// compareRows checks raw predictions of the loaded model for all rows of the row space
func compareRows(c *C, e *Ens, m *leaves.Ensemble, size, limit int, exact bool) {
	out := make([]float64, e.Groups)
	eq := close12
	if exact {
		eq = same
	}
	steps := 0
	nrows := 0
	eachRow(e.Fam, e.Trees, e.NFeat, size, limit, 0.75, func(row []float64) {
		for i := range out {
			out[i] = -12345.5
		}
		if err := m.Predict(row, 0, out); err != nil {
			c.Failf("Predict(%v): %v\n%s", row, err, e)
		}
		want := e.raw(row, 0)
		if !closeAll(out, want, eq) {
			c.Failf("row %v: got %v, want %v\n%s", row, out, want, e)
		}
		nrows++
		for i := range e.Trees {
			_, s := e.Trees[i].walk(e.Fam, row)
			steps += s
		}
	})
	c.States(nrows)
	c.Trans(steps)
	c.Traces(nrows)
}

// oneTree is the model of a single tree with leaf values that identify the leaf
func oneTree(fam int, t Tree) *Ens {
	setLeaves(&t, func(l int) float64 { return float64(l*l + l + 1) })
	e := &Ens{Fam: fam, NFeat: maxFeature([]Tree{t}) + 1, Groups: 1, Trees: []Tree{t}, LR: 1, Prior: []float64{0}, Drop: []float32{1}}
	if e.NFeat == 0 {
		e.NFeat = 1
	}
	return e
}

// runLG enumerates LightGBM trees
func runLG(x *X, fam int) {
	single := func(t Tree, size, limit int) {
		e := oneTree(fam, t)
		x.Case(func() string { return e.String() }, func(c *C) {
			compareRows(c, e, e.load(c), size, limit, true)
		})
	}
	json := fam == famLGJSON
	// constants
	for _, v := range []float64{0, 1, -1, 0.1, 1e-300, -1e300, 5e-324, 1.0 / 3, math.MaxFloat64, math.Pi} {
		v := v
		for g := 1; g <= 3; g++ {
			e := &Ens{Fam: fam, NFeat: 2, Groups: g}
			for i := 0; i < g; i++ {
				e.Trees = append(e.Trees, Tree{Leaf: []float64{v / float64(i+1)}})
			}
			x.Case(func() string { return e.String() }, func(c *C) { compareRows(c, e, e.load(c), 0, 100, true) })
		}
	}
	// one split
	for _, h := range append(histories(1), renumber(histories(1)[0], []int{}, []int{1, 0})) {
		for _, d := range lgPaletteFull(json) {
			for _, f := range []int{0, 3} {
				single(dress(h, []Node{d}, []int{f}), 0, 1<<20)
			}
		}
	}
	// two splits
	mid := lgPaletteMid()
	lim := 4000
	for _, h := range histories(2) {
		for _, f := range featurePatterns(2) {
			for _, d0 := range mid {
				for _, d1 := range mid {
					single(dress(h, []Node{d0, d1}, f), 0, lim)
				}
			}
		}
	}
	// three splits
	small := lgPaletteSmall()
	pal3 := small
	if x.Thorough && !json {
		pal3 = mid
	}
	fps := featurePatterns(3)
	for _, h := range histories(3) {
		for _, f := range fps {
			for _, d0 := range pal3 {
				for _, d1 := range pal3 {
					for _, d2 := range pal3 {
						single(dress(h, []Node{d0, d1, d2}, f), 1, 600)
					}
				}
			}
		}
	}
	// four splits: decisions of every kind on every node
	var pal4 []Node
	for _, i := range []int{0, 1, 3, 5, 8, 10} {
		pal4 = append(pal4, small[i])
	}
	fp4 := [][]int{{0, 1, 2, 3}, {0, 0, 0, 0}, {0, 1, 0, 1}, {0, 0, 1, 1}}
	if !x.Thorough {
		fp4 = fp4[:2]
		pal4 = pal4[1:5]
	}
	for _, h := range histories(4) {
		for _, f := range fp4 {
			for _, d0 := range pal4 {
				for _, d1 := range pal4 {
					for _, d2 := range pal4 {
						for _, d3 := range pal4 {
							single(dress(h, []Node{d0, d1, d2, d3}, f), 2, 400)
						}
					}
				}
			}
		}
	}
	// all numberings of nodes and leaves
	kmax := 4
	if x.Thorough {
		kmax = 5
	}
	for k := 2; k <= kmax; k++ {
		for si, s := range catalan(k) {
			for _, np := range permutations(k - 1) {
				for li, lp := range permutations(k + 1) {
					var d []Node
					var f []int
					for i := 0; i < k; i++ {
						d = append(d, small[(si*5+li*7+i*4)%len(small)])
						f = append(f, (i*(1+li%2))%k)
					}
					single(renumber(dress(s, d, f), np, lp), 1, 500)
				}
			}
		}
	}
	// four, five (six) splits: every history, decisions cycled through the palette
	kmax = 6
	if x.Thorough {
		kmax = 7
	}
	for k := 4; k <= kmax; k++ {
		for hi, h := range histories(k) {
			for off := 0; off < len(small); off++ {
				if k >= 6 && off%3 != hi%3 {
					continue // one offset in three per history
				}
				for _, stride := range []int{1, 5} {
					for _, fm := range []int{1, 2, k} {
						var d []Node
						var f []int
						for i := 0; i < k; i++ {
							d = append(d, small[(off+i*stride)%len(small)])
							f = append(f, i%fm)
						}
						single(dress(h, d, f), 2, 300)
					}
				}
			}
		}
	}
	manyCats(x, fam)
	runLarge(x, fam, small)
	// ensembles: groups x stages, leaves as digits of a sum
	for g := 1; g <= 5; g++ {
		for st := 1; st <= 4; st++ {
			for off := 0; off < len(small); off++ {
				e := &Ens{Fam: fam, NFeat: 3, Groups: g}
				h2 := append(histories(2), histories(1)...)
				h2 = append(h2, Tree{Leaf: []float64{0}})
				for i := 0; i < st*g; i++ {
					h := h2[(i+off)%len(h2)]
					d := []Node{small[(off+i)%len(small)], small[(off+3*i+1)%len(small)]}
					t := dress(h, d, []int{i % 3, (i + 1) % 3})
					w := math.Pow(8, float64(i/g))
					setLeaves(&t, func(l int) float64 { return w * float64(l+1+i%g) })
					e.Trees = append(e.Trees, t)
				}
				x.Case(func() string { return e.String() }, func(c *C) { compareRows(c, e, e.load(c), 2, 1000, true) })
			}
		}
	}
	// real-looking leaf values: sums are compared with a tolerance
	vals := []float64{0.1, -1.0 / 3, 1e-17, 123456.789, -0.06891, math.Pi, 2e10}
	for off := 0; off < len(vals); off++ {
		e := &Ens{Fam: fam, NFeat: 2, Groups: 1}
		for i := 0; i < 10; i++ {
			t := dress(histories(2)[i%2], []Node{small[(off+i)%len(small)], small[(off+2*i)%len(small)]}, []int{0, 1})
			setLeaves(&t, func(l int) float64 { return vals[(off+l+i)%len(vals)] })
			e.Trees = append(e.Trees, t)
		}
		x.Case(func() string { return e.String() }, func(c *C) { compareRows(c, e, e.load(c), 1, 2000, false) })
	}
}

// sweep is a tree plus the rows that reach each of its leaves by design (large trees)
func runLarge(x *X, fam int, small []Node) {
	lg := fam == famLGText || fam == famLGJSON
	sizes := []int{31, 32, 33, 64, 255, 256, 257, 300}
	if x.Thorough {
		sizes = append(sizes, 1000, 1023, 1024, 4000)
	}
	// chains: node i splits feature i (or the same feature at growing thresholds)
	for _, k := range sizes {
		for side := 0; side < 3; side++ {
			for _, mode := range []int{0, 1} {
				if fam == famLGJSON && k > 300 {
					continue // nested JSON objects: quadratic time
				}
				t := chain(k, side)
				for i := range t.Nodes {
					n := &t.Nodes[i]
					n.F = 0
					if mode == 1 {
						n.F = i
					}
					n.Thr = 0.5
					if mode == 0 {
						// left child is taken for small values: a left chain needs falling thresholds
						switch side {
						case 0:
							n.Thr = float64(k - i)
						case 1:
							n.Thr = float64(i)
						case 2:
							if i%2 == 0 {
								n.Thr = float64(10000 - i)
							} else {
								n.Thr = float64(-10000 + i)
							}
						}
					}
				}
				e := oneTree(fam, t)
				mode := mode
				x.Case(func() string {
					return fmt.Sprintf("%s chain of %d nodes, side %d, mode %d", famName[fam], len(e.Trees[0].Nodes), side, mode)
				}, func(c *C) {
					m := e.load(c)
					row := make([]float64, e.NFeat)
					out := make([]float64, 1)
					tr := &e.Trees[0]
					one := func() {
						if err := m.Predict(row, 0, out); err != nil {
							c.Failf("%v", err)
						}
						if w := e.raw(row, 0); !same(out[0], w[0]) {
							c.Failf("row %v: got %v want %v", row, out[0], w[0])
						}
						_, s := tr.walk(fam, row)
						c.States(1)
						c.Trans(s)
						c.Traces(1)
					}
					if mode == 0 {
						for v := -10001 + 0.0; v <= 10001; v++ {
							if v > float64(len(tr.Nodes)+1) && v < 10000-float64(len(tr.Nodes))-1 || v < -2 && v > -10000+float64(len(tr.Nodes))+1 {
								continue
							}
							row[0] = v
							one()
							row[0] = v + 0.5
							one()
						}
						return
					}
					// mode 1: follow the chain to depth d, then leave it
					for d := 0; d <= len(tr.Nodes); d++ {
						for i := range row {
							stay := 0.0 // left
							if tr.Nodes[i].R == i+1 || (i == len(tr.Nodes)-1 && tr.Nodes[i].R == ^len(tr.Nodes)) {
								stay = 1
							}
							row[i] = stay
							if i == d {
								row[i] = 1 - stay
							}
						}
						one()
					}
				})
			}
		}
	}
	// complete trees
	maxd := 9
	if fam == famLGJSON {
		maxd = 7
	}
	for d := 3; d <= maxd; d++ {
		t := complete(d)
		for i := range t.Nodes {
			lv := 0
			for j := i + 1; j > 1; j >>= 1 {
				lv++
			}
			t.Nodes[i].F = lv
			t.Nodes[i].Thr = 0.5 + float64(i)
		}
		e := oneTree(fam, t)
		x.Case(func() string { return fmt.Sprintf("%s complete tree of %d nodes", famName[fam], len(e.Trees[0].Nodes)) }, func(c *C) {
			m := e.load(c)
			row := make([]float64, e.NFeat)
			out := make([]float64, 1)
			for b := 0; b < 1<<uint(e.NFeat); b++ {
				for i := range row {
					row[i] = -1
					if b>>uint(i)&1 > 0 {
						row[i] = 1e6
					}
				}
				if err := m.Predict(row, 0, out); err != nil {
					c.Failf("%v", err)
				}
				if w := e.raw(row, 0); !same(out[0], w[0]) {
					c.Failf("row %v: got %v want %v", row, out[0], w[0])
				}
				c.States(1)
				c.Traces(1)
				c.Trans(e.NFeat)
			}
		})
	}
	// large feature numbers
	for _, nf := range []int{127, 128, 129, 255, 256, 257, 1000, 65535, 65536, 70000} {
		for _, f := range []int{0, nf / 2, nf - 1} {
			t := dress(histories(2)[1], []Node{numNode(0.5, 0, false), numNode(0.25, 0, false)}, []int{f, (f + 1) % nf})
			e := oneTree(fam, t)
			e.NFeat = nf
			x.Case(func() string { return fmt.Sprintf("%s, %d features, split on %d", famName[fam], nf, f) }, func(c *C) {
				compareRows(c, e, e.load(c), 1, 100, true)
			})
		}
	}
	// many trees
	for _, nt := range []int{2, 16, 17, 127, 128, 255, 256, 257, 1000} {
		for _, g := range []int{1, 2, 3} {
			if nt%g != 0 && nt < 100 || fam == famSK && g == 2 {
				continue
			}
			st := nt / g
			e := &Ens{Fam: fam, NFeat: 3, Groups: g, LR: 1, Prior: make([]float64, g)}
			for i := 0; i < st*g; i++ {
				t := dress(histories(2)[i%2], []Node{small[i%len(small)], small[(3*i+1)%len(small)]}, []int{i % 3, (i / 3) % 3})
				setLeaves(&t, func(l int) float64 { return float64((i*7+l*13)%1021 + 1) })
				e.Trees = append(e.Trees, t)
				e.Drop = append(e.Drop, 1)
			}
			x.Case(func() string { return fmt.Sprintf("%s, %d stages, %d groups", famName[fam], st, g) }, func(c *C) {
				compareRows(c, e, e.load(c), 2, 200, true)
			})
		}
	}
	hugeTrees(x, fam)
	if !lg {
		return
	}
	// many category sets in a tree, and many words in a set
	for _, k := range []int{2, 3, 8, 33, 64, 200} {
		for _, kind := range []int{0, 1, 2, 3} {
			t := chain(k, 1)
			for i := range t.Nodes {
				var s []int
				switch (kind + i*(kind%3)) % 4 {
				case 0:
					s = []int{i, i + 40}
				case 1:
					s = []int{i}
				case 2:
					s = []int{i % 32, (i + 3) % 32}
					if s[0] == s[1] {
						s = s[:1]
					}
				case 3:
					s = []int{i % 7, 64 + i, 200 + 3*i, 1000 + i}
				}
				t.Nodes[i] = Node{Cat: true, Cats: s, F: i % 2, L: t.Nodes[i].L, R: t.Nodes[i].R}
			}
			e := oneTree(fam, t)
			e.NFeat = 2
			x.Case(func() string { return fmt.Sprintf("%s, %d category sets of kind %d", famName[fam], k, kind) }, func(c *C) {
				m := e.load(c)
				out := make([]float64, 1)
				row := make([]float64, 2)
				for _, o := range []float64{-1, 0, 7} {
					for _, side := range []int{0, 1} {
						for v := 0; v < 1300; v++ {
							if v > 300 && v < 990 && v%16 != 0 {
								continue
							}
							row[side] = float64(v)
							row[1-side] = o
							m.Predict(row, 0, out)
							if w := e.raw(row, 0); !same(out[0], w[0]) {
								c.Failf("row %v: got %v want %v", row, out[0], w[0])
							}
							_, s := e.Trees[0].walk(fam, row)
							c.States(1)
							c.Trans(s)
							c.Traces(1)
						}
					}
				}
			})
		}
	}
}

func init() {
	register(&Check{ID: "C01", Level: "model_checking",
		Rule:   "every LightGBM split history with up to 3 (four with a reduced palette) splits over the decision palette and every feature assignment, all histories with 4-6 (7) splits over cycled decisions, all node/leaf numberings up to 4 (5) splits, large chains/complete trees/feature numbers/tree counts, files of 35 names rewritten between loads, ensembles of up to 300 trees of all sizes; each with the product of value alphabets per feature; one state per (model, row), transitions are reference decisions, each row is compared with the real prediction",
		Assume: []string{"values between 1e-35 and float32(1e-35) are not generated: the two spellings of LightGBM's zero threshold differ there"},
		Run:  func(x *X) { routes(x, famLGText); rewrites(x, famLGText); twinTrees(x, famLGText); sweep(x, []int{famLGText}, 300, sweepRaw); magnitudes(x, famLGText); runLG(x, famLGText) }})
	register(&Check{ID: "C02", Level: "model_checking",
		Rule: "the model space of C01 written as JSON, plus layouts of the JSON; one state per (model, row), each row compared with the reference walker",
		Run:  func(x *X) { rewrites(x, famLGJSON); twinTrees(x, famLGJSON); sweep(x, []int{famLGJSON}, 300, sweepRaw); magnitudes(x, famLGJSON); runLG(x, famLGJSON); runJSONLayouts(x) }})
	register(&Check{ID: "C03", Level: "model_checking",
		Rule: "every binary shape with up to 3 (4) splits x every storage order of its nodes x default directions x thresholds x feature assignments; dart weights, base scores, groups, deleted nodes, large trees, leaf vectors, header flags, attribute tails, file names, ensembles of up to 300 trees of 54 sizes; one state per (model, row), each compared with the reference walker using `<`",
		Run:  func(x *X) { routes(x, famXGB, famDart); rewrites(x, famXGB, famDart); twinTrees(x, famXGB, famDart); sweep(x, []int{famXGB, famDart}, 300, sweepRaw); magnitudes(x, famXGB); magnitudes(x, famDart); runXGTrees(x) }})
	register(&Check{ID: "C05", Level: "model_checking",
		Rule: "every binary shape with up to 3 (4) splits x storage orders x thresholds x feature assignments, classes x stages x priors x learning rates x pickle writer options, file names, ensembles of up to 300 trees of 54 sizes; one state per (model, row), each compared with the reference walker",
		Run:  func(x *X) { routes(x, famSK); rewrites(x, famSK); twinTrees(x, famSK); sweep(x, []int{famSK}, 300, sweepRaw); magnitudes(x, famSK); runSK(x) }})
}
