//go:build go1.23

package main

import (
	"fmt"
	"math"
)

// magnitudes64 are doubles of every exponent: powers of two, powers of two and a half, both neighbours of some, powers of ten
func magnitudes64(thorough bool) []float64 {
	vs := []float64{0, math.Copysign(0, -1), math.MaxFloat64, -math.MaxFloat64}
	step := 3
	if thorough {
		step = 1
	}
	for e := -1074; e <= 1023; e++ {
		if e%step != 0 && (e < -70 || e > 70) {
			continue
		}
		p := math.Ldexp(1, e)
		vs = append(vs, p, -1.5*p)
		if e >= -70 && e <= 70 {
			vs = append(vs, -p, math.Nextafter(p, 0), 1.25*p)
		}
	}
	for e := -40; e <= 40; e++ {
		p := math.Pow(10, float64(e))
		vs = append(vs, p, -p, 7*p/3)
	}
	for i := 1; i < 40; i++ {
		vs = append(vs, float64(i)/10, -float64(i), float64(i)/7)
	}
	return vs
}

// magnitudes32 are the same for single precision
func magnitudes32() []float64 {
	vs := []float64{0, math.MaxFloat32, -math.MaxFloat32}
	for e := -149; e <= 127; e++ {
		p := math.Ldexp(1, e)
		vs = append(vs, p, -p, float64(float32(1.5*p)), float64(math.Nextafter32(float32(p), 0)))
	}
	for e := -40; e <= 38; e++ {
		p := float32(math.Pow(10, float64(e)))
		vs = append(vs, float64(p), float64(-p), float64(7*p/3))
	}
	for i := 1; i < 40; i++ {
		vs = append(vs, float64(float32(i)/10), -float64(i), float64(float32(i)/7))
	}
	for i, v := range vs {
		vs[i] = float64(float32(v)) // no difference between what is written and what is expected
	}
	return vs
}

// magnitudes sweeps every number of a model through all exponents: leaf values, thresholds, weights, priors, base scores,
// learning rates and feature values. A model has as many groups as numbers that are looked at together, so that
// every output depends on one of them only, and outputs are compared exactly.
func magnitudes(x *X, fam int) {
	const k = 16
	vals := magnitudes64(x.Thorough)
	if fam == famXGB || fam == famDart || fam == famLinear {
		vals = magnitudes32()
	}
	check := func(c *C, e *Ens, rows [][]float64, what string) {
		m := e.load(c)
		out := make([]float64, e.Groups)
		for _, r := range rows {
			if err := m.Predict(r, 0, out); err != nil {
				c.Failf("%s: Predict(%v): %v", what, r, err)
			}
			for g, w := range e.raw(r, 0) {
				if !same(out[g], w) {
					c.Failf("%s: row %v, group %d: got %v, want %v\n%s", what, r, g, out[g], w, e)
				}
			}
			c.Traces(1)
			c.Trans(e.Groups)
		}
		c.States(len(rows))
	}
	sweep := func(what string, groups int, build func(part []float64) (*Ens, [][]float64)) {
		for lo := 0; lo < len(vals); lo += groups * 8 {
			x.Case(func() string { return fmt.Sprintf("%s: %s of magnitudes %v..", famName[fam], what, vals[lo]) }, func(c *C) {
				for at := lo; at < lo+groups*8 && at < len(vals); at += groups {
					part := append([]float64(nil), vals[at:min(at+groups, len(vals))]...)
					for len(part) < groups {
						part = append(part, 1)
					}
					e, rows := build(part)
					check(c, e, rows, what)
				}
			})
		}
	}
	base := func(groups, nfeat int) *Ens {
		e := &Ens{Fam: fam, NFeat: nfeat, Groups: groups, LR: 1, Prior: make([]float64, groups)}
		if fam == famLinear {
			e.Weights = make([]float32, (nfeat+1)*groups)
			return e
		}
		for i := 0; i < groups; i++ {
			e.Drop = append(e.Drop, 1)
		}
		return e
	}
	stumps := func(e *Ens, f func(i int) (thr, l, r float64)) {
		for i := 0; i < e.Groups; i++ {
			thr, l, r := f(i)
			e.Trees = append(e.Trees, Tree{Nodes: []Node{{F: i % e.NFeat, Thr: thr, L: ^0, R: ^1}}, Leaf: []float64{l, r}})
		}
	}
	two := [][]float64{{0}, {1}}
	if fam == famLinear {
		rows := [][]float64{{1, 1}, {-2, 0.5}, {0, 0}, {math.NaN(), 1}}
		sweep("weights", k, func(part []float64) (*Ens, [][]float64) {
			e := base(k, 2)
			for i, v := range part {
				e.Weights[k*(i%2)+i] = float32(v)
			}
			return e, rows
		})
		sweep("biases", k, func(part []float64) (*Ens, [][]float64) {
			e := base(k, 2)
			for i, v := range part {
				e.Weights[2*k+i] = float32(v)
				e.Weights[i] = float32(v)
			}
			return e, rows[2:]
		})
		sweep("base scores", 1, func(part []float64) (*Ens, [][]float64) {
			e := base(2, 2)
			e.Base = float32(part[0])
			return e, rows
		})
		vals64 := magnitudes64(x.Thorough)
		for _, g := range []int{1, 2} {
			x.Case(func() string { return fmt.Sprintf("%s: feature values of all magnitudes, %d groups", famName[fam], g) }, func(c *C) {
				e := base(g, 2)
				for i := range e.Weights[:2*g] {
					e.Weights[i] = float32(i) + 0.25
				}
				var rs [][]float64
				for _, v := range vals64 {
					rs = append(rs, []float64{v, 0}, []float64{0, v}, []float64{v, math.NaN()})
				}
				check(c, e, rs, "feature values")
			})
		}
		return
	}
	sweep("leaf values", k, func(part []float64) (*Ens, [][]float64) {
		e := base(k, 1)
		stumps(e, func(i int) (float64, float64, float64) { return 0.5, part[i], part[(i+1)%k] })
		return e, two
	})
	sweep("values of only leaves", k, func(part []float64) (*Ens, [][]float64) {
		e := base(k, 1)
		for i := 0; i < k; i++ {
			e.Trees = append(e.Trees, Tree{Leaf: []float64{part[i]}})
		}
		return e, two[:1]
	})
	sweep("thresholds", k, func(part []float64) (*Ens, [][]float64) {
		e := base(k, k)
		stumps(e, func(i int) (float64, float64, float64) { return part[i], 1, 2 })
		lg := fam == famLGText || fam == famLGJSON
		for i := range e.Trees {
			n := &e.Trees[i].Nodes[0]
			n.DefLeft = i%2 == 0
			if lg {
				n.Missing = i % 3
			}
		}
		rows := make([][]float64, 9)
		if fam == famSK {
			rows = rows[:8] // scikit-learn takes no NaN
		}
		for j := range rows {
			for _, v := range part {
				w := v
				switch j {
				case 1:
					w = math.Nextafter(v, math.Inf(1))
				case 2:
					w = math.Nextafter(v, math.Inf(-1))
				case 3:
					w = 2 * v
				case 4:
					w = v / 2
				case 5:
					w = -v
				case 6:
					w = 0
				case 7:
					w = float64(float32(v))
				case 8:
					w = math.NaN()
				}
				if lg && zeroAmbiguous(w) {
					w = 0
				}
				rows[j] = append(rows[j], w)
			}
		}
		return e, rows
	})
	switch fam {
	case famXGB, famDart:
		sweep("base scores", 1, func(part []float64) (*Ens, [][]float64) {
			e := base(3, 1)
			e.Base = float32(part[0])
			stumps(e, func(i int) (float64, float64, float64) { return 0.5, 0, float64(i) })
			return e, two
		})
		if fam == famDart {
			sweep("weights of trees", k, func(part []float64) (*Ens, [][]float64) {
				e := base(k, 1)
				for i, v := range part {
					e.Drop[i] = float32(v)
				}
				stumps(e, func(i int) (float64, float64, float64) { return 0.5, float64(i%4) + 0.75, -3 })
				return e, two
			})
		}
	case famSK:
		sweep("learning rates", 1, func(part []float64) (*Ens, [][]float64) {
			e := base(3, 1)
			e.LR = part[0]
			stumps(e, func(i int) (float64, float64, float64) { return 0.5, float64(i) + 0.75, -3 })
			return e, two
		})
		sweep("priors", k, func(part []float64) (*Ens, [][]float64) {
			e := base(k, 1)
			e.Prior = part
			stumps(e, func(i int) (float64, float64, float64) { return 0.5, 0, 1 })
			return e, two
		})
		sweep("the prior of two classes", 1, func(part []float64) (*Ens, [][]float64) {
			e := base(1, 1)
			e.Prior = part
			stumps(e, func(i int) (float64, float64, float64) { return 0.5, 0, 1 })
			return e, two
		})
	}
}
