//go:build go1.23

package main

import (
	"fmt"
	"math"
	"runtime"

	"github.com/dmitryikh/leaves"
)

// zooEns is a representative model of a family; v varies its decisions
func zooEns(fam, nfeat, groups, stages, v int, load bool) *Ens {
	e := &Ens{Fam: fam, NFeat: nfeat, Groups: groups, LR: 0.5, Base: 0.5, Load: load}
	if fam == famLinear {
		for i := 0; i < (nfeat+1)*groups; i++ {
			e.Weights = append(e.Weights, float32(math.Pow(2, float64(i%9))*float64(1-2*(i%2))/8))
		}
		if load {
			e.Objective = "binary:logistic"
		}
		return e
	}
	for g := 0; g < groups; g++ {
		e.Prior = append(e.Prior, float64(g)*0.5-0.25)
	}
	if load {
		switch fam {
		case famLGText:
			e.Objective = []string{"binary sigmoid:1", "poisson", "regression"}[v%3]
			if groups > 1 {
				e.Objective = fmt.Sprintf("multiclass num_class:%d", groups)
			}
		case famXGB, famDart:
			e.Objective = "binary:logistic"
		}
	}
	var pal []Node
	var shapes []Tree
	switch fam {
	case famLGText, famLGJSON:
		pal = lgPaletteSmall()
		shapes = append(append(histories(2), histories(3)...), Tree{Leaf: []float64{0}})
	case famSK:
		pal = skPalette(false)
		shapes = append(append(catalan(2), catalan(3)...), Tree{Leaf: []float64{0}})
	default:
		pal = xgPalette(false)
		shapes = append(append(catalan(2), catalan(3)...), Tree{Leaf: []float64{0}})
	}
	for i := 0; i < stages*groups; i++ {
		sh := shapes[(i+v)%len(shapes)]
		var d []Node
		var f []int
		for j := range sh.Nodes {
			d = append(d, pal[(v+i+j*5)%len(pal)])
			f = append(f, (i+j)%nfeat)
		}
		t := dress(sh, d, f)
		setLeaves(&t, func(l int) float64 { return float64((l+1)*(1+2*(i%2))-3)/4 + float64(i/groups)/8 })
		e.Trees = append(e.Trees, t)
		e.Drop = append(e.Drop, []float32{1, 0.5, 2}[i%3])
	}
	return e
}

// canGroups tells whether models of the family with that many outputs exist (with the transformation)
func canGroups(fam, groups int, load bool) bool {
	if fam == famSK && groups == 2 {
		return false
	}
	if load && fam != famLGText && fam != famSK && groups > 1 {
		return false
	}
	return true
}

// canLoad tells whether a family has transformations
func canLoad(fam int) bool { return fam != famLGJSON && fam != famSK }

// rowPool are rows that reach different leaves of the model; absent values included
func rowPool(e *Ens, n int) [][]float64 {
	var rows [][]float64
	if e.Fam == famLinear {
		al := []float64{0, 1, -1, 0.5, math.NaN(), 3}
		var rec func(r []float64)
		rec = func(r []float64) {
			if len(rows) >= n {
				return
			}
			if len(r) == e.NFeat {
				rows = append(rows, append([]float64(nil), r...))
				return
			}
			for i := range al {
				rec(append(r, al[(i+len(r))%len(al)]))
			}
		}
		rec(nil)
		return rows
	}
	var all [][]float64
	seen := map[string]bool{}
	eachRow(e.Fam, e.Trees, e.NFeat, 2, 3000, 0.75, func(r []float64) {
		c := append([]float64(nil), r...)
		var k string
		for i := range e.Trees {
			l, _ := e.Trees[i].walk(e.Fam, r)
			k += fmt.Sprint(l, ",")
		}
		if !seen[k] && len(rows) < n {
			seen[k] = true
			rows = append(rows, c)
		} else {
			all = append(all, c)
		}
	})
	for i := 0; len(rows) < n && len(all) > 0; i++ {
		rows = append(rows, all[(i*37)%len(all)])
		if i > 10*n {
			break
		}
	}
	return rows
}

// views of a model
const (
	viewOrig = iota
	viewRaw
	viewLeaf
)

var viewName = [...]string{"original", "raw", "leaf"}

func deriveView(m *leaves.Ensemble, v int) *leaves.Ensemble {
	switch v {
	case viewRaw:
		return m.EnsembleWithRawPredictions()
	case viewLeaf:
		return m.EnsembleWithLeafPredictions()
	}
	return m
}

// expect is the reference output of a view for a row; leaf views return nil for families whose leaf numbering is
// not defined by the file
func (e *Ens) expect(view int, row []float64, n int) []float64 {
	switch view {
	case viewRaw:
		return e.raw(row, n)
	case viewOrig:
		return applyLink(e.link(), e.raw(row, n))
	}
	l := e.leafs(row)
	out := make([]float64, len(l))
	for i := range l {
		out[i] = float64(l[i])
	}
	return out
}

func (e *Ens) nOut(view int) int {
	if view == viewLeaf {
		return e.Groups * e.stages()
	}
	return e.Groups
}

// leafExact tells whether leaf numbers are those of the file
func (e *Ens) leafExact() bool { return e.Fam == famLGText }

const guard = -7.7e77

func guarded(n, extra int) []float64 {
	o := make([]float64, n+extra)
	for i := range o {
		o[i] = guard
	}
	return o
}

func checkGuard(c *C, what string, o []float64, from int) {
	for i := from; i < len(o); i++ {
		if o[i] != guard {
			c.Failf("%s: output cell %d beyond the results was overwritten with %v", what, i, o[i])
		}
	}
}

// csrOf turns dense rows into a sparse matrix without the cells that mean absent (if drop) and with extra columns
type csr struct {
	indptr []int
	cols   []int
	vals   []float64
}

func (e *Ens) csrOf(rows [][]float64, drop bool) csr {
	m := csr{indptr: []int{0}}
	abs := e.absentValue()
	for _, r := range rows {
		for j, v := range r {
			if drop && (math.Float64bits(v) == math.Float64bits(abs) || (math.IsNaN(v) && math.IsNaN(abs))) {
				continue
			}
			m.cols = append(m.cols, j)
			m.vals = append(m.vals, v)
		}
		m.indptr = append(m.indptr, len(m.cols))
	}
	return m
}

func flat(rows [][]float64, extra int) []float64 {
	var o []float64
	for i, r := range rows {
		o = append(o, r...)
		for k := 0; k < extra; k++ {
			o = append(o, []float64{math.NaN(), 5, -1e9}[(i+k)%3])
		}
	}
	return o
}

func cloneF(v []float64) []float64 { return append([]float64(nil), v...) }

func sameBits(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Float64bits(a[i]) != math.Float64bits(b[i]) && !(math.IsNaN(a[i]) && math.IsNaN(b[i])) {
			return false
		}
	}
	return true
}

func setProcs(n int) func() {
	old := runtime.GOMAXPROCS(n)
	return func() { runtime.GOMAXPROCS(old) }
}
