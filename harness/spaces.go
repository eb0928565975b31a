//go:build go1.23

package main

import (
	"fmt"
	"math"
)

// ---- shapes ------------------------------------------------------------------------------------------------------

// histories gives the trees of all sequences of k leaf-wise splits, in LightGBM's numbering: split j creates node j,
// its left child keeps the number of the split leaf, the right one gets number j+1
func histories(k int) []Tree {
	type slot struct{ node, side int }
	var out []Tree
	var rec func(nodes []Node, where []slot)
	rec = func(nodes []Node, where []slot) {
		j := len(nodes)
		if j == k {
			t := Tree{Nodes: append([]Node(nil), nodes...), Leaf: make([]float64, k+1)}
			out = append(out, t)
			return
		}
		n := j + 1 // number of leaves
		for l := 0; l < n; l++ {
			ns := append([]Node(nil), nodes...)
			ws := append([]slot(nil), where...)
			ns = append(ns, Node{L: ^l, R: ^n})
			if j > 0 {
				w := where[l]
				if w.side == 0 {
					ns[w.node].L = j
				} else {
					ns[w.node].R = j
				}
				ws[l] = slot{j, 0}
				ws = append(ws, slot{j, 1})
			} else {
				ws = []slot{{0, 0}, {0, 1}}
			}
			rec(ns, ws)
		}
	}
	rec(nil, nil)
	return out
}

// catalan gives one tree per binary shape with k inner nodes, numbered depth first
func catalan(k int) []Tree {
	type sh struct{ l, r *sh }
	var gen func(k int) []*sh
	gen = func(k int) []*sh {
		if k == 0 {
			return []*sh{nil}
		}
		var o []*sh
		for a := 0; a < k; a++ {
			for _, l := range gen(a) {
				for _, r := range gen(k - 1 - a) {
					o = append(o, &sh{l, r})
				}
			}
		}
		return o
	}
	var out []Tree
	for _, s := range gen(k) {
		t := Tree{}
		nl := 0
		var rec func(s *sh) int
		rec = func(s *sh) int {
			if s == nil {
				nl++
				return ^(nl - 1)
			}
			i := len(t.Nodes)
			t.Nodes = append(t.Nodes, Node{})
			l := rec(s.l)
			r := rec(s.r)
			t.Nodes[i].L, t.Nodes[i].R = l, r
			return i
		}
		rec(s)
		t.Leaf = make([]float64, nl)
		out = append(out, t)
	}
	return out
}

// permutations of 0..n-1
func permutations(n int) [][]int {
	var out [][]int
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			out = append(out, append([]int(nil), p...))
			return
		}
		for j := i; j < n; j++ {
			p[i], p[j] = p[j], p[i]
			rec(i + 1)
			p[i], p[j] = p[j], p[i]
		}
	}
	rec(0)
	return out
}

// renumber applies a permutation of nodes (root fixed: perm over nodes 1..) and of leaves
func renumber(t Tree, np, lp []int) Tree {
	k := len(t.Nodes)
	nn := func(i int) int {
		if i < 0 {
			return ^lp[^i]
		}
		if i == 0 {
			return 0
		}
		return np[i-1] + 1
	}
	o := Tree{Nodes: make([]Node, k), Leaf: make([]float64, len(t.Leaf))}
	for i, n := range t.Nodes {
		n.L, n.R = nn(n.L), nn(n.R)
		o.Nodes[nn(i)] = n
	}
	for i, v := range t.Leaf {
		o.Leaf[lp[i]] = v
	}
	return o
}

// features gives all assignments of features to k nodes up to renaming (restricted growth strings)
func featurePatterns(k int) [][]int {
	var out [][]int
	cur := make([]int, k)
	var rec func(i, m int)
	rec = func(i, m int) {
		if i == k {
			out = append(out, append([]int(nil), cur...))
			return
		}
		for f := 0; f <= m; f++ {
			cur[i] = f
			mm := m
			if f == m {
				mm++
			}
			rec(i+1, mm)
		}
	}
	rec(0, 0)
	return out
}

func cloneTree(t Tree) Tree {
	return Tree{Nodes: append([]Node(nil), t.Nodes...), Leaf: append([]float64(nil), t.Leaf...)}
}

// dress puts decisions d and features f on the nodes of a shape
func dress(t Tree, d []Node, f []int) Tree {
	o := cloneTree(t)
	for i := range o.Nodes {
		n := d[i]
		n.L, n.R = o.Nodes[i].L, o.Nodes[i].R
		n.F = f[i]
		o.Nodes[i] = n
	}
	return o
}

// setLeaves gives leaf l the value f(l)
func setLeaves(t *Tree, f func(l int) float64) {
	for i := range t.Leaf {
		t.Leaf[i] = f(i)
	}
}

// chain of k nodes; side: 0 all left, 1 all right, 2 zigzag
func chain(k, side int) Tree {
	t := Tree{}
	for i := 0; i < k; i++ {
		s := side
		if side == 2 {
			s = i % 2
		}
		n := Node{}
		next := i + 1
		if s == 0 {
			n.L, n.R = next, ^i
		} else {
			n.L, n.R = ^i, next
		}
		if i == k-1 {
			if s == 0 {
				n.L = ^k
			} else {
				n.R = ^k
			}
		}
		t.Nodes = append(t.Nodes, n)
	}
	t.Leaf = make([]float64, k+1)
	return t
}

// complete binary tree of the depth
func complete(depth int) Tree {
	t := Tree{}
	n := 1<<uint(depth) - 1
	for i := 0; i < n; i++ {
		l, r := 2*i+1, 2*i+2
		if l >= n {
			t.Nodes = append(t.Nodes, Node{L: ^(l - n), R: ^(r - n)})
		} else {
			t.Nodes = append(t.Nodes, Node{L: l, R: r})
		}
	}
	t.Leaf = make([]float64, n+1)
	return t
}

// ---- palettes of decisions ------------------------------------------------------------------------------------

func numNode(thr float64, missing int, def bool) Node {
	return Node{Thr: thr, Missing: missing, DefLeft: def}
}

func catNode(missing int, def bool, words int, cats ...int) Node {
	return Node{Cat: true, Missing: missing, DefLeft: def, Cats: cats, Words: words}
}

var lgThresholds = []float64{0.5, 0, -1.5, kZero, -kZero, 0.1, 1e300, -1e300, 5e-324, 16777217, 1.0 / 3.0, -2.2250738585072014e-308}

func rangeInts(a, b, step int) []int {
	var o []int
	for i := a; i <= b; i += step {
		o = append(o, i)
	}
	return o
}

// catSets are category sets around all encoding boundaries
var catSets = [][]int{
	{0}, {1}, {5}, {31}, {32}, {33}, {63}, {64}, {95}, {96}, {100}, {1000},
	{0, 1}, {1, 3}, {0, 31}, {30, 31}, {31, 32}, {0, 32}, {32, 33}, {0, 63}, {63, 64}, {1, 33, 64}, {31, 63, 95}, {0, 32, 64, 96}, {5, 200},
}

func init() {
	catSets = append(catSets, rangeInts(0, 30, 1), rangeInts(1, 31, 1), rangeInts(0, 31, 1), rangeInts(0, 63, 1), rangeInts(32, 95, 1), rangeInts(0, 127, 2), rangeInts(31, 400, 32))
}

// lgPaletteFull is the alphabet of decisions of single-split LightGBM trees
func lgPaletteFull(json bool) []Node {
	var out []Node
	for _, m := range []int{missNone, missZero, missNaN} {
		for _, d := range []bool{false, true} {
			for _, t := range lgThresholds {
				out = append(out, numNode(t, m, d))
			}
			if !json {
				out = append(out, numNode(math.Inf(1), m, d), numNode(math.Inf(-1), m, d))
			}
			for _, s := range catSets {
				out = append(out, catNode(m, d, 0, s...))
				if !json && len(s) < 4 && m == missNone {
					out = append(out, catNode(m, d, s[len(s)-1]/32+3, s...))
				}
			}
		}
	}
	return out
}

// lgPaletteMid is the alphabet for two splits
func lgPaletteMid() []Node {
	var out []Node
	for _, m := range []int{missNone, missZero, missNaN} {
		for _, d := range []bool{false, true} {
			out = append(out, numNode(0.5, m, d), numNode(0, m, d), numNode(-1.5, m, d))
		}
		out = append(out, catNode(m, false, 0, 5))
	}
	return append(out, catNode(missNone, true, 0, 0), catNode(missNone, false, 0, 32), catNode(missNone, false, 0, 1, 3), catNode(missNaN, true, 0, 0, 31),
		catNode(missNone, false, 0, 0, 32), catNode(missNaN, false, 0, 1, 33, 64), catNode(missZero, false, 0, 31, 63, 95), catNode(missNone, false, 0, 64, 100))
}

// lgPaletteSmall is the alphabet for three and more splits
func lgPaletteSmall() []Node {
	return []Node{numNode(0.5, missNone, false), numNode(0, missZero, true), numNode(-1.5, missZero, false), numNode(0.25, missNaN, true), numNode(0, missNaN, false),
		catNode(missNone, false, 0, 5), catNode(missNaN, false, 0, 0), catNode(missNone, false, 0, 1, 3), catNode(missNone, false, 0, 0, 31),
		catNode(missNone, false, 0, 0, 32), catNode(missNaN, true, 0, 1, 33, 64), catNode(missNone, false, 0, 31, 63, 95)}
}

// xgPalette is the alphabet of XGBoost decisions; thresholds are float32
func xgPalette(full bool) []Node {
	thr := []float64{0.5, 0, -1.5}
	if full {
		thr = append(thr, float64(float32(0.1)), float64(float32(-0.1)), 16777216, float64(math.MaxFloat32), -float64(math.MaxFloat32), float64(math.SmallestNonzeroFloat32), float64(float32(1e-35)), 1)
	}
	var out []Node
	for _, t := range thr {
		for _, d := range []bool{false, true} {
			out = append(out, numNode(t, 0, d))
		}
	}
	return out
}

func skPalette(full bool) []Node {
	thr := []float64{0.5, 0, -1.5}
	if full {
		thr = append(thr, 0.10000000149011612, 2.449999988079071, -0.75, 1e30, -1e30, 16777216, 1)
	}
	var out []Node
	for _, t := range thr {
		out = append(out, numNode(t, 0, false))
	}
	return out
}

// ---- alphabets of feature values ---------------------------------------------------------------------------------

type valueSet struct {
	seen map[uint64]bool
	v    []float64
}

func (s *valueSet) add(vs ...float64) {
	for _, v := range vs {
		if zeroAmbiguous(v) {
			continue
		}
		b := math.Float64bits(v)
		if !s.seen[b] {
			s.seen[b] = true
			s.v = append(s.v, v)
		}
	}
}

func newValueSet() *valueSet { return &valueSet{seen: map[uint64]bool{}} }

// alphabet of values that tell decisions of the trees on feature f apart. size 0: full, 1: medium, 2: small
func alphabet(fam int, trees []Tree, f int, size int) []float64 {
	s := newValueSet()
	nan, inf := math.NaN(), math.Inf(1)
	if fam != famSK {
		s.add(nan)
	}
	s.add(0)
	if size <= 1 {
		s.add(math.Copysign(0, -1), 1, -1)
	}
	lg := fam == famLGText || fam == famLGJSON
	if size == 0 {
		s.add(1e-36, -1e-36, 1e-34, -1e-34, 2, 0.5)
		if fam != famSK {
			s.add(inf, -inf)
		}
		if lg {
			s.add(1e300, -1e300)
		}
	} else if size == 1 && lg {
		s.add(1e-36, -1e-36)
	}
	for i := range trees {
		for j := range trees[i].Nodes {
			n := &trees[i].Nodes[j]
			if n.F != f {
				continue
			}
			if !n.Cat {
				s.add(n.Thr)
				switch {
				case lg:
					s.add(math.Nextafter(n.Thr, inf))
					if size <= 1 {
						s.add(math.Nextafter(n.Thr, -inf))
					}
				default: // float32 features
					t := float32(n.Thr)
					up := math.Nextafter32(t, float32(inf))
					dn := math.Nextafter32(t, -float32(inf))
					if !math.IsInf(float64(dn), 0) {
						s.add(float64(dn))
					}
					if !math.IsInf(float64(up), 0) && (size <= 1 || fam == famSK) {
						s.add(float64(up))
					}
				}
				continue
			}
			m := 0
			for _, ct := range n.Cats {
				if ct > m {
					m = ct
				}
			}
			switch size {
			case 0:
				for _, ct := range n.Cats {
					x := float64(ct)
					s.add(x, x-1, x+1, x+0.5, -x)
				}
				s.add(nan, -1, -0.5, -0.999, -2, 31, 32, 33, 63, 64, 65, float64(m/32*32+31), float64(m/32*32+32), float64(m/32*32+64), float64(m+32), 2147483647,
					2147483648, 2147483648+5, 4294967296, 4294967296+5, 4294967296+32, -4294967296+5, 1e10, 1e20, -1e20, inf, -inf, -2147483648, -2147483649)
			case 1:
				for k, ct := range n.Cats {
					if k < 4 || k == len(n.Cats)-1 {
						s.add(float64(ct), float64(ct)+1)
					}
				}
				s.add(nan, -1, 32, float64(m+32), 4294967296+float64(m), 1e20)
			default:
				s.add(float64(n.Cats[0]), float64(m), float64(n.Cats[0])+1, float64(m+32))
			}
		}
	}
	return s.v
}

func maxFeature(trees []Tree) int {
	m := -1
	for i := range trees {
		for j := range trees[i].Nodes {
			if trees[i].Nodes[j].F > m {
				m = trees[i].Nodes[j].F
			}
		}
	}
	return m
}

// rows enumerates the product of the alphabets of the used features; unused features hold `other`.
// limit bounds the product: alphabets shrink until it fits
func eachRow(fam int, trees []Tree, nfeat int, size int, limit int, other float64, f func(row []float64)) {
	used := map[int]bool{}
	var fs []int
	for i := range trees {
		for j := range trees[i].Nodes {
			if ft := trees[i].Nodes[j].F; !used[ft] {
				used[ft] = true
				fs = append(fs, ft)
			}
		}
	}
	var al [][]float64
	for ; ; size++ {
		al = nil
		p := 1
		for _, ft := range fs {
			a := alphabet(fam, trees, ft, size)
			al = append(al, a)
			if p <= limit {
				p *= len(a)
			}
		}
		if p <= limit || size >= 2 {
			break
		}
	}
	row := make([]float64, nfeat)
	for i := range row {
		row[i] = other
	}
	n := 0
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == len(fs) {
			n++
			f(row)
			return n < limit
		}
		for _, v := range al[i] {
			row[fs[i]] = v
			if !rec(i + 1) {
				return false
			}
		}
		return true
	}
	rec(0)
}

// describe a tree for labels
func (t *Tree) String() string {
	s := ""
	for i := range t.Nodes {
		n := &t.Nodes[i]
		if n.Cat {
			s += fmt.Sprintf("[%d: f%d in %v miss=%s def=%v L=%d R=%d]", i, n.F, n.Cats, missName[n.Missing], n.DefLeft, n.L, n.R)
		} else {
			s += fmt.Sprintf("[%d: f%d <=|< %v miss=%s def=%v L=%d R=%d]", i, n.F, n.Thr, missName[n.Missing], n.DefLeft, n.L, n.R)
		}
		if len(s) > 1200 {
			s += "..."
			break
		}
	}
	if len(t.Leaf) <= 12 {
		s += fmt.Sprint(t.Leaf)
	}
	return s
}

func (e *Ens) String() string {
	s := fmt.Sprintf("%s features=%d groups=%d stages=%d rf=%v obj=%q", famName[e.Fam], e.NFeat, e.Groups, e.stages(), e.RF, e.Objective)
	if e.Fam == famLinear {
		return s + fmt.Sprintf(" base=%v weights=%v", e.Base, e.Weights)
	}
	for i := range e.Trees {
		if len(s) > 2000 {
			return s + " ..."
		}
		s += "\n  tree " + fmt.Sprint(i) + ": " + e.Trees[i].String()
	}
	return s
}
