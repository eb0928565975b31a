//go:build go1.23

package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/util"
)

// ---- C19: category sets --------------------------------------------------------------------------------------------

// catBase are the categories at the boundaries of the encodings
var catBase = []int{0, 1, 5, 30, 31, 32, 33, 63, 64, 65, 95, 96}
var catBaseMore = []int{0, 1, 2, 15, 16, 30, 31, 32, 33, 62, 63, 64, 65, 95, 96, 127, 128, 255}

func subset(base []int, m int) []int {
	var s []int
	for i, v := range base {
		if m>>uint(i)&1 > 0 {
			s = append(s, v)
		}
	}
	return s
}

// catProbes are the values a categorical feature is probed with
func catProbes(max int) []float64 {
	var p []float64
	for v := -2; v <= max; v++ {
		p = append(p, float64(v), float64(v)+0.5)
	}
	return append(p, math.NaN(), 0.999999, -0.0001, 31.999, 1e9, 2147483647, 4294967295, 4294967296, 4294967297, 4294967328, 1e19, -1e19, math.Inf(1), math.Inf(-1))
}

func inSet(s []int, v float64) bool {
	if math.IsNaN(v) || v <= -1 || v >= 2147483648 {
		return false
	}
	for _, k := range s {
		if k == int(v) {
			return true
		}
	}
	return false
}

func runCats(x *X) {
	base := catBase
	if x.Thorough {
		base = catBaseMore
	}
	// one set
	probes := catProbes(base[len(base)-1] + 34)
	const chunk = 32
	for _, fam := range []int{famLGText, famLGJSON} {
		fam := fam
		for lo := 1; lo < 1<<uint(len(base)); lo += chunk {
			lo := lo
			x.Case(func() string { return fmt.Sprintf("%s: one split, subsets %d.. of %v", famName[fam], lo, base) }, func(c *C) {
				for m := lo; m < lo+chunk && m < 1<<uint(len(base)); m++ {
					s := subset(base, m)
					pads := []int{0}
					if fam == famLGText {
						need := s[len(s)-1]/32 + 1
						pads = []int{0, need + 1, need + 3}
					}
					for _, pad := range pads {
						t := Tree{Nodes: []Node{{Cat: true, Cats: s, Words: pad, F: 0, L: ^0, R: ^1, Missing: m % 3, DefLeft: m%2 > 0}}, Leaf: []float64{1, 2}}
						e := &Ens{Fam: fam, NFeat: 1, Groups: 1, Trees: []Tree{t}}
						en := e.load(c)
						for _, v := range probes {
							want := 2.0
							if inSet(s, v) {
								want = 1
							}
							if got := en.PredictSingle([]float64{v}, 0); got != want {
								c.Failf("%s: category set %v (padded to %d words), value %v: got leaf value %v, want %v", famName[fam], s, pad, v, got, want)
							}
						}
						c.States(len(probes))
						c.Trans(len(probes))
						c.Traces(len(probes))
					}
				}
			})
		}
	}
	// several sets in a tree: every sequence of sets of the palette, with numerical nodes in between and with the
	// sets stored in any order
	pal := [][]int{{0}, {31}, {32}, {64}, {0, 1}, {1, 31}, {30, 31}, {31, 32}, {0, 63}, {1, 33, 64}, {63, 64}, {0, 32, 64, 96}, {95}, {5, 65, 95}, rangeInts(0, 31, 1), rangeInts(0, 63, 1)}
	runSeq := func(k int, pal [][]int, pads bool) {
		n := 1
		for i := 0; i < k; i++ {
			n *= len(pal)
		}
		vals := []float64{math.NaN(), -1, 0, 1, 5, 30, 31, 32, 33, 63, 64, 65, 95, 96, 97, 128}
		if k >= 3 {
			vals = []float64{math.NaN(), 0, 1, 5, 31, 32, 33, 63, 64, 95, 96}
		}
		for _, fam := range []int{famLGText, famLGJSON} {
			fam := fam
			for first := 0; first < n/len(pal); first++ {
				first := first
				x.Case(func() string { return fmt.Sprintf("%s: %d sets, sequences %d*", famName[fam], k, first) }, func(c *C) {
					for last := 0; last < len(pal); last++ {
						idx := first*len(pal) + last
						sets := make([][]int, k)
						for i, d := 0, idx; i < k; i, d = i+1, d/len(pal) {
							sets[i] = pal[d%len(pal)]
						}
						for variant := 0; variant < 4; variant++ {
							t := chain(k, variant%2)
							for i := range t.Nodes {
								nd := &t.Nodes[i]
								nd.Cat, nd.Cats, nd.F = true, sets[i], 0
								if variant >= 2 {
									nd.F = i % 2
								}
								if pads && fam == famLGText && variant == 3 {
									nd.Words = 1 + i + sets[i][len(sets[i])-1]/32
								}
							}
							if variant == 1 && k == 2 {
								// a numerical split between the two sets
								t.Nodes = []Node{{Cat: true, Cats: sets[0], F: 0, L: ^0, R: 1}, {F: 1, Thr: 40, L: 2, R: ^1}, {Cat: true, Cats: sets[1], F: 0, L: ^2, R: ^3}}
								t.Leaf = make([]float64, 4)
							}
							setLeaves(&t, func(l int) float64 { return float64(l + 1) })
							e := &Ens{Fam: fam, NFeat: 2, Groups: 1, Trees: []Tree{t}}
							en := e.load(c)
							st := 0
							row := make([]float64, 2)
							for _, a := range vals {
								for _, b := range vals {
									row[0], row[1] = a, b
									if got, want := en.PredictSingle(row, 0), e.raw(row, 0)[0]; got != want {
										c.Failf("row %v: got %v, want %v\n%s", row, got, want, e)
									}
									st++
									if variant == 0 {
										break
									}
								}
							}
							c.States(st)
							c.Trans(st * k)
							c.Traces(st)
						}
					}
				})
			}
		}
	}
	runSeq(2, pal, true)
	small := [][]int{{0}, {31}, {32}, {0, 31}, {31, 32}, {1, 33, 64}, {5, 65, 95}, rangeInts(0, 63, 1)}
	runSeq(3, small, true)
	if x.Thorough {
		runSeq(4, small, true)
	}
	// the same sets stored in another order than the nodes refer to them, shared by nodes, and unused sets between
	runCatLayout(x)
	runBitset(x)
	manyCats(x, famLGText)
	manyCats(x, famLGJSON)
	wordCats(x, famLGText)
	wordCats(x, famLGJSON)
}

// rewriteCats changes how the sets of a tree are stored: node i refers to set ref[i] of the given list of sets
func lgTextWithSets(e *Ens, sets [][]int, ref []int) []byte {
	// build the text by hand from the sections of the emitter
	t := &e.Trees[0]
	s := lgTreeSection(t, 0)
	var words []int
	bounds := []int{0}
	for _, st := range sets {
		for _, w := range bitset(st, 0) {
			words = append(words, int(w))
		}
		bounds = append(bounds, len(words))
	}
	thr := make([]float64, len(t.Nodes))
	for i := range thr {
		thr[i] = float64(ref[i])
	}
	var b binw
	for i := range s {
		switch s[i].K {
		case "threshold":
			s[i].V = joinFloats(thr)
		case "num_cat":
			s[i].V = fmt.Sprint(len(sets))
		case "cat_boundaries":
			s[i].V = joinInts(bounds)
		case "cat_threshold":
			s[i].V = joinInts(words)
		}
	}
	writeSection(&b.Buffer, lgHeaderSection(e, []int{100}), "\n")
	b.WriteString("\n")
	writeSection(&b.Buffer, s, "\n")
	b.WriteString("\n\nend of trees\n")
	return b.Bytes()
}

func runCatLayout(x *X) {
	pal := [][]int{{0}, {32}, {0, 31}, {31, 32}, {1, 33, 64}, {5, 65, 95}, {63, 64}}
	vals := []float64{-1, 0, 1, 5, 31, 32, 33, 63, 64, 65, 95, 96}
	for a := range pal {
		for b := range pal {
			for d := range pal {
				sets := [][]int{pal[a], pal[b], pal[d]}
				x.Case(func() string { return fmt.Sprintf("stored sets %v", sets) }, func(c *C) {
					for k := 1; k <= 3; k++ {
						n := 1
						for i := 0; i < k; i++ {
							n *= 3
						}
						for r := 0; r < n; r++ {
							ref := []int{r % 3, r / 3 % 3, r / 9}
							t := chain(k, 1)
							for i := range t.Nodes {
								t.Nodes[i].Cat, t.Nodes[i].Cats, t.Nodes[i].F = true, sets[ref[i]], i
							}
							setLeaves(&t, func(l int) float64 { return float64(l + 1) })
							e := &Ens{Fam: famLGText, NFeat: 3, Groups: 1, Trees: []Tree{t}}
							en := mustLoad(c, famLGText, lgTextWithSets(e, sets, ref), false)
							row := make([]float64, 3)
							for p := 0; p < k; p++ {
								// the nodes before send the row on, node p decides
								for _, v := range vals {
									for i := range row {
										row[i] = 1000
									}
									row[p] = v
									if got, want := en.PredictSingle(row, 0), e.raw(row, 0)[0]; got != want {
										c.Failf("stored sets %v, nodes refer to %v, row %v: got %v, want %v", sets, ref[:k], row, got, want)
									}
									c.States(1)
									c.Trans(p + 1)
									c.Traces(1)
								}
							}
						}
					}
				})
			}
		}
	}
	_ = leaves.BatchSize
}

// runBitset compares the helper functions with sets
func runBitset(x *X) {
	hugeSets(x)
	positions := append(rangeInts(0, 130, 1), 255, 256, 1<<16, 1<<31-1, 1<<31, 1<<32-32, 1<<32-1)
	x.Case(func() string {
		return "FindInBitsetUint32, all words with up to 2 set or 2 unset bits, boundary patterns"
	}, func(c *C) {
		words := []uint32{0, ^uint32(0), 0xaaaaaaaa, 0x55555555, 0xffff0000, 0xffff, 0x80000001}
		for i := 0; i < 32; i++ {
			for j := i; j < 32; j++ {
				w := uint32(1)<<uint(i) | uint32(1)<<uint(j)
				words = append(words, w, ^w)
			}
		}
		for _, w := range words {
			for _, p := range positions {
				want := p < 32 && w>>uint(p)&1 > 0
				if got := util.FindInBitsetUint32(w, uint32(p)); got != want {
					c.Failf("FindInBitsetUint32(%#x, %d) = %v", w, p, got)
				}
				c.States(1)
				c.Traces(1)
			}
		}
	})
	// bit sets of up to 4 words with up to 3 set bits
	check := func(c *C, set []uint32, count int, first int) {
		if got := util.NumberOfSetBits(set); got != uint32(count) {
			c.Failf("NumberOfSetBits(%#x) = %d, want %d", set, got, count)
		}
		got, err := util.FirstNonZeroBit(set)
		if count == 0 {
			if err == nil {
				c.Failf("FirstNonZeroBit(%#x) = %d without an error", set, got)
			}
		} else if err != nil || got != uint32(first) {
			c.Failf("FirstNonZeroBit(%#x) = %d, %v, want %d", set, got, err, first)
		}
		c.States(1)
		c.Traces(2)
	}
	for words := 0; words <= 4; words++ {
		n := 32 * words
		for i := -1; i < n; i++ {
			x.Case(func() string { return fmt.Sprintf("bit sets of %d words, first bit %d", words, i) }, func(c *C) {
				set := make([]uint32, words)
				if i < 0 {
					check(c, set, 0, 0)
					for k := range set {
						set[k] = ^uint32(0)
					}
					if words > 0 {
						check(c, set, n, 0)
					}
					return
				}
				put := func(b int) { set[b/32] |= 1 << uint(b%32) }
				for j := i; j < n; j++ {
					for k := j; k < n; k++ {
						for q := range set {
							set[q] = 0
						}
						put(i)
						put(j)
						put(k)
						count := 1
						if j != i {
							count++
						}
						if k != j {
							count++
						}
						check(c, set, count, i)
					}
				}
				// everything from i on, and everything but one bit
				for q := range set {
					set[q] = 0
				}
				for j := i; j < n; j++ {
					put(j)
				}
				check(c, set, n-i, i)
				for j := i + 1; j < n; j++ {
					set[j/32] &^= 1 << uint(j%32)
					check(c, set, n-i-1, i)
					put(j)
				}
			})
		}
	}
	// all 16 bit patterns in every half word
	for sh := uint(0); sh <= 16; sh++ {
		x.Case(func() string { return fmt.Sprintf("all 16 bit patterns shifted by %d", sh) }, func(c *C) {
			for m := uint32(0); m < 1<<16; m++ {
				cnt, first := 0, -1
				for b := 0; b < 16; b++ {
					if m>>uint(b)&1 > 0 {
						cnt++
						if first < 0 {
							first = b + int(sh) + 32
						}
					}
				}
				check(c, []uint32{0, m << sh}, cnt, first)
			}
		})
	}
	// ConstructBitset: all sequences of up to 3 (4) positions
	vals := []int{0, 1, 2, 30, 31, 32, 33, 62, 63, 64, 65, 95, 96, 127, 128, 1000}
	depth := 3
	if x.Thorough {
		depth = 4
	}
	for f := -1; f < len(vals); f++ {
		x.Case(func() string { return fmt.Sprintf("ConstructBitset, first value number %d", f) }, func(c *C) {
			one := func(seq []int) {
				in := append([]int(nil), seq...)
				set := util.ConstructBitset(in)
				want := map[int]bool{}
				for i, v := range seq {
					want[v] = true
					if in[i] != v {
						c.Failf("ConstructBitset changed its input %v", seq)
					}
				}
				cnt := 0
				for p := 0; p < 32*len(set); p++ {
					has := set[p/32]>>uint(p%32)&1 > 0
					if has != want[p] {
						c.Failf("ConstructBitset(%v): position %d is %v", seq, p, has)
					}
					if has {
						cnt++
					}
				}
				if cnt != len(want) {
					c.Failf("ConstructBitset(%v) keeps %d of %d values", seq, cnt, len(want))
				}
				c.States(1)
				c.Traces(1)
			}
			if f < 0 {
				one(nil)
				return
			}
			var rec func(seq []int)
			rec = func(seq []int) {
				one(seq)
				if len(seq) == depth {
					return
				}
				for _, v := range vals {
					rec(append(seq, v))
				}
			}
			rec([]int{vals[f]})
			c.Trans(depth)
		})
	}
}

func init() {
	register(&Check{ID: "C19", Level: "model_checking",
		Rule: "every subset of the boundary categories as one split (text with three paddings, and JSON) x all probe values; every sequence of 2 and 3 (4) sets of a palette in a chain tree x value products; every pair of sets with words of {0, 1, 2} up to four words, in one tree and in two; every triple of stored sets x references from 1-3 nodes (sets out of order, shared, unused); bit-set helpers on all sets of up to 4 words with up to 3 bits, all 16 bit patterns, all value sequences to length 3 (4); one state per (sets, probe)",
		Run:  runCats})
}

// manyCats: ensembles of 32 category splits whose leaves are bits of the sum: one-hot splits for every category, every
// pair of categories of two words, runs of categories from and up to every category
func manyCats(x *X, fam int) {
	var sets [][]int
	for i := 0; i < 1024; i++ {
		sets = append(sets, []int{i})
	}
	for _, p := range []int{2047, 2048, 4095, 8191, 16383, 32767, 32768, 65535, 65536, 100000} {
		sets = append(sets, []int{p}, []int{0, p}, []int{p - 1, p})
	}
	for i := 0; i < 66; i++ {
		for j := i + 1; j < 66; j++ {
			sets = append(sets, []int{i, j})
		}
	}
	for i := 1; i < 132; i++ {
		sets = append(sets, rangeInts(0, i, 1), rangeInts(i, 131, 1), append(rangeInts(0, i-1, 1), rangeInts(i+1, 133, 1)...))
	}
	for lo := 0; lo < len(sets); lo += 32 {
		part := sets[lo:min(lo+32, len(sets))]
		x.Case(func() string {
			return fmt.Sprintf("%s: %d category splits, from %v", famName[fam], len(part), part[0])
		}, func(c *C) {
			e := &Ens{Fam: fam, NFeat: 2, Groups: 1}
			max := 0
			for i, s := range part {
				t := Tree{Nodes: []Node{{Cat: true, Cats: s, F: i % 2, L: ^0, R: ^1, Missing: i % 3, DefLeft: i%4 > 1}}, Leaf: []float64{float64(int64(1) << uint(i)), 0}}
				if i%5 == 3 {
					// below a numerical split
					t.Nodes = []Node{{F: 1 - i%2, Thr: 1e8, L: 1, R: ^2}, t.Nodes[0]}
					t.Leaf = append(t.Leaf, 0)
				}
				e.Trees = append(e.Trees, t)
				if m := s[len(s)-1]; m > max {
					max = m
				}
			}
			m := e.load(c)
			probe := map[int]bool{max + 1: true, max + 31: true, max + 32: true, max + 64: true}
			for v := 0; v <= max+1 && v < 200; v++ {
				probe[v] = true
			}
			for _, s := range part {
				for _, v := range []int{s[0], s[len(s)-1]} {
					for _, d := range []int{0, 1, 31, 32, 33, 64} {
						probe[v+d], probe[v-d] = true, true
					}
				}
			}
			var vals []float64
			for v := range probe {
				vals = append(vals, float64(v), float64(v)+0.75)
			}
			sort.Float64s(vals)
			vals = append(vals, math.NaN(), 1e7)
			row := make([]float64, 2)
			for i, v := range vals {
				row[0], row[1] = v, vals[(i+len(vals)/2)%len(vals)]
				if got, want := m.PredictSingle(row, 0), e.raw(row, 0)[0]; got != want {
					c.Failf("row %v: got %x, want %x (a bit per tree)\n%s", row, int64(got), int64(want), e)
				}
			}
			c.States(len(vals))
			c.Trans(len(vals) * len(part))
			c.Traces(len(vals))
		})
	}
}

// wordCats: every pair of sets whose words are of {0, 1, 2} (up to four words), so that sets begin or end as others do,
// in one tree and in two
func wordCats(x *X, fam int) {
	var sets [][]int
	for k := 2; k <= 4; k++ {
		n := 1
		for i := 0; i < k; i++ {
			n *= 3
		}
		for i := 0; i < n; i++ {
			var s []int
			for w, d := 0, i; w < k; w, d = w+1, d/3 {
				if d%3 > 0 {
					s = append(s, 32*w+d%3-1)
				}
			}
			if len(s) > 1 && s[len(s)-1] >= 32*(k-1) {
				sets = append(sets, s)
			}
		}
	}
	var vals []float64
	for w := 0; w < 5; w++ {
		vals = append(vals, float64(32*w), float64(32*w+1), float64(32*w+2))
	}
	for first := range sets {
		first := first
		x.Case(func() string { return fmt.Sprintf("%s: words of sets, %v and others", famName[fam], sets[first]) }, func(c *C) {
			for second := range sets {
				a, b := Node{Cat: true, Cats: sets[first], F: 0}, Node{Cat: true, Cats: sets[second], F: 1}
				for variant := 0; variant < 2; variant++ {
					e := &Ens{Fam: fam, NFeat: 2, Groups: 1}
					if variant == 0 {
						a.L, a.R, b.L, b.R = 1, ^0, ^1, ^2
						e.Trees = []Tree{{Nodes: []Node{a, b}, Leaf: []float64{1, 2, 4}}}
						if first%2 == 1 {
							e.Trees[0].Nodes[0].L, e.Trees[0].Nodes[0].R = ^0, 1
						}
					} else {
						a.L, a.R, b.L, b.R = ^0, ^1, ^0, ^1
						e.Trees = []Tree{{Nodes: []Node{a}, Leaf: []float64{1, 2}}, {Nodes: []Node{b}, Leaf: []float64{4, 8}}}
					}
					m := e.load(c)
					row := make([]float64, 2)
					st := 0
					for _, row[0] = range vals {
						for _, row[1] = range vals {
							if got, want := m.PredictSingle(row, 0), e.raw(row, 0)[0]; got != want {
								c.Failf("row %v: got %v, want %v\n%s", row, got, want, e)
							}
							st++
						}
					}
					c.States(st)
					c.Trans(2 * st)
					c.Traces(st)
				}
			}
		})
	}
}
