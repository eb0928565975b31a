//go:build go1.23

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strings"
)

// orders gives all storage orders of a tree: the root, then every permutation of the other nodes and leaves
func orders(t *Tree) [][]int {
	base := xgOrder(t, 0)
	var out [][]int
	for _, p := range permutations(len(base) - 1) {
		o := []int{base[0]}
		for _, i := range p {
			o = append(o, base[1+i])
		}
		out = append(out, o)
	}
	return out
}

func runXGTrees(x *X) {
	pal := xgPalette(true)
	small := xgPalette(false)
	run := func(e *Ens, opt XGOpt, size, limit int, exact bool) {
		x.Case(func() string { return e.String() }, func(c *C) {
			m := mustLoad(c, e.Fam, xgBytes(e, opt), e.Load)
			compareRows(c, e, m, size, limit, exact)
		})
	}
	for _, fam := range []int{famXGB, famDart} {
		// constants
		for _, v := range []float32{0, 1, -1, 0.1, 1e-30, math.MaxFloat32} {
			for _, base := range []float32{0, 0.5, -2, 1e6} {
				for g := 1; g <= 3; g++ {
					e := &Ens{Fam: fam, NFeat: 2, Groups: g, Base: base}
					for i := 0; i < g; i++ {
						e.Trees = append(e.Trees, Tree{Leaf: []float64{float64(v)}})
						e.Drop = append(e.Drop, float32(i+1)/2)
					}
					run(e, XGOpt{}, 0, 10, false)
				}
			}
		}
		// one split: full palette, both orders, root fields
		h1 := catalan(1)[0]
		for _, d := range pal {
			for _, f := range []int{0, 3} {
				t := dress(h1, []Node{d}, []int{f})
				for _, o := range orders(&t) {
					e := oneTree(fam, t)
					e.Base = 0.5
					e.Drop = []float32{0.25}
					run(e, XGOpt{Order: func(int) []int { return o }}, 0, 1000, true)
				}
			}
		}
		// two splits: full palette pairs x orders x features
		for _, s := range catalan(2) {
			for _, f := range featurePatterns(2) {
				for _, d0 := range pal {
					for _, d1 := range pal {
						t := dress(s, []Node{d0, d1}, f)
						ord := orders(&t)
						if fam == famDart {
							ord = ord[:2]
						}
						for oi, o := range ord {
							if oi > 1 && (d0.Thr != 0.5 || math.Abs(d1.Thr) > 1.5) {
								continue
							}
							e := oneTree(fam, t)
							run(e, XGOpt{Order: func(int) []int { return o }}, 0, 400, true)
						}
					}
				}
			}
		}
	}
	// three splits: all orders; decisions cycled
	for si, s := range catalan(3) {
		for fi, f := range featurePatterns(3) {
			for off := 0; off < 2; off++ {
				d := []Node{small[(si+off)%6], small[(si+fi+2*off+1)%6], small[(fi+off*3+2)%6]}
				t := dress(s, d, f)
				for _, o := range orders(&t) {
					e := oneTree(famXGB, t)
					run(e, XGOpt{Order: func(int) []int { return o }}, 2, 150, true)
				}
			}
		}
		// all decisions, natural order
		for _, f := range featurePatterns(3) {
			for _, d0 := range small {
				for _, d1 := range small {
					for _, d2 := range small {
						run(oneTree(famXGB, dress(s, []Node{d0, d1, d2}, f)), XGOpt{}, 1, 1000, true)
					}
				}
			}
		}
	}
	// four splits: three natural orders, (thorough: every order), five splits: natural orders
	for k := 4; k <= 6; k++ {
		for si, s := range catalan(k) {
			for off := 0; off < 6; off++ {
				for _, fm := range []int{1, 2, k} {
					var d []Node
					var f []int
					for i := 0; i < k; i++ {
						d = append(d, small[(off+i*(1+si%3))%6])
						f = append(f, i%fm)
					}
					t := dress(s, d, f)
					for kind := 0; kind < 3; kind++ {
						kind := kind
						run(oneTree(famXGB, t), XGOpt{Order: func(int) []int { return xgOrder(&t, kind) }}, 2, 800, true)
					}
				}
			}
			if k == 4 && x.Thorough {
				d := []Node{small[si%6], small[(si+1)%6], small[(si+3)%6], small[(si+4)%6]}
				t := dress(s, d, []int{0, 1, 0, 1})
				for _, o := range orders(&t) {
					run(oneTree(famXGB, t), XGOpt{Order: func(int) []int { return o }}, 2, 100, true)
				}
			}
		}
	}
	// pruned trees: storage keeps deleted nodes
	for _, s := range append(append([]Tree{{Leaf: []float64{3}}}, catalan(1)...), catalan(2)...) {
		k := len(s.Nodes)
		t := dress(s, []Node{small[1], small[2]}, []int{0, 1})
		for at := 1; at <= 2*k+1; at++ {
			at := at
			e := oneTree(famXGB, t)
			if k == 0 {
				e.NFeat = 2
			}
			x.Case(func() string { return fmt.Sprintf("deleted nodes at %d of %s", at, e) }, func(c *C) {
				m := mustLoad(c, famXGB, xgDeleted(e, at), false)
				compareRows(c, e, m, 1, 400, true)
			})
		}
	}
	runLarge(x, famXGB, small)
	// ensembles
	for _, fam := range []int{famXGB, famDart} {
		for g := 1; g <= 5; g++ {
			for st := 1; st <= 4; st++ {
				for off := 0; off < 6; off++ {
					e := &Ens{Fam: fam, NFeat: 3, Groups: g, Base: float32(off) - 0.5}
					shapes := append(catalan(2), Tree{Leaf: []float64{0}})
					for i := 0; i < st*g; i++ {
						t := dress(shapes[(i+off)%3], []Node{small[(off+i)%6], small[(off+3*i+1)%6]}, []int{i % 3, (i + 1) % 3})
						w := math.Pow(8, float64(i/g))
						setLeaves(&t, func(l int) float64 { return w * float64(l+1+i%g) })
						e.Trees = append(e.Trees, t)
						e.Drop = append(e.Drop, []float32{1, 0.5, 0, 0.75, 2}[(i+off)%5])
					}
					run(e, XGOpt{}, 2, 1000, true)
				}
			}
		}
	}
	// what a file has besides the trees: leaf vectors, header flags, reserved space, attributes and metrics after the model
	xgExtras(func(what string, opt XGOpt) {
		for _, fam := range []int{famXGB, famDart} {
			for g := 1; g <= 3; g++ {
				for st := 1; st <= 3; st++ {
					e := zooEns(fam, 3, g, st, st, false)
					x.Case(func() string { return what + ": " + e.String() }, func(c *C) {
						m := mustLoad(c, e.Fam, xgBytes(e, opt), e.Load)
						compareRows(c, e, m, 1, 300, true)
					})
				}
			}
		}
	})
	// other tree infos than round-robin have no equivalent here and must be refused
	for _, info := range [][]int32{{0, 0, 1, 1}, {1, 0, 1, 0}, {0, 1, 1, 0}, {0, 1, 0, 2}, {0, 1, 0, -1}} {
		e := &Ens{Fam: famXGB, NFeat: 3, Groups: 2}
		for i := 0; i < 4; i++ {
			e.Trees = append(e.Trees, dress(catalan(1)[0], []Node{small[i]}, []int{i % 3}))
		}
		x.Case(func() string { return fmt.Sprint("tree info ", info) }, func(c *C) {
			b := xgBytes(e, XGOpt{Info: info})
			c.SetModel(b)
			if m, err := loadBytes(famXGB, b, false); err == nil && m != nil {
				c.Failf("tree info %v is accepted although trees are assigned to groups round-robin", info)
			}
			c.States(1)
			c.Traces(1)
			c.Trans(1)
		})
	}
	// real-looking values
	vals := []float32{0.1, -1.0 / 3, 1e-17, 123456.789, -0.06891, math.Pi, 2e10}
	for off := 0; off < len(vals); off++ {
		for _, fam := range []int{famXGB, famDart} {
			e := &Ens{Fam: fam, NFeat: 2, Groups: 1, Base: 0.3}
			for i := 0; i < 10; i++ {
				t := dress(catalan(2)[i%2], []Node{small[(off+i)%6], small[(off+2*i)%6]}, []int{0, 1})
				setLeaves(&t, func(l int) float64 { return float64(vals[(off+l+i)%len(vals)]) })
				e.Trees = append(e.Trees, t)
				e.Drop = append(e.Drop, vals[(off+3*i)%len(vals)])
			}
			run(e, XGOpt{}, 1, 2000, false)
		}
	}
}

// xgExtras are layouts that have more than a plain file
func xgExtras(f func(what string, opt XGOpt)) {
	tails := map[string][]byte{}
	var tailNames []string
	tail := func(name string, w func(b *binw)) {
		var b binw
		w(&b)
		tails[name] = b.Bytes()
		tailNames = append(tailNames, name)
	}
	tail("nothing", func(b *binw) {})
	tail("attributes", func(b *binw) { b.u64(1); b.str("best_iteration"); b.str("3") })
	tail("metrics", func(b *binw) { b.u64(2); b.str("rmse"); b.str("auc") })
	tail("max_delta_step", func(b *binw) { b.str("0.7") })
	tail("zeros", func(b *binw) { b.zeros(9) })
	tail("a long attribute", func(b *binw) { b.u64(1); b.str("x"); b.str(strings.Repeat("y", 100000)) })
	head := func(flags ...int32) []byte {
		var b binw
		for i := 0; i < 31; i++ {
			v := int32(0)
			if i < len(flags) {
				v = flags[i]
			} else if len(flags) > 2 {
				v = -1 - int32(i)
			}
			b.i32(v)
		}
		return b.Bytes()
	}
	heads := [][]byte{nil, head(1), head(0, 1), head(1, 1), head(0, 0, 5)}
	for hi, h := range heads {
		for _, t := range tailNames {
			f(fmt.Sprintf("header flags %d, %s after the model", hi, t), XGOpt{Head: h, Tail: tails[t]})
		}
	}
	vec := []float32{1, -2, 0.5, 3, math.MaxFloat32}
	for size := 1; size <= len(vec); size++ {
		for _, which := range []int{0, 1, 2, -1} {
			size, which := size, which
			f(fmt.Sprintf("leaf vectors of %d in trees %d", size, which), XGOpt{Vec: func(i int) []float32 {
				if which < 0 || i%3 == which {
					return vec[:size]
				}
				return nil
			}})
		}
	}
}

// xgDeleted writes a single tree with two deleted nodes stored at position at
func xgDeleted(e *Ens, at int) []byte {
	t := &e.Trees[0]
	ord := xgOrder(t, 0)
	const del = 1 << 20
	o2 := append([]int(nil), ord[:at]...)
	o2 = append(o2, del, del+1)
	o2 = append(o2, ord[at:]...)
	b := &binw{}
	full := xgBytes(e, XGOpt{})
	// header + gbtree parameters are those of the model without deleted nodes
	var one binw
	xgTree(&one, t, e.NFeat, ord, nil)
	treeAt := len(full) - 4*len(e.Trees) - one.Len()
	b.Write(full[:treeAt])
	pos := map[int]int{}
	for i, v := range o2 {
		pos[v] = i
	}
	b.i32(1)
	b.i32(int32(len(o2)))
	b.i32(2)
	b.i32(3)
	b.i32(int32(e.NFeat))
	b.i32(0)
	b.zeros(31 * 4)
	for i, v := range o2 {
		if i == 0 {
			b.i32(-1)
		} else {
			b.i32(0)
		}
		switch {
		case v >= del:
			b.i32(-1)
			b.i32(-1)
			b.u32(math.MaxUint32)
			b.f32(777)
		case v < 0:
			b.i32(-1)
			b.i32(-1)
			b.u32(0)
			b.f32(float32(t.Leaf[^v]))
		default:
			n := &t.Nodes[v]
			b.i32(int32(pos[n.L]))
			b.i32(int32(pos[n.R]))
			s := uint32(n.F)
			if n.DefLeft {
				s |= 1 << 31
			}
			b.u32(s)
			b.f32(float32(n.Thr))
		}
	}
	b.zeros(16 * len(o2))
	b.Write(full[len(full)-4:])
	return b.Bytes()
}

func runSK(x *X) {
	pal := skPalette(true)
	small := skPalette(false)
	run := func(e *Ens, opt SKOpt, size, limit int, exact bool) {
		x.Case(func() string { return e.String() }, func(c *C) {
			m := mustLoad(c, famSK, skBytes(e, opt), false)
			if m.NFeatures() != e.NFeat {
				c.Failf("NFeatures() = %d, n_features_ = %d", m.NFeatures(), e.NFeat)
			}
			compareRows(c, e, m, size, limit, exact)
		})
	}
	pick := func(b int) PickleOpt { return PickleOpt{Ints: b&1 > 0, RawNul: b&2 > 0, NoPut: b&4 > 0} }
	// constants, priors, learning rates, writer options
	for b := 0; b < 8; b++ {
		for big := 0; big < 4; big++ {
			for g := 1; g <= 5; g++ {
				if g == 2 {
					continue // two classes have one output
				}
				for st := 1; st <= 2; st++ {
					e := &Ens{Fam: famSK, NFeat: 2, Groups: g, LR: []float64{1, 0.5, 0.1, 3}[big], Prior: nil}
					for i := 0; i < g; i++ {
						e.Prior = append(e.Prior, float64(i)-0.25)
					}
					for i := 0; i < g*st; i++ {
						e.Trees = append(e.Trees, Tree{Leaf: []float64{float64(i*i) + 0.5}})
					}
					run(e, SKOpt{Pickle: pick(b), BigPrior: big&1 > 0, BigValues: big&2 > 0}, 0, 10, false)
				}
			}
		}
	}
	// one and two splits: palette, orders, features
	for _, f := range []int{0, 3} {
		for _, d := range pal {
			t := dress(catalan(1)[0], []Node{d}, []int{f})
			for _, o := range orders(&t) {
				for b := 0; b < 4; b++ {
					e := oneTree(famSK, t)
					e.Prior = []float64{-0.5}
					run(e, SKOpt{Order: func(int) []int { return o }, Pickle: pick(b), MaxFeat: 1, BigValues: b == 3}, 0, 1000, true)
				}
			}
		}
	}
	for _, s := range catalan(2) {
		for _, f := range featurePatterns(2) {
			for _, d0 := range pal {
				for _, d1 := range pal {
					t := dress(s, []Node{d0, d1}, f)
					for oi, o := range orders(&t) {
						if oi > 1 && (math.Abs(d0.Thr) > 1.5 || math.Abs(d1.Thr) > 1.5) {
							continue
						}
						run(oneTree(famSK, t), SKOpt{Order: func(int) []int { return o }}, 0, 400, true)
					}
				}
			}
		}
	}
	// three splits
	for si, s := range catalan(3) {
		for fi, f := range featurePatterns(3) {
			d := []Node{small[si%3], small[(si+fi+1)%3], small[(fi+2)%3]}
			t := dress(s, d, f)
			for _, o := range orders(&t) {
				run(oneTree(famSK, t), SKOpt{Order: func(int) []int { return o }}, 2, 150, true)
			}
			for _, d0 := range small {
				for _, d1 := range small {
					for _, d2 := range small {
						run(oneTree(famSK, dress(s, []Node{d0, d1, d2}, f)), SKOpt{}, 1, 1000, true)
					}
				}
			}
		}
	}
	for k := 4; k <= 6; k++ {
		for si, s := range catalan(k) {
			for off := 0; off < 3; off++ {
				for _, fm := range []int{1, 2, k} {
					var d []Node
					var f []int
					for i := 0; i < k; i++ {
						d = append(d, small[(off+i*(1+si%2))%3])
						f = append(f, i%fm)
					}
					t := dress(s, d, f)
					for kind := 0; kind < 3; kind++ {
						kind := kind
						run(oneTree(famSK, t), SKOpt{Order: func(int) []int { return xgOrder(&t, kind) }}, 2, 800, true)
					}
				}
			}
			if k == 4 && x.Thorough {
				d := []Node{small[si%3], small[(si+1)%3], small[(si+2)%3], small[si%3]}
				t := dress(s, d, []int{0, 1, 0, 1})
				for _, o := range orders(&t) {
					run(oneTree(famSK, t), SKOpt{Order: func(int) []int { return o }}, 2, 100, true)
				}
			}
		}
	}
	runLarge(x, famSK, small)
	// ensembles
	for _, g := range []int{1, 3, 4, 5} {
		for st := 1; st <= 4; st++ {
			for off := 0; off < 6; off++ {
				e := &Ens{Fam: famSK, NFeat: 3, Groups: g, LR: []float64{1, 0.5, 2}[off%3]}
				for i := 0; i < g; i++ {
					e.Prior = append(e.Prior, float64(off)-0.5*float64(i))
				}
				shapes := append(catalan(2), Tree{Leaf: []float64{0}})
				for i := 0; i < st*g; i++ {
					t := dress(shapes[(i+off)%3], []Node{small[(off+i)%3], small[(off+2*i+1)%3]}, []int{i % 3, (i + 1) % 3})
					w := math.Pow(8, float64(i/g))
					setLeaves(&t, func(l int) float64 { return w * float64(l+1+i%g) })
					e.Trees = append(e.Trees, t)
				}
				for b := 0; b < 8; b++ {
					run(e, SKOpt{Pickle: pick(b), MaxFeat: 1 + b%3, BigValues: b > 3, BigPrior: b%2 == 1}, 2, 300, true)
				}
			}
		}
	}
	// real-looking values
	vals := []float64{0.1, -1.0 / 3, 1e-17, 123456.789, -0.06891, math.Pi, 2e10}
	for off := 0; off < len(vals); off++ {
		e := &Ens{Fam: famSK, NFeat: 2, Groups: 1, LR: 0.1, Prior: []float64{vals[off] / 3}}
		for i := 0; i < 10; i++ {
			t := dress(catalan(2)[i%2], []Node{small[(off+i)%3], small[(off+2*i)%3]}, []int{0, 1})
			setLeaves(&t, func(l int) float64 { return vals[(off+l+i)%len(vals)] })
			e.Trees = append(e.Trees, t)
		}
		run(e, SKOpt{}, 1, 2000, false)
	}
}

// ---- layouts of JSON models --------------------------------------------------------------------------------------

// jsonRewrite re-encodes a JSON document in another way that means the same
func jsonRewrite(data []byte, kind int) []byte {
	dec := json.NewDecoder(bytes.NewReader(data))
	dec.UseNumber()
	var v interface{}
	if err := dec.Decode(&v); err != nil {
		panic(err)
	}
	var b bytes.Buffer
	var w func(v interface{}, ind string)
	str := func(s string) {
		if kind == 4 {
			b.WriteByte('"')
			for _, r := range s {
				fmt.Fprintf(&b, "\\u%04x", r)
			}
			b.WriteByte('"')
			return
		}
		q, _ := json.Marshal(s)
		b.Write(q)
	}
	sep := func(ind string) {
		switch kind {
		case 1:
			b.WriteString("\n" + ind)
		case 2:
			b.WriteString("\r\n\t")
		}
	}
	w = func(v interface{}, ind string) {
		switch x := v.(type) {
		case map[string]interface{}:
			var ks []string
			for k := range x {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			if kind%2 == 1 {
				sort.Sort(sort.Reverse(sort.StringSlice(ks)))
			}
			b.WriteByte('{')
			if kind == 3 {
				b.WriteString(`"zz_unknown":{"left_child":[1,2,{"leaf_value":5}],"x":null},`)
			}
			for i, k := range ks {
				if i > 0 {
					b.WriteByte(',')
				}
				sep(ind + " ")
				str(k)
				b.WriteByte(':')
				if kind == 1 {
					b.WriteByte(' ')
				}
				w(x[k], ind+" ")
			}
			sep(ind)
			b.WriteByte('}')
		case []interface{}:
			b.WriteByte('[')
			for i, k := range x {
				if i > 0 {
					b.WriteByte(',')
				}
				sep(ind + " ")
				w(k, ind+" ")
			}
			b.WriteByte(']')
		case string:
			str(x)
		case json.Number:
			s := x.String()
			if kind == 5 && strings.ContainsAny(s, ".e") {
				f, _ := x.Float64()
				s = fmt.Sprintf("%.20E", f)
			}
			b.WriteString(s)
		case nil:
			b.WriteString("null")
		case bool:
			fmt.Fprint(&b, x)
		}
	}
	w(v, "")
	return b.Bytes()
}

func runJSONLayouts(x *X) {
	small := lgPaletteSmall()
	for g := 1; g <= 3; g++ {
		for off := 0; off < len(small); off++ {
			e := &Ens{Fam: famLGJSON, NFeat: 3, Groups: g}
			shapes := append(histories(3), Tree{Leaf: []float64{0.25}})
			for i := 0; i < 2*g; i++ {
				t := dress(shapes[(i+off)%len(shapes)], []Node{small[(off+i)%len(small)], small[(off+5*i+1)%len(small)], small[(off+2)%len(small)]}, []int{i % 3, (i + 1) % 3, 2})
				setLeaves(&t, func(l int) float64 { return math.Pow(8, float64(i/g)) * float64(l+1) })
				e.Trees = append(e.Trees, t)
			}
			for kind := 0; kind <= 5; kind++ {
				x.Case(func() string { return fmt.Sprintf("layout %d of %s", kind, e) }, func(c *C) {
					data := jsonRewrite(lgJSON(e), kind)
					m := mustLoad(c, famLGJSON, data, false)
					compareRows(c, e, m, 2, 300, true)
					if m, err := loadBytes(famLGJSON, data, true); err == nil && m != nil {
						c.Failf("a transformation function is not refused for JSON models")
					}
				})
			}
		}
	}
	// header fields that change the meaning
	e := &Ens{Fam: famLGJSON, NFeat: 3, Groups: 1, Trees: []Tree{dress(histories(1)[0], small, []int{1}), {Leaf: []float64{1}}}}
	data := string(lgJSON(e))
	for _, r := range [][2]string{{`"name":"tree"`, `"name":"linear"`}, {`"version":"v2"`, `"version":"v1"`}, {`"version":"v2"`, `"version":""`},
		{`"num_class":1`, `"num_class":2`}, {`"num_class":1`, `"num_class":0`}, {`"num_tree_per_iteration":1`, `"num_tree_per_iteration":2`},
		{`"num_class":1,"num_tree_per_iteration":1`, `"num_class":3,"num_tree_per_iteration":3`}, {`"num_class":1,"num_tree_per_iteration":1`, `"num_class":-1,"num_tree_per_iteration":-1`}} {
		x.Case(func() string { return fmt.Sprint("header ", r) }, func(c *C) {
			d := []byte(strings.Replace(data, r[0], r[1], 1))
			if string(d) == data {
				panic("harness: nothing replaced")
			}
			c.SetModel(d)
			if _, err := loadBytes(famLGJSON, d, false); err == nil {
				c.Failf("header %s is accepted", r[1])
			}
			c.States(1)
			c.Trans(1)
			c.Traces(1)
		})
	}
}
