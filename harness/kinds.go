//go:build go1.23

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/dmitryikh/leaves"
)

// ---- C27: what a loader cannot evaluate it refuses -----------------------------------------------------------------

// kinds loads files into loaders and knows whether they have to be accepted
type kinds struct {
	c    *C
	path string
	n    int
}

func newKinds(c *C) *kinds {
	return &kinds{c: c, path: filepath.Join(workDir, fmt.Sprintf("kind%d", os.Getpid()))}
}

const (
	refuse = iota // has to be refused
	accept        // has to be accepted, and to predict as the model
	either        // may be refused, but if it is accepted it has to predict as the model
)

func (k *kinds) load(fam int, data []byte, tr bool, want int, e *Ens, what string) {
	c := k.c
	c.SetModel(data)
	c.Stage("loading " + what)
	one := func(m *leaves.Ensemble, err error, how string) {
		c.States(1)
		c.Trans(1)
		c.Evals(1)
		if err != nil {
			if m != nil {
				c.Failf("%s (%s): an error and an ensemble: %v", what, how, err)
			}
			if want == accept {
				c.Failf("%s (%s) is refused: %v", what, how, err)
			}
			return
		}
		if want == refuse {
			c.Failf("%s (%s) is accepted by the loader for %s as %s (%d features, %d groups, %d estimators, %s)", what, how, famName[fam], m.Name(), m.NFeatures(), m.NRawOutputGroups(), m.NEstimators(), m.Transformation().Name())
		}
		c.Stage("predicting with " + what)
		if m.Name() != e.name() || m.NFeatures() != e.NFeat || m.NRawOutputGroups() != e.Groups || m.NEstimators() != e.stages() || m.Transformation().Name() != linkName[e.link()] {
			c.Failf("%s (%s) loads as %s (%d features, %d groups, %d estimators, %s)\n%s", what, how, m.Name(), m.NFeatures(), m.NRawOutputGroups(), m.NEstimators(), m.Transformation().Name(), e)
		}
		for _, r := range rowPool(e, 12) {
			o := make([]float64, m.NOutputGroups())
			if err := m.Predict(r, 0, o); err != nil {
				c.Failf("%s (%s): %v", what, how, err)
			}
			if w := e.expect(viewOrig, r, 0); !closeAll(o, w, close12) {
				c.Failf("%s (%s) is accepted but row %v gives %v, want %v\n%s", what, how, r, o, w, e)
			}
			c.Traces(1)
		}
	}
	m, err := loadBytes(fam, data, tr)
	one(m, err, "from a reader")
	if k.n%8 == 0 { // all loaders share the code behind the file
		if err := os.WriteFile(k.path, data, 0644); err != nil {
			c.Failf("%v", err)
		}
		m, err = loadFile(fam, k.path, tr)
		one(m, err, "from a file")
	}
	k.n++
}

// nameEdits are the spellings next to a name, without the name itself
func nameEdits(s string) []string {
	seen := map[string]bool{s: true}
	var out []string
	add := func(x string) {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	for i := 0; i <= len(s); i++ {
		add(s[:i])
		add(s[i:])
		for _, ch := range []string{"\x00", " ", "x", "2", ".", "_", "\n", "-"} {
			add(s[:i] + ch + s[i:])
		}
		if i < len(s) {
			add(s[:i] + s[i+1:])
			add(s[:i] + s[i:i+1] + s[i:])
			for _, ch := range []byte{0, ' ', 'x', 'A', s[i] ^ 0x20, s[i] ^ 1, s[i] | 0x80} {
				add(s[:i] + string([]byte{ch}) + s[i+1:])
			}
		}
		if i+1 < len(s) {
			add(s[:i] + s[i+1:i+2] + s[i:i+1] + s[i+2:])
		}
	}
	add(strings.ToUpper(s))
	add(strings.Title(s))
	add(s + s)
	add("my" + s)
	return out
}

func runKinds(x *X) {
	// A: every loader and every kind of file
	type file struct {
		name string
		fam  int // -1: not a model
		load bool
		data func() []byte
		e    *Ens
	}
	var files []file
	for _, m := range smallModels(x.Thorough) {
		m := m
		files = append(files, file{m.name, m.fam, m.load, func() []byte { return m.data }, m.e})
	}
	for _, r := range realFiles {
		r := r
		files = append(files, file{r.file, r.fam, r.load, func() []byte {
			b, _ := os.ReadFile(filepath.Join(repoDir(), "testdata", r.file))
			return b
		}, nil})
	}
	for _, s := range []string{"", "\n", "\x00", "1\t2\t3\n4\t5\t6\n", "1 0:1 1:2.5\n0 1:3\n", "{}", "[]", "null", "tree\n", "tree\nversion=v3\n", "N.", "(dp0\n.", "\x80\x02}q\x00.", "\x80\x03]q\x00.", "\x80\x04\x95\x00\x00\x00\x00\x00\x00\x00\x00}.",
		"booster[0]:\n0:[f0<0.5] yes=1,no=2,missing=1\n\t1:leaf=1\n\t2:leaf=2\n", `{"learner":{"gradient_booster":{"name":"gbtree","model":{"trees":[]}}},"version":[1,0,0]}`, "binf", "bs64", "{L\x00\x00", "CBM1\x10\x00\x00\x00", "PK\x03\x04", "\x1f\x8b\x08\x00"} {
		s := s
		files = append(files, file{fmt.Sprintf("the text %q", s), -1, false, func() []byte { return []byte(s) }, nil}, file{fmt.Sprintf("the text %q and zeros", s), -1, false, func() []byte { return append([]byte(s), make([]byte, 4096)...) }, nil})
	}
	for _, f := range files {
		f := f
		x.Case(func() string { return f.name + " in every loader" }, func(c *C) {
			k := newKinds(c)
			defer os.Remove(k.path)
			data := f.data()
			for fam := 0; fam < numFamilies; fam++ {
				if fam == famDart {
					continue
				}
				for _, tr := range []bool{false, true} {
					same := fam == f.fam || (fam == famXGB && f.fam == famDart)
					k.n = 0
					if !same {
						k.load(fam, data, tr, refuse, nil, f.name)
					} else if f.e != nil && (tr == f.load || canLoad(fam)) {
						e := *f.e
						e.Load = tr
						if tr && !f.load {
							continue // has perhaps no link function that is known (C10)
						}
						k.load(fam, data, tr, accept, &e, f.name)
					}
				}
			}
			c.Distinct(hash(f.name))
		})
	}
	// B: XGBoost's names and numbers
	for _, fam := range []int{famXGB, famDart, famLinear} {
		fam := fam
		own := []string{"gbtree", "dart", "gblinear"}[fam-famXGB]
		for _, g := range []int{1, 2, 3} {
			g := g
			build := func() (*Ens, []byte, int) { // the model, its bytes and the position of the booster's name
				e := zooEns(fam, 2, g, 2, 1, false)
				d := xgBytes(e, XGOpt{})
				n := int(binary.LittleEndian.Uint64(d[136:]))
				return e, d, 136 + 8 + n
			}
			x.Case(func() string { return fmt.Sprintf("names of boosters in a %s model of %d groups", own, g) }, func(c *C) {
				k := newKinds(c)
				defer os.Remove(k.path)
				e, d, at := build()
				if string(d[at+8:at+8+len(own)]) != own {
					c.Failf("the machinery has lost the name of the booster")
				}
				with := func(name string) []byte {
					var b binw
					b.Write(d[:at])
					b.str(name)
					b.Write(d[at+8+len(own):])
					return b.Bytes()
				}
				names := append(nameEdits("gbtree"), append(nameEdits("dart"), nameEdits("gblinear")...)...)
				names = append(names, "gbtree", "dart", "gblinear", "gpu_gbtree", "gbdt", "goss", "rf", "xgboost.gbtree", "xgboost.dart", "gbtree,dart", "binary:logistic", "multi:softprob", strings.Repeat("gbtree", 1000))
				for _, name := range names {
					for l := famXGB; l <= famLinear; l++ {
						if l == famDart {
							continue
						}
						want := refuse
						if name == own && (l == famLinear) == (fam == famLinear) {
							want = accept
						} else if name == "gbtree" && fam == famDart && l == famXGB {
							continue // the drop weights are trailing data then
						}
						k.load(l, with(name), false, want, e, fmt.Sprintf("a %s model with the booster name %q", own, name))
					}
				}
				c.Distinct(hash("names", fam, g))
			})
			if fam == famLinear {
				x.Case(func() string { return fmt.Sprintf("numbers of weights of gblinear, %d groups", g) }, func(c *C) {
					k := newKinds(c)
					defer os.Remove(k.path)
					for nf := 1; nf <= 4; nf++ {
						for mg := -1; mg <= 4; mg++ {
							for nw := 0; nw <= 26; nw++ {
								e := zooEns(famLinear, nf, max(mg, 1), 1, 0, false)
								d := xgBytes(e, XGOpt{})
								at := len(d) - 4*len(e.Weights) - 8
								binary.LittleEndian.PutUint32(d[at-33*4:], uint32(int32(mg)))
								binary.LittleEndian.PutUint64(d[at:], uint64(nw))
								d = d[:at+8]
								for i := 0; i < nw; i++ {
									w := float32(7)
									if i < len(e.Weights) {
										w = e.Weights[i]
									}
									var b binw
									b.f32(w)
									d = append(d, b.Bytes()...)
								}
								want := refuse
								if mg >= 1 && nw == (nf+1)*mg {
									want = accept
								}
								k.load(famLinear, d, false, want, e, fmt.Sprintf("gblinear with %d features, %d groups, %d weights", nf, mg, nw))
							}
						}
					}
					c.Distinct(hash("weights", g))
				})
				continue
			}
			x.Case(func() string { return fmt.Sprintf("roots, trees and groups of a %s model of %d groups", own, g) }, func(c *C) {
				k := newKinds(c)
				defer os.Remove(k.path)
				e, d, at := build()
				p := at + 8 + len(own) // the parameters of the trees
				put := func(at int, v int32) []byte {
					n := append([]byte(nil), d...)
					binary.LittleEndian.PutUint32(n[at:], uint32(v))
					return n
				}
				// every tree's own parameters
				var trees []int
				q := p + 160
				for range e.Trees {
					trees = append(trees, q)
					nodes := int(binary.LittleEndian.Uint32(d[q+4:]))
					q += 37*4 + nodes*(20+16)
				}
				for _, v := range []int32{0, 2, 3, -1, 255, 256, 257, 1 << 16, 1<<16 + 1, 1 << 30, -1 << 31, 1<<31 - 1} {
					k.load(famXGB, put(p+4, v), false, refuse, nil, fmt.Sprintf("a %s model with %d roots", own, v))
					for i, t := range trees {
						k.load(famXGB, put(t, v), false, refuse, nil, fmt.Sprintf("a %s model with %d roots in tree %d of %d", own, v, i, len(trees)))
					}
				}
				// all assignments of the trees to groups, all numbers of groups
				info := q
				for mg := int32(-1); mg <= int32(len(trees))+1; mg++ {
					var rec func(i int, cur []byte, ok bool)
					rec = func(i int, cur []byte, ok bool) {
						if i == len(trees) {
							want, e := refuse, e
							if ok && mg >= 1 && len(trees)%int(mg) == 0 {
								e2 := *e
								e2.Groups = int(mg)
								want, e = accept, &e2
							}
							k.load(famXGB, cur, false, want, e, fmt.Sprintf("a %s model of %d trees with %d groups and the tree info %v", own, len(trees), mg, cur[info:info+4*len(trees)]))
							return
						}
						for v := int32(-1); v <= int32(g); v++ {
							if len(trees) > 4 && v != int32(i%g) && (v != 0 && v != -1 && v != int32((i+1)%g)) {
								continue
							}
							n := append([]byte(nil), cur...)
							binary.LittleEndian.PutUint32(n[info+4*i:], uint32(v))
							rec(i+1, n, ok && mg >= 1 && v == int32(i)%mg)
						}
					}
					rec(0, put(p+24, mg), true)
				}
				if fam == famDart {
					at := info + 4*len(trees)
					for n := 0; n <= len(trees)+3; n++ {
						var b binw
						b.Write(d[:at])
						b.u64(uint64(n))
						for i := 0; i < n; i++ {
							w := float32(3)
							if i < len(e.Drop) {
								w = e.Drop[i]
							}
							b.f32(w)
						}
						want := refuse
						if n == len(trees) {
							want = accept
						}
						k.load(famXGB, b.Bytes(), false, want, e, fmt.Sprintf("a dart model of %d trees with %d weights", len(trees), n))
					}
				}
				// no trees at all
				var b binw
				b.Write(d[:p])
				b.i32(0)
				b.Write(d[p+4 : p+160])
				if fam == famDart {
					b.u64(0)
				}
				b.zeros(64)
				k.load(famXGB, b.Bytes(), false, refuse, nil, "a "+own+" model without trees")
				c.Distinct(hash("roots", fam, g))
			})
		}
	}
	// C: LightGBM's names, versions, classes and kinds of decisions
	for g := 1; g <= 4; g++ {
		for st := 1; st <= 3; st++ {
			for v := 0; v < 3; v++ {
				g, st, v := g, st, v
				x.Case(func() string {
					return fmt.Sprintf("versions and classes of LightGBM models of %d groups, %d iterations (variant %d)", g, st, v)
				}, func(c *C) {
					kindsLG(c, g, st, v)
				})
			}
		}
	}
	// D: scikit-learn's classes and shapes
	for _, g := range []int{1, 3, 4} {
		for st := 1; st <= 3; st++ {
			g, st := g, st
			if !x.Thorough && g*st > 6 {
				continue
			}
			if st == 1 || x.Thorough {
				for part := 0; part < 8; part++ {
					part := part
					x.Case(func() string {
						return fmt.Sprintf("classes of a pickle of %d groups, %d stages, part %d", g, st, part)
					}, func(c *C) { kindsSKNames(c, g, st, part) })
				}
			}
			x.Case(func() string { return fmt.Sprintf("shapes of a pickle of %d groups, %d stages", g, st) }, func(c *C) { kindsSKShapes(c, g, st) })
		}
	}
}

func kindsLG(c *C, g, st, v int) {
	k := newKinds(c)
	defer os.Remove(k.path)
	trees := g * st
	c.Distinct(hash("lg", g, st, v))
	grid := func(fam int, e *Ens, build func(nc, nt int) []byte) {
		for nc := -1; nc <= trees+1; nc++ {
			for nt := -1; nt <= trees+1; nt++ {
				want, w := refuse, e
				if nc == nt && nc >= 1 && trees%nc == 0 {
					e2 := *e
					e2.Groups = nc
					want, w = accept, &e2
				}
				k.load(fam, build(nc, nt), false, want, w, fmt.Sprintf("a model of %d trees with num_class %d and num_tree_per_iteration %d", trees, nc, nt))
			}
		}
	}
	// JSON
	e := zooEns(famLGJSON, 2+v%2, g, st, v, false)
	d := lgJSON(e)
	swap := func(old, new string, n int) []byte {
		parts := bytes.SplitN(d, []byte(old), n+2)
		if len(parts) < n+2 {
			return nil
		}
		at := 0
		for i := 0; i <= n; i++ {
			at += len(parts[i])
		}
		at += n * len(old)
		return append(append(append([]byte(nil), d[:at]...), new...), d[at+len(old):]...)
	}
	must := func(old, new string) []byte {
		b := swap(old, new, 0)
		if b == nil {
			c.Failf("the machinery does not find %s", old)
		}
		return b
	}
	grid(famLGJSON, e, func(nc, nt int) []byte {
		return bytes.Replace(must(fmt.Sprintf(`"num_class":%d`, g), fmt.Sprintf(`"num_class":%d`, nc)), []byte(fmt.Sprintf(`"num_tree_per_iteration":%d`, g)), []byte(fmt.Sprintf(`"num_tree_per_iteration":%d`, nt)), 1)
	})
	for _, f := range []struct{ key, val string }{{"name", "tree"}, {"version", "v2"}} {
		old := fmt.Sprintf(`"%s":"%s",`, f.key, f.val)
		for _, n := range append(nameEdits(f.val), "v1", "v3", "v4", "v5", "v10", "v20", "v22", "gbdt", "forest", "linear", "dart") {
			if !jsonPlain(n) {
				n = strings.Replace(strings.Replace(n, "\x00", `\u0000`, -1), "\n", `\n`, -1)
				if !jsonPlain(n) {
					continue
				}
			}
			k.load(famLGJSON, must(old, fmt.Sprintf(`"%s":"%s",`, f.key, n)), false, refuse, nil, fmt.Sprintf("a JSON model with %s %q", f.key, n))
		}
		for _, n := range []string{"", fmt.Sprintf(`"%s":null,`, f.key), fmt.Sprintf(`"%s":2,`, f.key), fmt.Sprintf(`"%s":["%s"],`, f.key, f.val), fmt.Sprintf(`"%s":{"%s":1},`, f.key, f.val), fmt.Sprintf(`"%s":"",`, f.key), fmt.Sprintf(`"%s":true,`, f.key),
			fmt.Sprintf(`"the_%s":"%s",`, f.key, f.val)} {
			k.load(famLGJSON, must(old, n), false, refuse, nil, fmt.Sprintf("a JSON model with %q instead of %s", n, f.key))
		}
	}
	for _, key := range []string{fmt.Sprintf(`"num_class":%d,`, g), fmt.Sprintf(`"num_tree_per_iteration":%d,`, g)} {
		k.load(famLGJSON, must(key, ""), false, refuse, nil, "a JSON model without "+key)
		k.load(famLGJSON, must(key, strings.Replace(key, ":", `:"`, 1)[:len(key)]+`",`), false, refuse, nil, "a JSON model with a string for "+key)
		k.load(famLGJSON, must(key, key[:len(key)-1]+".5,"), false, refuse, nil, "a JSON model with a fraction for "+key)
	}
	// kinds of decisions, at every node
	for n := 0; ; n++ {
		any := false
		for _, op := range []string{`"decision_type":"<="`, `"decision_type":"=="`} {
			for _, to := range []string{"<", ">", ">=", "=", "!=", "in", "not in", "is", "", "<==", "===", "<= ", " <=", " ==", "== ", "LE", "le", "no_greater", "categorical", "null"} {
				new := fmt.Sprintf(`"decision_type":"%s"`, to)
				if to == "null" {
					new = `"decision_type":null`
				}
				if b := swap(op, new, n); b != nil {
					any = true
					k.load(famLGJSON, b, false, refuse, nil, fmt.Sprintf("a JSON model whose decision %d is %q", n, to))
				}
			}
			if b := swap(op+",", "", n); b != nil {
				k.load(famLGJSON, b, false, refuse, nil, fmt.Sprintf("a JSON model without the kind of decision %d", n))
			}
		}
		for _, mt := range missName {
			for _, to := range append(nameEdits(mt), "Inf", "Missing", "0") {
				if to == "None" || to == "Zero" || to == "NaN" || !jsonPlain(to) {
					continue
				}
				if b := swap(`"missing_type":"`+mt+`"`, `"missing_type":"`+to+`"`, n); b != nil {
					any = true
					k.load(famLGJSON, b, false, refuse, nil, fmt.Sprintf("a JSON model with missing type %q", to))
				}
			}
		}
		if !any || n > 20 {
			break
		}
	}
	k.load(famLGJSON, d, false, accept, e, "the JSON model")
	// text
	e = zooEns(famLGText, 2+v%2, g, st, v, false)
	e.RF = v == 2
	doc := lgDocOf(e)
	if e.RF && lineOf(doc.head, "average_output") < 0 {
		c.Failf("the machinery has lost average_output")
	}
	set := func(k, v string) []byte {
		n := doc.clone()
		n.head[lineOf(n.head, k)].V = v
		return n.bytes()
	}
	grid(famLGText, e, func(nc, nt int) []byte {
		n := doc.clone()
		n.head[lineOf(n.head, "num_class")].V = fmt.Sprint(nc)
		n.head[lineOf(n.head, "num_tree_per_iteration")].V = fmt.Sprint(nt)
		return n.bytes()
	})
	for _, own := range []string{"v2", "v3"} {
		k.load(famLGText, set("version", own), false, accept, e, "a text model of version "+own)
		for _, n := range append(nameEdits(own), "v1", "v4", "v5", "v10", "v20", "v22", "v2.1", "v3.3.2") {
			if s := strings.TrimSpace(n); s == "v2" || s == "v3" || strings.ContainsAny(n, "\n") {
				continue
			}
			k.load(famLGText, set("version", n), false, refuse, nil, fmt.Sprintf("a text model of version %q", n))
		}
	}
	// more and fewer trees than there are
	for i := range doc.trees {
		for j := range e.Trees[i].Nodes {
			for dt := 0; dt < 16; dt++ {
				n := doc.clone()
				p := lineOf(n.trees[i], "decision_type")
				f := strings.Fields(n.trees[i][p].V)
				nd := &e.Trees[i].Nodes[j]
				cat := 0
				if nd.Cat {
					cat = 1
				}
				if dt&1 != cat { // the threshold means another thing then
					continue
				}
				f[j] = fmt.Sprint(dt)
				n.trees[i][p].V = strings.Join(f, " ")
				if dt>>2&3 == 3 {
					k.load(famLGText, n.bytes(), false, refuse, nil, fmt.Sprintf("decision type %d of node %d of tree %d", dt, j, i))
					continue
				}
				e2 := *e
				e2.Trees = append([]Tree(nil), e.Trees...)
				e2.Trees[i] = cloneTree(e.Trees[i])
				e2.Trees[i].Nodes[j].Missing = dt >> 2 & 3
				e2.Trees[i].Nodes[j].DefLeft = dt&2 != 0
				k.load(famLGText, n.bytes(), false, accept, &e2, fmt.Sprintf("decision type %d of node %d of tree %d", dt, j, i))
			}
		}
		for _, l := range []struct {
			v    string
			want int
		}{{"0", accept}, {"1", refuse}, {"2", refuse}, {"-1", refuse}, {"true", refuse}} {
			n := doc.clone()
			n.trees[i] = append(n.trees[i], kv{"is_linear", l.v}, kv{"leaf_const", "1 2 3"}, kv{"num_features", "1 1 1"})
			k.load(famLGText, n.bytes(), false, l.want, e, fmt.Sprintf("is_linear=%s in tree %d", l.v, i))
		}
	}
}

func jsonPlain(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < ' ' || s[i] > '~' || s[i] == '"' {
			return false
		}
	}
	return true
}

// globalsOf are the distinct globals of an object graph in a fixed order
func globalsOf(o interface{}) []*pyGlobal {
	var gs []*pyGlobal
	seen := map[interface{}]bool{}
	var rec func(o interface{})
	rec = func(o interface{}) {
		switch x := o.(type) {
		case *pyGlobal:
			if !seen[x] {
				seen[x] = true
				gs = append(gs, x)
			}
		case *pyTuple:
			if !seen[x] {
				seen[x] = true
				for _, v := range x.v {
					rec(v)
				}
			}
		case *pyList:
			if !seen[x] {
				seen[x] = true
				for _, v := range x.v {
					rec(v)
				}
			}
		case *pyDict:
			if !seen[x] {
				seen[x] = true
				for _, v := range x.kv {
					rec(v)
				}
			}
		case *pyReduce:
			if !seen[x] {
				seen[x] = true
				rec(x.callable)
				rec(x.args)
				rec(x.state)
			}
		}
	}
	rec(o)
	return gs
}

var otherClasses = []string{"GradientBoostingRegressor", "GradientBoostingClassifierCV", "BaseGradientBoosting", "HistGradientBoostingClassifier", "RandomForestClassifier", "ExtraTreesClassifier", "AdaBoostClassifier", "DecisionTreeClassifier", "DecisionTreeRegressor",
	"ExtraTreeRegressor", "ExtraTreeClassifier", "Tree", "ZeroEstimator", "ScaledLogOddsEstimator", "MeanEstimator", "QuantileEstimator", "LogOddsEstimator", "PriorProbabilityEstimator", "DummyClassifier", "GradientBoostingClassifier", "XGBClassifier", "Pipeline", "object", "dtype", "ndarray", "_reconstruct", "scalar"}

func kindsSKNames(c *C, g, st, part int) {
	k := newKinds(c)
	defer os.Remove(k.path)
	c.Distinct(hash("sk names", g, st, part))
	e := zooEns(famSK, 3, g, st, 1, false)
	n := 0
	skBytes(e, SKOpt{Mutate: func(p *pickler, root *pyReduce) { n = len(globalsOf(root)) }})
	for i := part; i < n; i += 8 {
		// what decides about the kind, and what is only a container
		try := func(edit func(x *pyGlobal) bool, strict bool) {
			what, skip := "", false
			want := either
			d := skBytes(e, SKOpt{Mutate: func(p *pickler, root *pyReduce) {
				x := globalsOf(root)[i]
				old := *x
				switch old.name {
				case "GradientBoostingClassifier", "DecisionTreeRegressor", "Tree", "LogOddsEstimator", "PriorProbabilityEstimator":
					if strict {
						want = refuse
					}
				}
				skip = !edit(x) || *x == old
				what = fmt.Sprintf("%s.%s instead of %s.%s", x.mod, x.name, old.mod, old.name)
			}})
			if !skip {
				k.load(famSK, d, false, want, e, "a pickle with "+what)
			}
		}
		var own pyGlobal
		skBytes(e, SKOpt{Mutate: func(p *pickler, root *pyReduce) { own = *globalsOf(root)[i] }})
		for _, name := range append(nameEdits(own.name), otherClasses...) {
			if strings.Contains(name, "\n") {
				continue
			}
			name := name
			try(func(x *pyGlobal) bool { x.name = name; return true }, true)
		}
		for _, mod := range append(nameEdits(own.mod), "mypkg", "mypkg.models", "__main__", "xgboost.sklearn", "lightgbm.sklearn", "catboost.core", "builtins", "os", "numpy", "numpy.core.multiarray", "copy_reg", "__builtin__", "_codecs") {
			if strings.Contains(mod, "\n") {
				continue
			}
			mod := mod
			try(func(x *pyGlobal) bool { x.mod = mod; return true }, true)
		}
		for _, mod := range []string{"sklearn", "sklearn.ensemble", "sklearn.ensemble._gb", "sklearn.tree", "sklearn.tree._classes", "copyreg", "numpy._core.multiarray"} {
			mod := mod
			try(func(x *pyGlobal) bool { x.mod = mod; return true }, false)
		}
		try(func(x *pyGlobal) bool { x.mod, x.name = x.mod+"."+x.name, ""; return true }, true)
		try(func(x *pyGlobal) bool { x.mod, x.name = x.name, x.mod; return true }, true)
	}
	// the whole in something else
	for _, w := range []struct {
		what string
		f    func(p *pickler, r *pyReduce) interface{}
	}{
		{"in a list", func(p *pickler, r *pyReduce) interface{} { return &pyList{[]interface{}{r}} }},
		{"in a tuple", func(p *pickler, r *pyReduce) interface{} { return tup(r) }},
		{"in a dictionary", func(p *pickler, r *pyReduce) interface{} { return &pyDict{[]interface{}{p.str("model"), r}} }},
		{"its state only", func(p *pickler, r *pyReduce) interface{} { return r.state }},
		{"its class only", func(p *pickler, r *pyReduce) interface{} { return r.args.v[0] }},
		{"without state", func(p *pickler, r *pyReduce) interface{} { r.state = nil; return r }},
		{"nothing", func(p *pickler, r *pyReduce) interface{} { return pyNone{} }},
		{"the first of its trees", func(p *pickler, r *pyReduce) interface{} {
			var t interface{}
			pickleSlots("", r, map[interface{}]bool{}, func(s objSlot) {
				if x, ok := s.get().(*pyReduce); ok && t == nil && x.args != nil && len(x.args.v) > 0 {
					if g, ok := x.args.v[0].(*pyGlobal); ok && g.name == "DecisionTreeRegressor" {
						t = x
					}
				}
			})
			if t == nil {
				c.Failf("the machinery does not find the tree")
			}
			return t
		}},
		{"in a search", func(p *pickler, r *pyReduce) interface{} {
			s := &skb{p: p, dts: map[string]*pyReduce{}}
			return s.object("sklearn.model_selection._search", "GridSearchCV", s.dict("best_estimator_", r))
		}},
	} {
		d := dumpPickle(PickleOpt{}, func(p *pickler) interface{} { return w.f(p, skBuild(p, e, SKOpt{})) })
		k.load(famSK, d, false, refuse, nil, "a pickled model "+w.what)
	}
	k.load(famSK, skBytes(e, SKOpt{}), false, accept, e, "the pickle")
	k.load(famSK, skBytes(e, SKOpt{}), true, either, e, "the pickle with its transformation")
}

func kindsSKShapes(c *C, g, st int) {
	k := newKinds(c)
	defer os.Remove(k.path)
	c.Distinct(hash("sk shapes", g, st))
	e := zooEns(famSK, 2, g, st, 1, false)
	trees := g * st
	field := func(root *pyReduce, name string) *interface{} {
		d := root.state.(*pyDict)
		for i := 0; i+1 < len(d.kv); i += 2 {
			if d.kv[i].(*pyStr).s == name {
				return &d.kv[i+1]
			}
		}
		c.Failf("the machinery does not find %s", name)
		return nil
	}
	array := func(o interface{}) (shape *pyTuple, data *interface{}) {
		st := o.(*pyReduce).state.(*pyTuple)
		return st.v[1].(*pyTuple), &st.v[4]
	}
	// classes x rows x columns x estimators
	for nc := -1; nc <= 5; nc++ {
		for _, rows := range near(trees+1, 0, 1, st-1, st, st+1, g, trees) {
			for _, cols := range near(trees+1, 0, 1, g-1, g, g+1, st, trees) {
				for ne := 0; ne <= st+1; ne++ {
					for _, listed := range []int{trees, rows * cols, trees - 1} {
						for _, full := range []bool{false, true} { // are the classes themselves of that number
							if !full && nc == e.Groups+btoi(e.Groups == 1) {
								continue
							}
							d := skBytes(e, SKOpt{Mutate: func(p *pickler, root *pyReduce) {
								*field(root, "n_classes_") = pyLong(nc)
								*field(root, "n_estimators") = pyLong(ne)
								sh, data := array(*field(root, "estimators_"))
								sh.v[0], sh.v[1] = pyLong(rows), pyLong(cols)
								l := (*data).(*pyList)
								for len(l.v) < listed {
									l.v = append(l.v, l.v[len(l.v)-1])
								}
								l.v = l.v[:listed]
								if full {
									s := &skb{p: p, dts: map[string]*pyReduce{}}
									var cls []int
									for i := 0; i < nc; i++ {
										cls = append(cls, i)
									}
									*field(root, "classes_") = s.array([]int{max(nc, 0)}, s.dtype("i8", false), s.raw(i64s(cls...)))
								}
							}})
							own := nc
							if nc == 2 {
								own = 1
							}
							want := refuse
							if nc == e.Groups+btoi(e.Groups == 1) && rows == st && cols == g && ne == st && listed == trees {
								want = accept
							}
							// the priors are those of g groups, so no other number of groups fits; the initial estimator of one group has a prior for every group, however many
							if want == refuse && (own == e.Groups || g == 1) && nc >= 2 && rows == ne && ne >= 1 && cols == own && listed == rows*cols {
								// a shorter or longer model of the same classes: as many stages as there are
								want = either
							}
							if want == either && !full {
								want = refuse
							}
							e2 := e
							if want == either {
								x := *e
								x.Trees, x.Groups = nil, own
								for len(x.Prior) < own {
									x.Prior = append(cloneF(x.Prior), x.Prior[0])
								}
								for i := 0; i < listed; i++ {
									x.Trees = append(x.Trees, e.Trees[min(i, len(e.Trees)-1)])
								}
								e2 = &x
							}
							k.load(famSK, d, false, want, e2, fmt.Sprintf("a pickle with %d classes (of %d, the array changed: %v), estimators of %dx%d (of %dx%d) in a list of %d, n_estimators %d", nc, e.Groups, full, rows, cols, st, g, listed, ne))
						}
					}
				}
			}
		}
	}
	// priors
	for n := 0; n <= 6; n++ {
		for _, kind := range []string{"LogOddsEstimator", "PriorProbabilityEstimator"} {
			d := skBytes(e, SKOpt{Mutate: func(p *pickler, root *pyReduce) {
				s := &skb{p: p, dts: map[string]*pyReduce{}}
				var pr []float64
				for i := 0; i < n; i++ {
					pr = append(pr, e.Prior[min(i, len(e.Prior)-1)])
				}
				var st *pyDict
				if kind == "LogOddsEstimator" {
					st = s.dict("prior", s.scalar(s.dtype("f8", false), f64s(false, pr...)))
				} else {
					st = s.dict("priors", s.array([]int{n}, s.dtype("f8", false), s.raw(f64s(false, pr...))))
				}
				*field(root, "init_") = s.object("sklearn.ensemble.gradient_boosting", kind, st)
			}})
			want := refuse
			w := e
			if kind == "PriorProbabilityEstimator" && n == g {
				want = accept
				if g == 1 {
					want = either
				}
			} else if kind == "LogOddsEstimator" && n == 1 {
				// one prior for all the classes is not what scikit-learn makes of more than two
				want = accept
				if g > 1 {
					want = either
					x := *e
					x.Prior = nil
					for range e.Prior {
						x.Prior = append(x.Prior, e.Prior[0])
					}
					w = &x
				}
			}
			k.load(famSK, d, false, want, w, fmt.Sprintf("a pickle of %d groups with %d priors of a %s", g, n, kind))
		}
	}
}

// near are the distinct numbers in [0, top]
func near(top int, vs ...int) []int {
	var out []int
next:
	for _, v := range vs {
		for _, o := range out {
			if o == v {
				continue next
			}
		}
		if v >= 0 && v <= top {
			out = append(out, v)
		}
	}
	return out
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

func init() {
	register(&Check{ID: "C27", Level: "model_checking", Run: runKinds,
		Rule: "every loader x every kind of file; every spelling next to the names and versions that say what a file is (boosters, LightGBM names and versions, Python classes and modules); number of classes x trees per iteration x trees, tree infos, roots, weights, priors, shapes of the estimators; kinds of decisions and of missing values at every node; one state per load"})
}
