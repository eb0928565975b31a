//go:build go1.23

package main

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	"github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/transformation"
)

// ---- C21: metadata --------------------------------------------------------------------------------------------------

var linkType = [...]transformation.TransformType{transformation.Raw, transformation.Logistic, transformation.Softmax, transformation.Exponential}

// metaCase compares the reported metadata with those of the model and uses rows of exactly NFeatures values
func metaCase(c *C, e *Ens, m *leaves.Ensemble, what string) {
	type view struct {
		name string
		m    *leaves.Ensemble
		v    int
	}
	raw, leaf := m.EnsembleWithRawPredictions(), m.EnsembleWithLeafPredictions()
	views := []view{{"original", m, viewOrig}, {"raw view", raw, viewRaw}, {"leaf view", leaf, viewLeaf},
		{"raw view of the leaf view", leaf.EnsembleWithRawPredictions(), viewRaw}, {"leaf view of the raw view", raw.EnsembleWithLeafPredictions(), viewLeaf},
		{"raw view of the raw view", raw.EnsembleWithRawPredictions(), viewRaw}, {"leaf view of the leaf view", leaf.EnsembleWithLeafPredictions(), viewLeaf},
		{"original again", m, viewOrig}}
	nl := e.nLeaves()
	for _, v := range views {
		no := e.nOut(v.v)
		link := linkName[e.link()]
		typ := linkType[e.link()]
		switch v.v {
		case viewRaw:
			link, typ = "raw", transformation.Raw
		case viewLeaf:
			link, typ = transformation.LeafIndex.Name(), transformation.LeafIndex
		}
		bad := func(key string, got, want interface{}) {
			c.Failf("%s, %s: %s is %v, want %v\n%s", what, v.name, key, got, want, e)
		}
		if g := v.m.Name(); g != e.name() {
			bad("Name", g, e.name())
		}
		if g := v.m.NFeatures(); g != e.NFeat {
			bad("NFeatures", g, e.NFeat)
		}
		if g := v.m.NEstimators(); g != e.stages() {
			bad("NEstimators", g, e.stages())
		}
		if g := v.m.NRawOutputGroups(); g != e.Groups {
			bad("NRawOutputGroups", g, e.Groups)
		}
		if g := v.m.NOutputGroups(); g != no {
			bad("NOutputGroups", g, no)
		}
		if g := v.m.Transformation().Name(); g != link {
			bad("transformation name", g, link)
		}
		if g := v.m.Transformation().Type(); g != typ {
			bad("transformation type", g, typ)
		}
		if g := v.m.Transformation().NOutputGroups(); g != no {
			bad("outputs of the transformation", g, no)
		}
		if g := v.m.NLeaves(); fmt.Sprint(g) != fmt.Sprint(nl) {
			bad("NLeaves", g, nl)
		}
		c.States(1)
		c.Trans(9)
		c.Traces(1)
		// rows of exactly NFeatures values, outputs of exactly NOutputGroups
		leafless := v.v == viewLeaf && e.Fam == famLinear
		row := make([]float64, v.m.NFeatures())
		for i := range row {
			row[i] = float64(i%3) - 0.5
		}
		want := e.expect(v.v, row, 0)
		cmp := func(call string, err error, got []float64) {
			if leafless {
				if err == nil {
					c.Failf("%s, %s: %s: leaf predictions of a model without trees succeed", what, v.name, call)
				}
				return
			}
			if err != nil {
				c.Failf("%s, %s: %s: %v\n%s", what, v.name, call, err, e)
			}
			for i := 0; i < len(got); i += no {
				if v.v == viewLeaf && !e.leafExact() {
					for k := 0; k < no; k++ {
						if x := got[i+k]; x < 0 || x >= float64(nl[k]) || x != float64(int(x)) {
							c.Failf("%s, %s: %s: leaf %v of a tree of %d leaves\n%s", what, v.name, call, x, nl[k], e)
						}
					}
				} else if !closeAll(got[i:i+no], want, close12) {
					c.Failf("%s, %s: %s: row %d is %v, want %v\n%s", what, v.name, call, i/no, got[i:i+no], want, e)
				}
			}
			c.Traces(1)
		}
		o := make([]float64, v.m.NOutputGroups())
		err := v.m.Predict(row, 0, o)
		cmp("Predict", err, o)
		if no == 1 && !leafless {
			cmp("PredictSingle", nil, []float64{v.m.PredictSingle(row, 0)})
		}
		for _, n := range []int{1, 2, 17, 33} {
			for _, th := range []int{1, 3} {
				if n < 16 && th > 1 {
					continue
				}
				rows := make([][]float64, n)
				for i := range rows {
					rows[i] = row
				}
				o = make([]float64, n*no)
				err = v.m.PredictDense(flat(rows, 0), n, len(row), o, 0, th)
				cmp(fmt.Sprintf("PredictDense of %d rows, %d threads", n, th), err, o)
				o = make([]float64, n*no)
				sp := e.csrOf(rows, false)
				err = v.m.PredictCSR(sp.indptr, sp.cols, sp.vals, o, 0, th)
				cmp(fmt.Sprintf("PredictCSR of %d rows, %d threads", n, th), err, o)
			}
		}
	}
}

func runMeta(x *X) {
	hugeMeta(x)
	feats := []int{1, 2, 3, 8}
	stages := []int{1, 2, 3, 5}
	groups := []int{1, 2, 3, 5}
	vmax := 3
	if x.Thorough {
		feats = append(feats, 4, 5, 33, 128, 300)
		stages = append(stages, 4, 16, 50)
		groups = append(groups, 4, 6, 10)
		vmax = 12
	}
	for fam := 0; fam < numFamilies; fam++ {
		for _, nf := range feats {
			for _, g := range groups {
				for _, st := range stages {
					for _, load := range []bool{false, true} {
						if load && !canLoad(fam) || !canGroups(fam, g, load) || fam == famLinear && st > 1 {
							continue
						}
						if load && fam == famLinear && g > 1 {
							continue
						}
						for v := 0; v < vmax; v++ {
							e := zooEns(fam, nf, g, st, v, load)
							if fam == famLGText && v%3 == 2 && !load {
								e.RF = true
							}
							if load && fam == famLGText && g > 1 {
								e.Objective = fmt.Sprintf("multiclass num_class:%d", g)
							}
							x.Case(func() string { return e.String() }, func(c *C) {
								metaCase(c, e, e.load(c), "model")
							})
						}
					}
				}
			}
		}
	}
	// the header of the model tells the number of features, whatever that of the trees says
	for _, fam := range []int{famXGB, famDart} {
		for _, g := range []int{1, 3} {
			for _, nf := range []int{1, 2, 5} {
				for inner := -4; inner < 0; inner++ {
					e := zooEns(fam, nf+4, g, 2, 1, false)
					x.Case(func() string { return fmt.Sprintf("%d features fewer in the header of the trees, %s", -inner, e) }, func(c *C) {
						data := xgBytes(e, XGOpt{Inner: func(n int) int { return n + inner }})
						c.SetModel(data)
						metaCase(c, e, mustLoad(c, fam, data, false), "model")
						data = xgBytes(e, XGOpt{Inner: func(n int) int { return 0 }})
						metaCase(c, e, mustLoad(c, fam, data, false), "no features in the header of the trees")
					})
				}
			}
		}
	}
	// trees of very different sizes: leaf counts in the right order
	for fam := 0; fam < numFamilies; fam++ {
		if fam == famLinear {
			continue
		}
		for _, g := range []int{1, 2, 3} {
			if fam == famSK && g == 2 {
				continue
			}
			for perm, p := range permutations(4) {
				e := &Ens{Fam: fam, NFeat: 2, Groups: g, LR: 1, Prior: make([]float64, g)}
				sizes := []int{0, 1, 3, 9}
				for st := 0; st < 2; st++ {
					for k := 0; k < g; k++ {
						n := sizes[p[(st*g+k)%4]]
						t := Tree{Leaf: []float64{1}}
						if n > 0 {
							t = chain(n, (st+k)%3)
							for i := range t.Nodes {
								t.Nodes[i].Thr = float64(i)
								t.Nodes[i].F = i % 2
							}
						}
						setLeaves(&t, func(l int) float64 { return float64(l) })
						e.Trees = append(e.Trees, t)
						e.Drop = append(e.Drop, 1)
					}
				}
				x.Case(func() string { return fmt.Sprintf("tree sizes permutation %d\n%s", perm, e) }, func(c *C) {
					metaCase(c, e, e.load(c), "model")
				})
			}
		}
	}
}

// ---- C23: layouts of LightGBM's text -----------------------------------------------------------------------------------

// lgDoc is a LightGBM text in pieces
type lgDoc struct {
	lead    int // blank lines before the header
	head    []kv
	trees   [][]kv
	gap     []int // blank lines after the header and after every tree
	trailer string
	nl      string
	noEnd   bool // no newline at the very end
}

func lgDocOf(e *Ens) *lgDoc {
	d := &lgDoc{nl: "\n"}
	var sizes []int
	for i := range e.Trees {
		s := lgTreeSection(&e.Trees[i], i)
		d.trees = append(d.trees, s)
		var b bytes.Buffer
		writeSection(&b, s, "\n")
		sizes = append(sizes, b.Len()+2)
	}
	d.head = lgHeaderSection(e, sizes)
	d.gap = append(d.gap, 1)
	for range e.Trees {
		d.gap = append(d.gap, 2)
	}
	d.trailer = "end of trees\n\nfeature importances:\nColumn_0=1\n\nparameters:\n[boosting: gbdt]\n\nend of parameters\n\npandas_categorical:null\n"
	return d
}

func (d *lgDoc) clone() *lgDoc {
	o := *d
	o.head = append([]kv(nil), d.head...)
	o.trees = nil
	for _, t := range d.trees {
		o.trees = append(o.trees, append([]kv(nil), t...))
	}
	o.gap = append([]int(nil), d.gap...)
	return &o
}

func (d *lgDoc) bytes() []byte {
	var b bytes.Buffer
	blank := func(n int) {
		for i := 0; i < n; i++ {
			b.WriteString(d.nl)
		}
	}
	blank(d.lead)
	writeSection(&b, d.head, d.nl)
	blank(d.gap[0])
	for i := range d.trees {
		writeSection(&b, d.trees[i], d.nl)
		if i+1 == len(d.trees) && d.trailer == "" {
			break
		}
		blank(d.gap[i+1])
	}
	if d.trailer == "" {
		blank(d.gap[len(d.gap)-1])
	}
	b.WriteString(strings.Replace(d.trailer, "\n", d.nl, -1))
	if d.noEnd && d.trailer != "" { // a file that ends in the middle of a tree's last line is taken for a cut one (C14)
		return bytes.TrimRight(b.Bytes(), "\r\n")
	}
	return b.Bytes()
}

// get and set a line of a section
func lineOf(s []kv, k string) int {
	for i := range s {
		if s[i].K == k {
			return i
		}
	}
	return -1
}

type rewrite struct {
	name string
	f    func(d *lgDoc)
}

// respell changes the spelling of real numbers; the value is kept exactly
func respell(v string, kind int) string {
	toks := strings.Split(v, " ")
	for i, t := range toks {
		f, err := strconv.ParseFloat(t, 64)
		if err != nil || t == "inf" || t == "-inf" {
			continue
		}
		var s string
		switch kind {
		case 0:
			s = strconv.FormatFloat(f, 'e', -1, 64)
		case 1:
			s = strconv.FormatFloat(f, 'f', -1, 64)
		case 2:
			s = strconv.FormatFloat(f, 'E', 20, 64)
		case 3:
			s = strconv.FormatFloat(f, 'f', 30, 64)
		case 4:
			s = strconv.FormatFloat(f, 'g', -1, 64)
		case 5:
			s = strconv.FormatFloat(f, 'e', 17, 64)
			s = strings.Replace(s, "e+", "e", 1)
		}
		if g, err := strconv.ParseFloat(s, 64); err != nil || g != f {
			continue
		}
		toks[i] = s
	}
	return strings.Join(toks, " ")
}

func moveLine(s []kv, from, to int) {
	l := s[from]
	if from < to {
		copy(s[from:], s[from+1:to+1])
	} else {
		copy(s[to+1:], s[to:from])
	}
	s[to] = l
}

func insertLine(s []kv, at int, l kv) []kv {
	s = append(s, kv{})
	copy(s[at+1:], s[at:])
	s[at] = l
	return s
}

// lgRewrites are the layout changes that carry no meaning; n is the number of trees
func lgRewrites(n int, thorough bool) []rewrite {
	var rs []rewrite
	add := func(name string, f func(d *lgDoc)) { rs = append(rs, rewrite{name, f}) }
	add("nothing", func(d *lgDoc) {})
	add("CRLF", func(d *lgDoc) { d.nl = "\r\n" })
	for _, k := range []int{1, 3} {
		add(fmt.Sprint(k, " leading blank lines"), func(d *lgDoc) { d.lead = k })
	}
	for _, k := range []int{1, 3, 7} {
		add(fmt.Sprint(k, " blank lines everywhere"), func(d *lgDoc) {
			for i := range d.gap {
				d.gap[i] = k
			}
		})
	}
	for at := 0; at <= n; at++ {
		add(fmt.Sprint("five blank lines after section ", at), func(d *lgDoc) { d.gap[at] = 5 })
		add(fmt.Sprint("one blank line after section ", at), func(d *lgDoc) { d.gap[at] = 1 })
	}
	for _, t := range [][2]string{
		{"no trailer", ""},
		{"old trailer", "\nfeature importances:\nColumn_1=5\nColumn_0=2\n"},
		{"end of trees only", "end of trees\n"},
		{"trailer with key=value", "end of trees\n\nparameters:\nTree=7\nnum_leaves=2\n\nTree=8\nnum_leaves=1\nleaf_value=99\nend of parameters\n"},
		{"long trailer", "end of trees\n\n" + strings.Repeat("[x: 1]\n", 30000)},
		{"trailer with a long line", "end of trees\n\nparameters:\n" + strings.Repeat("[x: 1]", 30000) + "\n"},
		{"trailer with a=b=c and nulls", "end of trees\n\na=b=c\n\n\x00\x01\n"},
	} {
		t := t
		add(t[0], func(d *lgDoc) { d.trailer = t[1] })
	}
	add("no newline at the end", func(d *lgDoc) { d.noEnd = true })
	// orders of keys; the first line of a section names it and stays
	each := func(d *lgDoc, f func(s []kv)) {
		f(d.head)
		for i := range d.trees {
			f(d.trees[i])
		}
	}
	add("keys reversed", func(d *lgDoc) {
		each(d, func(s []kv) {
			for i, j := 1, len(s)-1; i < j; i, j = i+1, j-1 {
				s[i], s[j] = s[j], s[i]
			}
		})
	})
	add("keys sorted", func(d *lgDoc) {
		each(d, func(s []kv) {
			for i := 1; i < len(s); i++ {
				for j := i; j > 1 && s[j].K < s[j-1].K; j-- {
					s[j], s[j-1] = s[j-1], s[j]
				}
			}
		})
	})
	for k := 1; k < 15; k++ {
		add(fmt.Sprint("keys rotated by ", k), func(d *lgDoc) {
			each(d, func(s []kv) {
				for i := 0; i < k; i++ {
					moveLine(s, 1, len(s)-1)
				}
			})
		})
	}
	for k := 2; k < 15; k++ {
		add(fmt.Sprint("key ", k, " moved to the front"), func(d *lgDoc) {
			each(d, func(s []kv) {
				if k < len(s) {
					moveLine(s, k, 1)
				}
			})
		})
		add(fmt.Sprint("keys ", k-1, " and ", k, " swapped"), func(d *lgDoc) {
			each(d, func(s []kv) {
				if k < len(s) {
					s[k], s[k-1] = s[k-1], s[k]
				}
			})
		})
	}
	// unknown keys
	for _, l := range []kv{{"foo", "bar"}, {"foo", ""}, {"leaf_weight", "1 2 3"}, {"leaf", "7"}, {"num", "0"}, {"Version", "v9"}, {"left_child_", "9 9 9"}, {"has space", "x y z"}, {"linear_tree", "0"}, {K: "boost_from_average"}, {K: "is_linear_tree"}, {K: "has spaces"}, {K: "categorical features"},
		{"#a", "1"}, {"#", ""}, {"# comment", "num_leaves"}, {K: "#b"}, {";x", "1"}, {"[section]", "1"}, {K: "[section]"}, {"//", "1"}, {"\"q\"", "\"v\""}, {"!x", "1"}, {"@v", "1"}, {"$v", "1"}, {"-x", "1"}, {"0", "1"},
		{"Ünï", "ö"}, {"NUM_LEAVES", "77"}, {"Leaf_value", "x"}, {" num_leaves_", "9"}, {"num_leaves2", "1"}, {"_tree", "1"}, {"trees", "1"}, {"end", "trees"}, {"model", "v4"}, {"average", "1"}, {"average_outputs", "1"}, {"%s%d", "%v"}, {"*", "*"}, {"{", "}"}, {"<a>", "</a>"}} {
		for _, at := range []int{1, 4, -1} {
			add(fmt.Sprintf("unknown %s=%s at %d of the header", l.K, l.V, at), func(d *lgDoc) {
				p := at
				if p < 0 {
					p = len(d.head)
				}
				d.head = insertLine(d.head, p, l)
			})
			add(fmt.Sprintf("unknown %s=%s at %d of every tree", l.K, l.V, at), func(d *lgDoc) {
				for i := range d.trees {
					p := at
					if p < 0 {
						p = len(d.trees[i])
					}
					d.trees[i] = insertLine(d.trees[i], p, l)
				}
			})
		}
	}
	add("is_linear=0 in every tree", func(d *lgDoc) {
		for i := range d.trees {
			d.trees[i] = append(d.trees[i], kv{"is_linear", "0"})
		}
	})
	add("a very long unknown line", func(d *lgDoc) { d.head = insertLine(d.head, 3, kv{"monotone", strings.Repeat("1 ", 40000) + "1"}) })
	for _, at := range []int{0, 2, -1} {
		at := at
		add(fmt.Sprint("many unknown lines at ", at), func(d *lgDoc) {
			long := func(sec []kv) []kv {
				var l []kv
				for i := 0; i < 1500; i++ {
					l = append(l, kv{fmt.Sprint("unknown_", i), strings.Repeat("7 ", i%60)})
				}
				p := at + 1
				if at < 0 || p > len(sec) {
					p = len(sec)
				}
				return append(append(append([]kv(nil), sec[:p]...), l...), sec[p:]...)
			}
			d.head = long(d.head)
			for i := range d.trees {
				d.trees[i] = long(d.trees[i])
			}
		})
	}
	for _, n := range []int{4090, 4096, 65530, 65536, 300000} {
		n := n
		add(fmt.Sprintf("unknown lines of %d bytes", n), func(d *lgDoc) {
			d.head = append(d.head, kv{"monotone", strings.Repeat("1 ", n/2) + "1"})
			for i := range d.trees {
				d.trees[i] = insertLine(d.trees[i], 1+i%3, kv{"leaf_weights", strings.Repeat("1 ", n/2) + "1"})
			}
		})
	}
	// names and infos of the features are not used
	names := func(name string, f func(i int) string, key string) {
		add(key+": "+name, func(d *lgDoc) {
			p := lineOf(d.head, key)
			n := len(strings.Fields(d.head[p].V))
			var l []string
			for i := 0; i < n; i++ {
				l = append(l, f(i))
			}
			d.head[p].V = strings.Join(l, " ")
		})
	}
	for _, n := range []string{"a=b", "=", "x==y", "Column_0", "objective=poisson", "#f", "tree", "имя", "num_class=7", "a\"b", "a,b", "[x]", "<=", "Tree=0", "end", "%d", strings.Repeat("long", 3000)} {
		names(n, func(i int) string { return n }, "feature_names")
		names("mixed "+n, func(i int) string {
			if i%2 == 0 {
				return fmt.Sprint("f", i)
			}
			return n + fmt.Sprint(i)
		}, "feature_names")
	}
	for _, n := range []string{"none", "[-1.5:2e10]", "0:1:2:3", "-1:33:4000000", "[nan:nan]", "[-inf:inf]"} {
		names(n, func(i int) string { return n }, "feature_infos")
		names("mixed "+n, func(i int) string {
			if i%2 == 0 {
				return n
			}
			return "[0:1]"
		}, "feature_infos")
	}
	add("version v2", func(d *lgDoc) { d.head[lineOf(d.head, "version")].V = "v2" })
	// spelling of numbers
	for kind := 0; kind <= 5; kind++ {
		for _, keys := range [][]string{{"threshold"}, {"leaf_value"}, {"threshold", "leaf_value", "split_gain", "internal_value", "shrinkage"}} {
			add(fmt.Sprint("spelling ", kind, " of ", keys), func(d *lgDoc) {
				for i := range d.trees {
					for _, k := range keys {
						if p := lineOf(d.trees[i], k); p >= 0 {
							d.trees[i][p].V = respell(d.trees[i][p].V, kind)
						}
					}
				}
			})
		}
	}
	return rs
}

func runLayouts(x *X) {
	type base struct {
		e    *Ens
		rows [][]float64
		few  bool // only some rewrites
	}
	var bases []*base
	addBase := func(e *Ens) { bases = append(bases, &base{e: e, rows: rowPool(e, 40)}) }
	addBase(zooEns(famLGText, 2, 1, 2, 0, true))
	addBase(zooEns(famLGText, 3, 3, 1, 1, true))
	{
		e := zooEns(famLGText, 2, 1, 3, 2, false)
		e.RF = true
		addBase(e)
	}
	{ // awkward numbers
		e := &Ens{Fam: famLGText, NFeat: 2, Groups: 1}
		e.Trees = append(e.Trees, dress(histories(3)[2], []Node{numNode(1e-300, 0, false), numNode(-123456789.125, missNaN, true), catNode(0, false, 0, 1, 33, 64)}, []int{0, 1, 1}), Tree{Leaf: []float64{0.1}})
		setLeaves(&e.Trees[0], func(l int) float64 { return []float64{1e-300, -1.0 / 3, 12345.678e20, 5e-324}[l] })
		addBase(e)
	}
	if x.Thorough {
		for v := 3; v < 12; v++ {
			addBase(zooEns(famLGText, 1+v%3, 1+v%2, 1+v%4, v, v%2 > 0))
		}
	}
	// many trees, classes and features
	for _, sh := range [][3]int{{2, 1, 300}, {3, 50, 10}, {1500, 1, 3}, {1, 1, 14000}} {
		e := zooEns(famLGText, sh[0], sh[1], sh[2], 0, sh[2] < 1000)
		if sh[2] > 1000 {
			e.Trees = e.Trees[:0]
			for i := 0; i < sh[2]; i++ {
				e.Trees = append(e.Trees, Tree{Leaf: []float64{float64(i%7) - 2.5}})
			}
			e.Trees[sh[2]-1] = zooEns(famLGText, 1, 1, 1, 0, false).Trees[0]
		}
		addBase(e)
		b := bases[len(bases)-1]
		b.few = true
		b.rows = b.rows[:8]
	}
	check := func(c *C, b *base, d *lgDoc, what func() string) {
		data := d.bytes()
		c.SetModel(data)
		c.Stage("loading " + what())
		m, err := loadBytes(famLGText, data, b.e.Load)
		if err != nil {
			c.Failf("%s: refused: %v", what(), err)
		}
		out := make([]float64, b.e.Groups)
		if m.NFeatures() != b.e.NFeat || m.NEstimators() != b.e.stages() || m.NOutputGroups() != b.e.Groups || m.Name() != b.e.name() ||
			m.Transformation().Name() != linkName[b.e.link()] || fmt.Sprint(m.NLeaves()) != fmt.Sprint(b.e.nLeaves()) {
			c.Failf("%s: metadata are different: %d features, %d estimators, %d outputs, %s, %s, leaves %v", what(), m.NFeatures(), m.NEstimators(), m.NOutputGroups(), m.Name(), m.Transformation().Name(), m.NLeaves())
		}
		for _, r := range b.rows {
			if err := m.Predict(r, 0, out); err != nil {
				c.Failf("%s: %v", what(), err)
			}
			if want := b.e.expect(viewOrig, r, 0); !closeAll(out, want, close12) {
				c.Failf("%s: row %v: got %v, want %v", what(), r, out, want)
			}
		}
		c.States(1)
		c.Trans(2)
		c.Traces(1)
	}
	for bi, b := range bases {
		if b.few {
			rs := lgRewrites(2, false)
			for i := range rs {
				x.Case(func() string { return fmt.Sprintf("model %d: %s", bi, rs[i].name) }, func(c *C) {
					if len(b.e.Trees) > 5000 && strings.Contains(rs[i].name, "unknown lines") {
						return
					}
					d := lgDocOf(b.e)
					rs[i].f(d)
					check(c, b, d, func() string { return rs[i].name })
				})
			}
			continue
		}
		rs := lgRewrites(len(b.e.Trees), x.Thorough)
		for i := range rs {
			x.Case(func() string { return fmt.Sprintf("model %d: %s, then every other rewrite", bi, rs[i].name) }, func(c *C) {
				for j := range rs {
					d := lgDocOf(b.e)
					rs[i].f(d)
					rs[j].f(d)
					check(c, b, d, func() string { return rs[i].name + ", then " + rs[j].name })
					if !x.Thorough || bi > 4 {
						continue
					}
					for k := range rs {
						if (i+j+k)%53 != 0 {
							continue
						}
						e := d.clone()
						rs[k].f(e)
						check(c, b, e, func() string { return rs[i].name + ", then " + rs[j].name + ", then " + rs[k].name })
					}
				}
			})
		}
		// header fields that carry meaning
		x.Case(func() string { return fmt.Sprintf("model %d: meaning of the header", bi) }, func(c *C) { headerCase(c, b.e) })
	}
}

// headerCase changes header fields so that the file does not describe a supported model any more
func headerCase(c *C, e *Ens) {
	refuse := func(what string, f func(d *lgDoc)) {
		for _, nl := range []string{"\n", "\r\n"} {
			for _, load := range []bool{false, e.Load} {
				d := lgDocOf(e)
				d.nl = nl
				f(d)
				data := d.bytes()
				c.SetModel(data)
				c.Stage("loading " + what)
				if m, err := loadBytes(famLGText, data, load); err == nil {
					c.Failf("%s is accepted (%d estimators, %d groups, %d features)", what, m.NEstimators(), m.NRawOutputGroups(), m.NFeatures())
				}
				c.States(1)
				c.Trans(1)
				c.Traces(1)
			}
		}
	}
	set := func(k, v string) {
		refuse(k+"="+v, func(d *lgDoc) { d.head[lineOf(d.head, k)].V = v })
	}
	drop := func(k string) {
		refuse("no "+k, func(d *lgDoc) {
			p := lineOf(d.head, k)
			d.head = append(d.head[:p], d.head[p+1:]...)
		})
	}
	for _, v := range []string{"", "v1", "v4", "v5", "v33", "v", "3", "v2 v3", "V3"} {
		set("version", v)
	}
	for _, k := range []string{"num_class", "num_tree_per_iteration"} {
		for _, v := range []string{"", "0", "-1", "x", "1.5", strconv.Itoa(e.Groups + 1), strconv.Itoa(e.Groups * 7), "1 1"} {
			set(k, v)
		}
	}
	// both consistent, but the trees do not fit
	for _, g := range []int{0, -1, len(e.Trees) + 1, 2 * len(e.Trees)} {
		refuse(fmt.Sprintf("num_class=num_tree_per_iteration=%d with %d trees", g, len(e.Trees)), func(d *lgDoc) {
			d.head[lineOf(d.head, "num_class")].V = strconv.Itoa(g)
			d.head[lineOf(d.head, "num_tree_per_iteration")].V = strconv.Itoa(g)
		})
	}
	for _, v := range []string{"", "x", "-5", "1.5"} {
		if v != "-5" || maxFeature(e.Trees) >= 0 { // it does not matter to constant trees
			set("max_feature_idx", v)
		}
	}
	if mf := maxFeature(e.Trees); mf > 0 {
		set("max_feature_idx", strconv.Itoa(mf-1))
		set("max_feature_idx", "0")
	}
	for _, k := range []string{"version", "num_class", "num_tree_per_iteration", "max_feature_idx", "tree_sizes"} {
		drop(k)
	}
	// more trees announced than there are
	for _, more := range []int{1, 2, e.Groups, 2 * e.Groups, 100 * e.Groups} {
		refuse(fmt.Sprintf("%d more tree sizes than trees", more), func(d *lgDoc) {
			d.head[lineOf(d.head, "tree_sizes")].V += strings.Repeat(" 300", more)
		})
		refuse(fmt.Sprintf("%d more tree sizes than trees, no trailer", more), func(d *lgDoc) {
			d.trailer = ""
			d.head[lineOf(d.head, "tree_sizes")].V += strings.Repeat(" 300", more)
		})
	}
	for i := range e.Trees {
		for _, v := range []string{"1", "2", "-1", "true"} {
			refuse(fmt.Sprintf("is_linear=%s in tree %d", v, i), func(d *lgDoc) { d.trees[i] = append(d.trees[i], kv{"is_linear", v}) })
			refuse(fmt.Sprintf("is_linear=%s at the front of tree %d", v, i), func(d *lgDoc) { d.trees[i] = insertLine(d.trees[i], 1, kv{"is_linear", v}) })
		}
		for _, k := range []string{"num_leaves", "num_cat", "leaf_value", "split_feature", "threshold", "decision_type", "left_child", "right_child"} {
			if len(e.Trees[i].Nodes) == 0 && k != "num_leaves" && k != "leaf_value" && k != "num_cat" {
				continue
			}
			refuse(fmt.Sprintf("no %s in tree %d", k, i), func(d *lgDoc) {
				p := lineOf(d.trees[i], k)
				d.trees[i] = append(d.trees[i][:p], d.trees[i][p+1:]...)
			})
		}
	}
}

func init() {
	register(&Check{ID: "C21", Level: "model_checking",
		Rule: "every family x number of features x groups x stages x transformation loading x decision sets, all permutations of tree sizes; nine metadata of eight (derived) views each, and every prediction call with rows of exactly NFeatures values; one state per (model, view)",
		Run: func(x *X) {
			routes(x, famLGText, famLGJSON, famXGB, famDart, famLinear, famSK)
			sweep(x, []int{famLGText, famLGJSON, famXGB, famDart, famSK}, 40, func(c *C, e *Ens) { metaCase(c, e, e.load(c), "model") })
			runMeta(x)
		}})
	register(&Check{ID: "C23", Level: "model_checking",
		Rule: "every ordered pair (thorough: every 53rd triple) of layout rewrites (line endings, blank lines, trailers, key orders, unknown keys, number spellings) applied to base models, predictions and metadata compared with the reference; every wrong value of the header fields that carry meaning; one state per rewritten file",
		Run:  runLayouts})
}
