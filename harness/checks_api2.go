//go:build go1.23

package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/transformation"
	"github.com/dmitryikh/leaves/util"
)

// ---- C10 ---------------------------------------------------------------------------------------------------------

var scores = []float64{0, math.Copysign(0, -1), 1, -1, 0.5, -0.5, 0.1, -0.1, 1e-10, -1e-10, 1e-300, 5e-324, 3, -3, 10, -10, 20, -20, 36, -36, 37, -37, 40, -40,
	100, -100, 350, -350, 700, -700, 709.7, -709.7, 709.79, -709.79, 710, -710, 744, -744, 745.2, -745.2, 746, -746, 1000, -1000, 1e5, -1e5, 1e10, -1e10, 1e100, -1e100, 1e300, -1e300,
	math.MaxFloat64, -math.MaxFloat64, 0.3, 2.5, -7.25}

func rel(a, b, tol float64) bool {
	if same(a, b) {
		return true
	}
	return math.Abs(a-b) <= tol*math.Max(math.Abs(a), math.Abs(b))+1e-320
}

func checkSoftmax(c *C, what string, raw, p []float64) {
	want := applyLink(linkSoftmax, raw)
	s := 0.0
	for i := range p {
		if math.IsNaN(p[i]) || math.IsInf(p[i], 0) || p[i] < 0 || p[i] > 1+1e-12 {
			c.Failf("%s: softmax of %v gives %v", what, raw, p)
		}
		if !rel(p[i], want[i], 1e-11) && math.Abs(p[i]-want[i]) > 1e-300 {
			c.Failf("%s: softmax of %v gives %v, want %v", what, raw, p, want)
		}
		s += p[i]
	}
	if o := orderOf(raw); len(o) > 0 {
		for k := 1; k < len(o); k++ {
			a, b := o[k-1], o[k] // raw[a] <= raw[b]
			if p[a] > p[b] || raw[a] == raw[b] && p[a] != p[b] {
				c.Failf("%s: softmax of %v gives %v: order is not preserved", what, raw, p)
			}
		}
	}
	if math.Abs(s-1) > 1e-9 {
		c.Failf("%s: softmax of %v gives %v with sum %v", what, raw, p, s)
	}
}

// orderOf gives the positions of v in ascending order of the values
func orderOf(v []float64) []int {
	o := make([]int, len(v))
	for i := range o {
		o[i] = i
	}
	sort.SliceStable(o, func(a, b int) bool { return v[o[a]] < v[o[b]] })
	return o
}

func checkSigmoid(c *C, what string, v, p float64) {
	if !(p >= 0 && p <= 1) {
		c.Failf("%s: sigmoid of %v gives %v", what, v, p)
	}
	want := applyLink(linkLogistic, []float64{v})[0]
	if !rel(p, want, 1e-12) && math.Abs(p-want) > 1e-300 {
		c.Failf("%s: sigmoid of %v gives %v, want %v", what, v, p, want)
	}
}

func checkExp(c *C, what string, v, p float64) {
	if want := math.Exp(v); !rel(p, want, 1e-13) {
		c.Failf("%s: exponential of %v gives %v, want %v", what, v, p, want)
	}
}

// callForms predicts one row by every call of the API
func callForms(c *C, e *Ens, m *leaves.Ensemble, row []float64, no int) map[string][]float64 {
	out := map[string][]float64{}
	o := guarded(no, 1)
	if err := m.Predict(row, 0, o); err != nil {
		c.Failf("%v", err)
	}
	checkGuard(c, "Predict", o, no)
	out["Predict"] = o[:no]
	if no == 1 {
		out["PredictSingle"] = []float64{m.PredictSingle(row, 0)}
	}
	rows := [][]float64{}
	for i := 0; i < 18; i++ {
		rows = append(rows, row)
	}
	for _, th := range []int{1, 2} {
		o = guarded(18*no, 1)
		if err := m.PredictDense(flat(rows, 0), 18, len(row), o, 0, th); err != nil {
			c.Failf("%v", err)
		}
		out[fmt.Sprint("PredictDense ", th)] = o[17*no : 18*no]
		o = guarded(18*no, 1)
		sp := e.csrOf(rows, true)
		if err := m.PredictCSR(sp.indptr, sp.cols, sp.vals, o, 0, th); err != nil {
			c.Failf("%v", err)
		}
		out[fmt.Sprint("PredictCSR ", th)] = o[17*no : 18*no]
	}
	return out
}

// constModel predicts the given raw scores for every row
func constModel(fam int, raw []float64, obj string) *Ens {
	e := &Ens{Fam: fam, NFeat: 1, Groups: len(raw), Objective: obj, Load: true}
	switch fam {
	case famLinear:
		e.Weights = make([]float32, 2*len(raw))
		for i, v := range raw {
			e.Weights[len(raw)+i] = float32(v)
		}
	default:
		for _, v := range raw {
			e.Trees = append(e.Trees, Tree{Leaf: []float64{v}})
			e.Drop = append(e.Drop, 1)
		}
	}
	return e
}

type objective struct {
	obj    string
	groups int
	link   int  // the link function it means
	must   bool // has to be accepted
	bad    bool // has to be refused
}

func runTransform(x *X) {
	hugeSoftmax(x)
	one := func(label string, f func(c *C)) {
		x.Case(func() string { return label }, func(c *C) {
			f(c)
			c.States(1)
			c.Trans(1)
		})
	}
	sorted := append([]float64(nil), scores...)
	sort.Float64s(sorted)
	// dense grid of scores
	var grid []float64
	step := 0.25
	if x.Thorough {
		step = 1.0 / 64
	}
	for v := -760.0; v <= 760; v += step {
		grid = append(grid, v)
	}
	// scalar functions
	one("util.Sigmoid and transforms over all scores", func(c *C) {
		lg, ex := &transformation.TransformLogistic{}, &transformation.TransformExponential{}
		for _, list := range [][]float64{sorted, grid} {
			prev := 0.0
			vec := cloneF(list)
			util.SigmoidFloat64SliceInplace(vec)
			for i, v := range list {
				p := util.Sigmoid(v)
				checkSigmoid(c, "util.Sigmoid", v, p)
				checkSigmoid(c, "util.SigmoidFloat64SliceInplace", v, vec[i])
				if p < prev {
					c.Failf("util.Sigmoid is not monotone at %v", v)
				}
				prev = p
				for start := 0; start < 3; start++ {
					in, out := []float64{v}, guarded(4, 0)
					if err := lg.Transform(in, out, start); err != nil {
						c.Failf("%v", err)
					}
					checkSigmoid(c, "TransformLogistic", v, out[start])
					out[start] = guard
					checkGuard(c, "TransformLogistic", out, 0)
					if err := ex.Transform(in, out, start); err != nil {
						c.Failf("%v", err)
					}
					checkExp(c, "TransformExponential", v, out[start])
					out[start] = guard
					checkGuard(c, "TransformExponential", out, 0)
					if math.Float64bits(in[0]) != math.Float64bits(v) {
						c.Failf("raw input was changed")
					}
					c.Traces(2)
				}
				c.States(1)
				c.Trans(3)
			}
		}
	})
	// softmax: all tuples
	maxK := 3
	pool := scores
	if x.Thorough {
		maxK = 4
	}
	for k := 1; k <= 5; k++ {
		p := pool
		if k > maxK || k == 4 {
			p = []float64{0, 1, -1, 40, -40, 709.79, -745.2, 1000, -1000, math.MaxFloat64, -math.MaxFloat64}
		}
		if k == 5 {
			p = []float64{0, 1, 40, -745.2, 1000, -1000, math.MaxFloat64, -math.MaxFloat64}
		}
		for i0 := range p {
			k, i0 := k, i0
			one(fmt.Sprintf("softmax of all %d-tuples of scores starting with %v", k, p[i0]), func(c *C) {
				raw := make([]float64, k)
				raw[0] = p[i0]
				t := &transformation.TransformSoftmax{NClasses: k}
				n := 0
				var rec func(i int)
				rec = func(i int) {
					if i < k {
						for _, v := range p {
							raw[i] = v
							rec(i + 1)
						}
						return
					}
					keep := cloneF(raw)
					start := n % 3
					out := guarded(k+3, 0)
					util.SoftmaxFloat64Slice(raw, out, start)
					checkSoftmax(c, "util.SoftmaxFloat64Slice", keep, out[start:start+k])
					out2 := guarded(k+3, 0)
					if err := t.Transform(raw, out2, start); err != nil {
						c.Failf("%v", err)
					}
					if !closeAll(out2, out, close12) {
						c.Failf("TransformSoftmax of %v gives %v, util.SoftmaxFloat64Slice %v", keep, out2, out)
					}
					if !sameBits(raw, keep) {
						c.Failf("raw input was changed")
					}
					for i := start; i < start+k; i++ {
						out[i] = guard
					}
					checkGuard(c, "softmax", out, 0)
					n++
				}
				rec(1)
				c.States(n)
				c.Trans(n)
				c.Traces(n)
			})
		}
	}
	// transform objects: metadata and wrong lengths
	one("transform objects", func(c *C) {
		for n := 1; n < 6; n++ {
			for _, q := range []struct {
				t    transformation.Transform
				n    int
				ty   transformation.TransformType
				name string
			}{{&transformation.TransformRaw{NumOutputGroups: n}, n, transformation.Raw, "raw"}, {&transformation.TransformLogistic{}, 1, transformation.Logistic, "logistic"},
				{&transformation.TransformSoftmax{NClasses: n}, n, transformation.Softmax, "softmax"}, {&transformation.TransformLeafIndex{NumOutputGroups: n}, n, transformation.LeafIndex, ""},
				{&transformation.TransformExponential{}, 1, transformation.Exponential, "exponential"}} {
				if q.t.NOutputGroups() != q.n || q.t.Type() != q.ty || q.t.Name() != q.ty.Name() || (q.name != "" && q.t.Name() != q.name) {
					c.Failf("%T: groups %d type %d name %q", q.t, q.t.NOutputGroups(), q.t.Type(), q.t.Name())
				}
				for _, p := range []transformation.TransformType{transformation.Raw, transformation.Logistic, transformation.Softmax, transformation.LeafIndex, transformation.Exponential} {
					if p != q.ty && p.Name() == q.ty.Name() {
						c.Failf("%v and %v have the same name %q", p, q.ty, p.Name())
					}
				}
				for l := 1; l < 6; l++ {
					raw := []float64{1, 2, 3, 4, 5}[:l]
					out := guarded(12, 0)
					err := q.t.Transform(raw, out, 3)
					if l == q.n && err != nil {
						c.Failf("%T of %d values: %v", q.t, l, err)
					}
					if l != q.n && err == nil && q.ty != transformation.Raw && q.ty != transformation.LeafIndex {
						c.Failf("%T(%d groups) accepts %d raw values", q.t, q.n, l)
					}
					if err != nil {
						checkGuard(c, "refused transform", out, 0)
					}
					if err == nil && l == q.n && (q.ty == transformation.Raw || q.ty == transformation.LeafIndex) && !sameBits(out[3:3+l], raw) {
						c.Failf("%T changes values: %v", q.t, out)
					}
					c.Traces(1)
				}
			}
		}
	})
	// objectives of every family
	var table []struct {
		fam int
		o   objective
	}
	add := func(fam int, o ...objective) {
		for _, v := range o {
			table = append(table, struct {
				fam int
				o   objective
			}{fam, v})
		}
	}
	for g := 1; g <= 4; g++ {
		one := g == 1
		for _, s := range []string{"poisson", "gamma", "tweedie"} {
			add(famLGText, objective{s, g, linkExp, one, !one})
		}
		for _, s := range []string{"binary sigmoid:1"} {
			add(famLGText, objective{s, g, linkLogistic, one, !one})
		}
		for _, s := range []string{"regression", "regression_l1", "regression_l2"} {
			add(famLGText, objective{s, g, linkRaw, one, false})
		}
		for k := 1; k <= 5; k++ {
			add(famLGText, objective{fmt.Sprintf("multiclass num_class:%d", k), g, linkSoftmax, k == g && k > 1, k != g})
		}
		for _, s := range []string{"binary sigmoid:2", "binary sigmoid:0.5", "binary", "binary sigmoid:", "multiclass", "multiclassova num_class:3 sigmoid:1", "regression sqrt", "regression_l1 sqrt",
			"multiclass num_class:x", "binary num_class:1", "multiclass sigmoid:1", "nonsense", "", "softmax", "binary sigmoid:1 extra:2"} {
			add(famLGText, objective{s, g, -1, false, true})
		}
		// any other slope of the sigmoid
		for k := -3; k <= 130; k++ {
			if k != 1 {
				add(famLGText, objective{fmt.Sprintf("binary sigmoid:%d", k), g, -1, false, true})
			}
		}
		for _, s := range []string{"0.1", "0.9", "1.1", "0.99999", "1.00001", "1.5", "1e2", "1e-1", "10.0", "1000", "0.0", "-0.5", "nan", "inf", "x", "1x", "11e-1", ":1", "2:1", "1:2"} {
			add(famLGText, objective{"binary sigmoid:" + s, g, -1, false, true})
		}
		for _, s := range []string{"cross_entropy", "xentropy"} {
			add(famLGText, objective{s, g, linkLogistic, false, !one})
		}
		for _, s := range []string{"huber", "fair", "quantile", "mape", "lambdarank", "rank_xendcg"} {
			add(famLGText, objective{s, g, linkRaw, false, false})
		}
		for _, fam := range []int{famXGB, famDart, famLinear} {
			add(fam, objective{"binary:logistic", g, linkLogistic, one, !one}, objective{"reg:logistic", g, linkLogistic, false, !one}, objective{"binary:logitraw", g, linkRaw, false, false},
				objective{"reg:linear", g, linkRaw, false, false}, objective{"multi:softprob", g, linkSoftmax, false, false}, objective{"count:poisson", g, linkExp, false, !one},
				objective{"reg:gamma", g, linkExp, false, !one}, objective{"reg:tweedie", g, linkExp, false, !one}, objective{"survival:cox", g, linkExp, false, !one}, objective{"rank:pairwise", g, linkRaw, false, false},
				objective{"", g, -1, false, true}, objective{"binary:hinge", g, -1, false, true}, objective{"binary:logistic ", g, -1, false, true}, objective{"binary", g, -1, false, true})
		}
	}
	for _, q := range table {
		q := q
		one(fmt.Sprintf("objective %q of %s with %d groups", q.o.obj, famName[q.fam], q.o.groups), func(c *C) {
			raws := [][]float64{}
			for i := 0; i < len(scores); i++ {
				r := make([]float64, q.o.groups)
				for j := range r {
					r[j] = scores[(i+j*(i+1))%len(scores)]
				}
				raws = append(raws, r)
			}
			for _, raw := range raws {
				if q.fam != famLGText {
					bad := false
					for _, v := range raw {
						if math.Abs(v) > 1e30 {
							bad = true
						}
					}
					if bad {
						continue
					}
					for i := range raw {
						raw[i] = float64(float32(raw[i]))
					}
				}
				e := constModel(q.fam, raw, q.o.obj)
				if q.o.obj == "" {
					e.Objective = " "
				}
				data := emit(e)
				if q.o.obj == "" {
					data = []byte(strings.Replace(string(data), "objective= \n", "objective=\n", 1))
				}
				c.SetModel(data)
				m, err := loadBytes(q.fam, data, true)
				if err != nil {
					if q.o.must {
						c.Failf("objective %q with %d groups is refused: %v", q.o.obj, q.o.groups, err)
					}
					if mm, err := loadBytes(q.fam, data, false); err != nil || mm.Transformation().Type() != transformation.Raw {
						c.Failf("objective %q: the raw model is refused: %v", q.o.obj, err)
					}
					c.Traces(1)
					continue
				}
				if q.o.bad {
					c.Failf("objective %q does not fit %d groups or is not supported, but is accepted with transformation %q and %d outputs", q.o.obj, q.o.groups, m.Transformation().Name(), m.NOutputGroups())
				}
				if m.NOutputGroups() != q.o.groups || m.Transformation().NOutputGroups() != q.o.groups || m.Transformation().Name() != linkName[q.o.link] {
					c.Failf("objective %q: transformation %q with %d outputs, want %q with %d", q.o.obj, m.Transformation().Name(), m.NOutputGroups(), linkName[q.o.link], q.o.groups)
				}
				for form, got := range callForms(c, e, m, []float64{0}, q.o.groups) {
					switch q.o.link {
					case linkSoftmax:
						checkSoftmax(c, form, raw, got)
					case linkLogistic:
						checkSigmoid(c, form, raw[0], got[0])
					case linkExp:
						checkExp(c, form, raw[0], got[0])
					default:
						if !closeAll(got, raw, same) {
							c.Failf("%s: got %v, want %v", form, got, raw)
						}
					}
					c.Traces(1)
				}
				rv := m.EnsembleWithRawPredictions()
				for form, got := range callForms(c, e, rv, []float64{0}, q.o.groups) {
					if !closeAll(got, raw, same) {
						c.Failf("raw view, %s: got %v, want %v", form, got, raw)
					}
				}
				// without transformation
				m0, err := loadBytes(q.fam, data, false)
				if err != nil {
					c.Failf("refused without transformation: %v", err)
				}
				if m0.Transformation().Type() != transformation.Raw || m0.NOutputGroups() != q.o.groups {
					c.Failf("transformation %q without asking for it", m0.Transformation().Name())
				}
				o := make([]float64, q.o.groups)
				m0.Predict([]float64{0}, 0, o)
				if !closeAll(o, raw, same) {
					c.Failf("without transformation: got %v, want %v", o, raw)
				}
			}
		})
	}
	// forests never get a transformation
	for _, obj := range []string{"binary sigmoid:1", "poisson", "regression", "multiclass num_class:3"} {
		for _, load := range []bool{false, true} {
			one(fmt.Sprint("forest with objective ", obj, load), func(c *C) {
				raw := []float64{0.25}
				if strings.HasPrefix(obj, "multi") {
					raw = []float64{1, -2, 0.5}
				}
				e := constModel(famLGText, raw, obj)
				e.RF = true
				e.Load = load
				m := e.load(c)
				if m.Transformation().Type() != transformation.Raw {
					c.Failf("transformation %s of a forest", m.Transformation().Name())
				}
				for form, got := range callForms(c, e, m, []float64{0}, len(raw)) {
					if !closeAll(got, raw, same) {
						c.Failf("%s: got %v, want %v", form, got, raw)
					}
				}
				c.Traces(1)
			})
		}
	}
}

// ---- C11 ---------------------------------------------------------------------------------------------------------

// histView is an ensemble with what it is to be
type histView struct {
	m    *leaves.Ensemble
	view int
}

const histOps = 10

var histOpName = [...]string{"raw view", "leaf view", "PredictSingle", "Predict+scribble", "PredictDense", "PredictCSR", "failing calls", "NLeaves+scribble", "parallel PredictDense", "part of the stages"}

type histModel struct {
	e    *Ens
	rows [][]float64
	want [3][][]float64   // view, row
	part [3][][][]float64 // view, number of stages, row
	leaf [][]float64      // leaf outputs of a fresh model
	nl   []int

	// the caller's slices: used again in every call of all histories, unless fresh is set
	fresh bool
	kept  map[string][]float64
	ints  map[string][]int
}

// index gives the values in the slice of that name
func (h *histModel) index(name string, v []int) []int {
	k := fmt.Sprint(name, " ", len(v))
	b := h.ints[k]
	if b == nil || h.fresh {
		b = make([]int, len(v))
		h.ints[k] = b
	}
	copy(b, v)
	return b
}

// buf gives n values in the slice of that name
func (h *histModel) buf(name string, n int) []float64 {
	k := fmt.Sprint(name, " ", n)
	b := h.kept[k]
	if b == nil || h.fresh {
		b = make([]float64, n)
		h.kept[k] = b
	}
	return b
}

// row is the row in the caller's slice
func (h *histModel) row(r int) []float64 {
	b := h.buf("row", len(h.rows[r]))
	copy(b, h.rows[r])
	return b
}

// out is a guarded slice for n outputs
func (h *histModel) out(n, extra int) []float64 {
	b := h.buf("out", n+extra)
	copy(b, guarded(n, extra))
	return b
}

func (h *histModel) check(c *C, v histView, row int, got []float64, what string) {
	if !closeAll(got, h.want[v.view][row], close12) {
		c.Failf("%s of %s view, row %v: got %v, want %v", what, viewName[v.view], h.rows[row], got, h.want[v.view][row])
	}
}

func (h *histModel) apply(c *C, views []histView, op, at int, seq int) []histView {
	v := views[at]
	no := h.e.nOut(v.view)
	noLeaf := v.view == viewLeaf && h.e.Fam == famLinear
	r := seq % len(h.rows)
	switch op {
	case 0:
		return append(views, histView{v.m.EnsembleWithRawPredictions(), viewRaw})
	case 1:
		return append(views, histView{v.m.EnsembleWithLeafPredictions(), viewLeaf})
	case 2:
		got := v.m.PredictSingle(h.row(r), 0)
		if no == 1 && !noLeaf {
			h.check(c, v, r, []float64{got}, "PredictSingle")
		} else if got != 0 {
			c.Failf("PredictSingle gives %v for %d outputs", got, no)
		}
	case 3:
		out := h.out(no, 2)
		row := h.row(r)
		err := v.m.Predict(row, 0, out)
		if noLeaf {
			if err == nil {
				c.Failf("leaf prediction of a linear model")
			}
			return views
		}
		if err != nil {
			c.Failf("%v", err)
		}
		h.check(c, v, r, out[:no], "Predict")
		for i := range out {
			out[i] = math.NaN()
		}
		for i := range row {
			row[i] = 1e9
		}
	case 4, 8:
		n := len(h.rows)
		th := 1
		rows := h.rows
		if op == 8 {
			th = 3
			for len(rows) < 40 {
				rows = append(rows[:len(rows):len(rows)], h.rows...)
			}
		}
		vals := h.buf("vals", len(rows)*(h.e.NFeat+1))
		copy(vals, flat(rows, 1))
		out := h.out(len(rows)*no, 2)
		err := v.m.PredictDense(vals, len(rows), h.e.NFeat+1, out, 0, th)
		if noLeaf {
			return views
		}
		if err != nil {
			c.Failf("%v", err)
		}
		for i := range rows {
			h.check(c, v, i%n, out[i*no:(i+1)*no], "PredictDense")
		}
		for i := range vals {
			vals[i] = -1e9
		}
	case 9: // 1, 2, ... stages one after the other
		if v.view == viewLeaf {
			return views
		}
		for n := 1; n <= h.e.stages(); n++ {
			out := h.out(no, 2)
			if err := v.m.Predict(h.row(r), n, out); err != nil {
				c.Failf("%d stages: %v", n, err)
			}
			if !closeAll(out[:no], h.part[v.view][n][r], close12) {
				c.Failf("%d stages of %s view, row %v: got %v, want %v", n, viewName[v.view], h.rows[r], out[:no], h.part[v.view][n][r])
			}
		}
	case 5:
		rows := h.rows
		if seq%2 == 1 { // the rows the other way round, which may come to the same sparsity
			rows = nil
			for i := range h.rows {
				rows = append(rows, h.rows[len(h.rows)-1-i])
			}
		}
		sp := h.e.csrOf(rows, true)
		vals := h.buf("csr", len(sp.vals))
		copy(vals, sp.vals)
		sp.vals, sp.cols, sp.indptr = vals, h.index("cols", sp.cols), h.index("indptr", sp.indptr)
		out := h.out(len(h.rows)*no, 2)
		err := v.m.PredictCSR(sp.indptr, sp.cols, sp.vals, out, 0, 0)
		if noLeaf {
			return views
		}
		if err != nil {
			c.Failf("%v", err)
		}
		for i := range rows {
			at := i
			if seq%2 == 1 {
				at = len(rows) - 1 - i
			}
			h.check(c, v, at, out[i*no:(i+1)*no], "PredictCSR")
		}
		for i := range sp.vals {
			sp.vals[i] = 12345
			sp.cols[i] = 0
		}
	case 6:
		out := h.out(no, 0)
		bad := 0
		if no > 0 && v.m.Predict(h.rows[r], 0, out[:no-1]) == nil {
			bad++
		}
		if v.m.Predict(h.rows[r][:h.e.NFeat-1], 0, out) == nil {
			bad++
		}
		if v.m.PredictDense(h.rows[r], 2, h.e.NFeat, out, 0, 1) == nil {
			bad++
		}
		if v.m.PredictCSR([]int{0, 5}, []int{0}, []float64{1}, out, 0, 1) == nil {
			bad++
		}
		if v.view == viewLeaf && h.e.stages() > 1 && v.m.Predict(h.rows[r], 1, out) == nil {
			bad++
		}
		if bad > 0 {
			c.Failf("%d of the failing calls were accepted", bad)
		}
		checkGuard(c, "failing calls", out, 0)
	case 7:
		nl := v.m.NLeaves()
		if fmt.Sprint(nl) != fmt.Sprint(h.nl) {
			c.Failf("NLeaves() = %v, want %v", nl, h.nl)
		}
		for i := range nl {
			nl[i] = -1
		}
	}
	return views
}

func (h *histModel) invariants(c *C, v histView) {
	e := h.e
	if v.m.NOutputGroups() != e.nOut(v.view) || v.m.NRawOutputGroups() != e.Groups || v.m.NEstimators() != e.stages() || v.m.NFeatures() != e.NFeat || v.m.Name() != e.name() {
		c.Failf("%s view: outputs %d raw outputs %d estimators %d features %d name %s", viewName[v.view], v.m.NOutputGroups(), v.m.NRawOutputGroups(), v.m.NEstimators(), v.m.NFeatures(), v.m.Name())
	}
	ty := transformation.Raw
	if v.view == viewLeaf {
		ty = transformation.LeafIndex
	} else if v.view == viewOrig {
		ty = []transformation.TransformType{transformation.Raw, transformation.Logistic, transformation.Softmax, transformation.Exponential}[e.link()]
	}
	if v.m.Transformation().Type() != ty {
		c.Failf("%s view has transformation %s", viewName[v.view], v.m.Transformation().Name())
	}
}

func runHistories(x *X) {
	longHistories(x)
	depth := 4
	if x.Thorough {
		depth = 5
	}
	for fam := 0; fam < numFamilies; fam++ {
		for _, load := range []bool{false, true} {
			if load != canLoad(fam) {
				continue
			}
			for _, g := range []int{1, 3} {
				for v := 0; v < 2; v++ {
					ld := load
					if !canGroups(fam, g, ld) {
						ld = false
					}
					e := zooEns(fam, 2, g, 2, v, ld)
					if v == 1 && fam == famLGText {
						e.RF = true
					}
					times := 40
					if x.Thorough {
						times = 400
					}
					for op0 := 0; op0 < histOps; op0++ {
						x.Case(func() string {
							return fmt.Sprintf("%s and one or two other calls repeated %d times; %s", histOpName[op0], times, e)
						}, func(c *C) { pumpCase(c, e, op0, times) })
					}
					// the first two steps select the case, the rest is explored inside
					for op0 := 0; op0 < histOps; op0++ {
						for op1 := 0; op1 < histOps; op1++ {
							x.Case(func() string {
								return fmt.Sprintf("all histories of %d calls that start with %s, %s; %s", depth, histOpName[op0], histOpName[op1], e)
							}, func(c *C) { histCase(c, e, op0, op1, depth) })
						}
					}
				}
			}
		}
	}
}

func histCase(c *C, e *Ens, op0, op1, depth int) {
	data := emit(e)
	c.SetModel(data)
	h := newHist(c, e, data)
	h.run(c, data, op0, op1, depth)
}

// swapped puts a row and the one with the same values in another order, that lead to other leaves, in front
func swapped(e *Ens, rows [][]float64) [][]float64 {
	found := false
	eachRow(e.Fam, e.Trees, e.NFeat, 2, 3000, 0.75, func(r []float64) {
		if found || e.NFeat < 2 || r[0] != r[0] || r[1] != r[1] || r[0] == r[1] {
			return
		}
		s := cloneF(r)
		s[0], s[1] = s[1], s[0]
		if !closeAll(e.expect(viewRaw, r, 0), e.expect(viewRaw, s, 0), close12) {
			rows, found = append([][]float64{cloneF(r), s}, rows...), true
		}
	})
	if e.Fam == famLinear && !found {
		rows = append([][]float64{{2, -1}, {-1, 2}}, rows...)
	}
	return rows
}

func newHist(c *C, e *Ens, data []byte) *histModel {
	h := &histModel{e: e, nl: e.nLeaves(), kept: map[string][]float64{}, ints: map[string][]int{}}
	h.rows = swapped(e, rowPool(e, 4))
	fresh := mustLoad(c, e.Fam, data, e.Load)
	lv := fresh.EnsembleWithLeafPredictions()
	for n := 0; n <= e.stages(); n++ {
		for _, view := range []int{viewOrig, viewRaw} {
			var w [][]float64
			for _, r := range h.rows {
				w = append(w, e.expect(view, r, n))
			}
			h.part[view] = append(h.part[view], w)
		}
	}
	for _, r := range h.rows {
		h.want[viewOrig] = append(h.want[viewOrig], e.expect(viewOrig, r, 0))
		h.want[viewRaw] = append(h.want[viewRaw], e.expect(viewRaw, r, 0))
		w := e.expect(viewLeaf, r, 0)
		if !e.leafExact() && e.Fam != famLinear { // numbering of the family: that of a fresh model
			if err := lv.Predict(r, 0, w); err != nil {
				c.Failf("%v", err)
			}
		}
		h.want[viewLeaf] = append(h.want[viewLeaf], w)
	}
	return h
}

// pumpCase repeats a word of two or three calls many times, on the model and on the views it grows
func pumpCase(c *C, e *Ens, op0, times int) {
	data := emit(e)
	c.SetModel(data)
	h := newHist(c, e, data)
	for op1 := 0; op1 < histOps; op1++ {
		for _, op2 := range []int{-1, 0, 3, 6} {
			for _, nest := range []int{0, 1, 2} { // calls go to the model itself, to the last view, or around
				m := mustLoad(c, e.Fam, data, e.Load)
				h.fresh = op2 < 0
				views := []histView{{m, viewOrig}}
				for k := 0; k < times; k++ {
					for j, op := range []int{op0, op1, op2} {
						if op < 0 {
							continue
						}
						at := 0
						if nest == 1 {
							at = len(views) - 1
						} else if nest == 2 {
							at = (k*7 + j) % len(views)
						}
						c.stage = fmt.Sprintf("round %d of %s, %s, %d; call %d on view %d", k, histOpName[op0], histOpName[op1], op2, j, at)
						views = h.apply(c, views, op, at, k)
						c.Trans(1)
					}
				}
				for a, v := range views {
					if a > 3 && a < len(views)-3 && a%29 > 0 {
						continue
					}
					h.invariants(c, v)
					c.stage = fmt.Sprintf("after %d rounds of %s, %s, %d", times, histOpName[op0], histOpName[op1], op2)
					h.apply(c, views[:len(views):len(views)], 3, a, a)
					h.apply(c, views[:len(views):len(views)], 5, a, a)
				}
				c.States(1)
				c.Traces(1)
			}
		}
	}
}

func (h *histModel) run(c *C, data []byte, op0, op1, depth int) {
	e := h.e
	type step struct{ op, at int }
	var prefix []step
	n, trans := 0, 0
	var rec func()
	rec = func() {
		i := len(prefix)
		// replay the prefix on a fresh model
		m := mustLoad(c, e.Fam, data, e.Load)
		views := []histView{{m, viewOrig}}
		for k, s := range prefix {
			c.stage = fmt.Sprint("history ", prefix[:k+1])
			views = h.apply(c, views, s.op, s.at, n+k)
			trans++
		}
		if i == depth {
			// every view still is what it is to be
			for a, v := range views {
				h.invariants(c, v)
				c.stage = fmt.Sprint("after history ", prefix)
				h.apply(c, views[:len(views):len(views)], 3, a, n)
				h.apply(c, views[:len(views):len(views)], 5, a, n)
			}
			n++
			return
		}
		for op := 0; op < histOps; op++ {
			if (i == 0 && op != op0) || (i == 1 && op != op1) {
				continue
			}
			for at := range views {
				prefix = append(prefix, step{op, at})
				rec()
				prefix = prefix[:i]
			}
		}
	}
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(failure); ok {
				s := ""
				for _, p := range prefix {
					s += fmt.Sprintf(" %s(view %d)", histOpName[p.op], p.at)
				}
				panic(failure{f.msg + "\nhistory:" + s})
			}
			panic(r)
		}
	}()
	rec()
	c.States(n)
	c.Trans(trans)
	c.Traces(n)
}

// ---- C12 ---------------------------------------------------------------------------------------------------------

func leafCase(c *C, e *Ens, m *leaves.Ensemble, size, limit int) {
	st, g := e.stages(), e.Groups
	nl := m.NLeaves()
	if fmt.Sprint(nl) != fmt.Sprint(e.nLeaves()) {
		c.Failf("NLeaves() = %v, want %v\n%s", nl, e.nLeaves(), e)
	}
	v := m.EnsembleWithLeafPredictions()
	if v.NOutputGroups() != st*g {
		c.Failf("leaf view has %d outputs, want %d", v.NOutputGroups(), st*g)
	}
	// reference leaf -> reported leaf and back, per tree
	fw := make([]map[int]int, st*g)
	bw := make([]map[int]int, st*g)
	for i := range fw {
		fw[i], bw[i] = map[int]int{}, map[int]int{}
	}
	n := 0
	var rows [][]float64
	out := guarded(st*g, 1)
	check := func(row, got []float64, what string) {
		want := e.leafs(row)
		for i := range want {
			l := int(got[i])
			if float64(l) != got[i] || l < 0 || l >= nl[i] {
				c.Failf("%s: row %v: output %d is %v, not a leaf of a tree with %d leaves\n%s", what, row, i, got[i], nl[i], e)
			}
			if e.leafExact() && l != want[i] {
				c.Failf("%s: row %v: leaf %d of tree (group %d, estimator %d), want %d\n%s", what, row, l, i/st, i%st, want[i], e)
			}
			if p, ok := fw[i][want[i]]; ok && p != l {
				c.Failf("%s: row %v: leaf %d of tree (group %d, estimator %d), rows that reach the same leaf gave %d\n%s", what, row, l, i/st, i%st, p, e)
			}
			if p, ok := bw[i][l]; ok && p != want[i] {
				c.Failf("%s: row %v: leaf %d of tree (group %d, estimator %d) is also reported for another leaf\n%s", what, row, l, i/st, i%st, e)
			}
			fw[i][want[i]] = l
			bw[i][l] = want[i]
		}
		n++
	}
	eachRow(e.Fam, e.Trees, e.NFeat, size, limit, 0.75, func(row []float64) {
		if err := v.Predict(row, 0, out); err != nil {
			c.Failf("%v", err)
		}
		check(row, out, "Predict")
		if len(rows) < 40 {
			rows = append(rows, cloneF(row))
		}
	})
	checkGuard(c, "Predict", out, st*g)
	sp := e.csrOf(rows, true)
	for _, th := range []int{1, 2} {
		od, os := guarded(len(rows)*st*g, 1), guarded(len(rows)*st*g, 1)
		if err := v.PredictDense(flat(rows, 1), len(rows), e.NFeat+1, od, st, th); err != nil {
			c.Failf("%v", err)
		}
		if err := v.PredictCSR(sp.indptr, sp.cols, sp.vals, os, st+1, th); err != nil {
			c.Failf("%v", err)
		}
		for i, r := range rows {
			check(r, od[i*st*g:(i+1)*st*g], "PredictDense")
			check(r, os[i*st*g:(i+1)*st*g], "PredictCSR")
		}
	}
	for k := 1; k < st; k++ {
		o := guarded(st*g, 0)
		if v.Predict(rows[0], k, o) == nil || v.PredictDense(rows[0], 1, e.NFeat, o, k, 1) == nil || v.PredictCSR(sp.indptr[:2], sp.cols, sp.vals, o, k, 1) == nil {
			c.Failf("leaf prediction with %d of %d estimators is accepted", k, st)
		}
		if st*g == 1 && v.PredictSingle(rows[0], k) != 0 {
			c.Failf("PredictSingle with too few estimators")
		}
		checkGuard(c, "refused leaf prediction", o, 0)
		if nr := len(rows); nr > 16 {
			for _, th := range []int{1, 2, 3} {
				o := guarded(nr*st*g, 0)
				if v.PredictDense(flat(rows, 1), nr, e.NFeat+1, o, k, th) == nil || v.PredictCSR(sp.indptr, sp.cols, sp.vals, o, k, th) == nil {
					c.Failf("leaf prediction of %d rows on %d threads with %d of %d estimators is accepted", nr, th, k, st)
				}
				checkGuard(c, "refused leaf prediction", o, 0)
			}
		}
	}
	c.States(n)
	c.Traces(n)
	c.Trans(n * st * g)
}

func runLeaves(x *X) {
	hugeLeaves(x)
	one := func(e *Ens, size, limit int) {
		x.Case(func() string { return e.String() }, func(c *C) { leafCase(c, e, e.load(c), size, limit) })
	}
	kmax := 4
	if x.Thorough {
		kmax = 5
	}
	for _, fam := range []int{famLGText, famLGJSON, famXGB, famDart, famSK} {
		var pal []Node
		switch fam {
		case famLGText, famLGJSON:
			pal = lgPaletteSmall()
		case famSK:
			pal = skPalette(false)
		default:
			pal = xgPalette(false)
		}
		one(oneTree(fam, Tree{Leaf: []float64{1}}), 0, 10)
		for k := 1; k <= kmax; k++ {
			shapes := catalan(k)
			if fam == famLGText || fam == famLGJSON {
				shapes = histories(k)
				if k <= 4 {
					for si, s := range catalan(k) {
						for _, np := range permutations(k - 1) {
							for li, lp := range permutations(k + 1) {
								if fam == famLGJSON && (li+si)%3 > 0 {
									continue
								}
								shapes = append(shapes, renumber(s, np, lp))
							}
						}
					}
				}
			}
			for si, s := range shapes {
				offs := len(pal)
				if len(shapes) > 200 {
					offs = 2
				}
				for off := 0; off < offs; off++ {
					for _, fm := range []int{1, k} {
						var d []Node
						var f []int
						for i := 0; i < k; i++ {
							d = append(d, pal[(si+off+i*3)%len(pal)])
							f = append(f, i%fm)
						}
						t := dress(s, d, f)
						if (fam == famXGB || fam == famSK) && k <= 3 && off == 0 {
							for _, o := range orders(&t) {
								e := oneTree(fam, t)
								x.Case(func() string { return e.String() }, func(c *C) {
									var data []byte
									if fam == famXGB {
										data = xgBytes(e, XGOpt{Order: func(int) []int { return o }})
									} else {
										data = skBytes(e, SKOpt{Order: func(int) []int { return o }})
									}
									leafCase(c, e, mustLoad(c, fam, data, false), 1, 400)
								})
							}
						}
						one(oneTree(fam, t), 1, 400)
					}
				}
			}
		}
		for g := 1; g <= 4; g++ {
			for st := 1; st <= 4; st++ {
				for v := 0; v < 6; v++ {
					for _, load := range []bool{false, true} {
						if !canGroups(fam, g, load) || load && !canLoad(fam) {
							continue
						}
						e := zooEns(fam, 3, g, st, v, load)
						one(e, 2, 1500)
						if fam == famLGText {
							r := zooEns(fam, 3, g, st, v, load)
							r.RF = true
							one(r, 2, 300)
						}
					}
				}
			}
		}
		// large trees
		for _, t := range []Tree{chain(40, 0), chain(40, 1), chain(40, 2), chain(300, 0), chain(300, 1), complete(6), complete(8)} {
			for i := range t.Nodes {
				t.Nodes[i].Thr = float64((i * 37) % 311)
				t.Nodes[i].F = i % 2
			}
			e := oneTree(fam, t)
			x.Case(func() string { return fmt.Sprintf("%s with %d leaves", famName[fam], len(t.Leaf)) }, func(c *C) { leafCase(c, e, e.load(c), 2, 30000) })
		}
	}
	for g := 1; g <= 3; g++ {
		e := zooEns(famLinear, 2, g, 1, 0, false)
		x.Case(func() string { return "leaf view of " + e.String() }, func(c *C) {
			v := e.load(c).EnsembleWithLeafPredictions()
			o := guarded(10, 0)
			if v.Predict([]float64{1, 2}, 0, o) == nil || v.PredictDense([]float64{1, 2}, 1, 2, o, 0, 1) == nil || v.PredictCSR([]int{0, 1}, []int{0}, []float64{1}, o, 0, 1) == nil {
				c.Failf("leaf prediction of a linear model is accepted")
			}
			if v.PredictSingle([]float64{1, 2}, 0) != 0 {
				c.Failf("PredictSingle")
			}
			checkGuard(c, "refused", o, 0)
			c.States(1)
			c.Trans(4)
			c.Traces(4)
		})
	}
}

func init() {
	register(&Check{ID: "C10", Level: "model_checking",
		Rule: "all 1..5-tuples over the score alphabet (around 0, overflow and underflow limits) through softmax, a score grid through sigmoid/exp with all offsets, and every objective spelling x groups x family x call form; 130 slopes of the sigmoid; softmax of up to thousands of groups; models from files of 35 names; one state per score tuple or (objective, scores)",
		Run:  func(x *X) { routes(x, famLGText, famXGB, famDart, famLinear); runTransform(x) }})
	register(&Check{ID: "C11", Level: "model_checking",
		Rule: "all call histories of depth 4 (5) over 10 operations applied to every ensemble derived so far, from a freshly loaded model, for every family; all words of two and some of three calls repeated 40 (400) times; rows and outputs of the caller are used again from call to call; after each history every view is checked; one state per history, transitions are executed calls",
		Run:  runHistories})
	register(&Check{ID: "C12", Level: "model_checking",
		Rule: "tree shapes x numberings/storage orders up to 4 (5) splits, ensembles groups x stages, large trees, all call forms; reported leaves against the reference leaves: identity for LightGBM text, bijection elsewhere; trees of up to 70000 leaves, inputs compared",
		Run: func(x *X) {
			sweep(x, []int{famLGText, famLGJSON, famXGB, famDart, famSK}, 150, func(c *C, e *Ens) { leafCase(c, e, e.load(c), 1, 150) })
			runLeaves(x)
		}})
}
