//go:build go1.23

package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/dmitryikh/leaves"
)

// ---- abstract models -------------------------------------------------------------------------------------

// missing types of LightGBM
const (
	missNone = 0
	missZero = 1
	missNaN  = 2
)

// Node is a decision of an abstract tree
type Node struct {
	F       int
	Cat     bool
	Missing int
	DefLeft bool
	Thr     float64
	Cats    []int
	Words   int // at least so many words are written for the set
	L, R    int // >= 0: node, < 0: ^leaf
}

// Tree is an abstract tree; node 0 is the root
type Tree struct {
	Nodes []Node
	Leaf  []float64
}

// Family of a model
const (
	famLGText = iota
	famLGJSON
	famXGB
	famDart
	famLinear
	famSK
	numFamilies
)

var famName = [...]string{"lightgbm-text", "lightgbm-json", "xgb-gbtree", "xgb-dart", "xgb-gblinear", "sklearn"}

// Ens is an abstract model
type Ens struct {
	Fam       int
	NFeat     int
	Groups    int
	Trees     []Tree // stage*Groups+group
	RF        bool
	Objective string    // LightGBM, XGBoost
	Base      float32   // XGBoost
	Drop      []float32 // dart
	Weights   []float32 // gblinear: (NFeat+1)*Groups
	Prior     []float64 // sklearn
	LR        float64   // sklearn
	Load      bool      // load transformation
}

func (e *Ens) stages() int {
	if e.Fam == famLinear {
		return 1
	}
	return len(e.Trees) / e.Groups
}

// ---- reference semantics -----------------------------------------------------------------------------------

const kZero = 1.0000000180025095e-35 // LightGBM's kZeroThreshold is the float32 1e-35f

// zeroAmbiguous tells values for which 1e-35 and float32(1e-35) disagree
func zeroAmbiguous(v float64) bool {
	a := math.Abs(v)
	return a >= 1e-35 && a <= kZero
}

func lgLeft(n *Node, v float64) bool {
	if n.Cat {
		if math.IsNaN(v) || v <= -1 || v >= 2147483648 {
			return false
		}
		c := int(v) // truncation
		for _, m := range n.Cats {
			if m == c {
				return true
			}
		}
		return false
	}
	if math.IsNaN(v) {
		if n.Missing == missNaN {
			return n.DefLeft
		}
		v = 0
	}
	if n.Missing == missZero && math.Abs(v) <= 1e-35 {
		return n.DefLeft
	}
	return v <= n.Thr
}

func xgLeft(n *Node, v float64) bool {
	if math.IsNaN(v) {
		return n.DefLeft
	}
	return v < n.Thr
}

func skLeft(n *Node, v float64) bool { return v <= n.Thr }

// walk returns the leaf and the number of decisions
func (t *Tree) walk(fam int, row []float64) (int, int) {
	if len(t.Nodes) == 0 {
		return 0, 0
	}
	i, steps := 0, 0
	for {
		n := &t.Nodes[i]
		steps++
		var left bool
		switch fam {
		case famXGB, famDart:
			left = xgLeft(n, row[n.F])
		case famSK:
			left = skLeft(n, row[n.F])
		default:
			left = lgLeft(n, row[n.F])
		}
		next := n.R
		if left {
			next = n.L
		}
		if next < 0 {
			return ^next, steps
		}
		i = next
	}
}

func adjust(n, total int) int {
	if n <= 0 || n > total {
		return total
	}
	return n
}

// raw is the reference raw prediction with the first n stages
func (e *Ens) raw(row []float64, n int) []float64 {
	out := make([]float64, e.Groups)
	if e.Fam == famLinear {
		for g := range out {
			s := float64(e.Base) + float64(e.Weights[e.NFeat*e.Groups+g])
			for f := 0; f < e.NFeat; f++ {
				if !math.IsNaN(row[f]) {
					s += row[f] * float64(e.Weights[f*e.Groups+g])
				}
			}
			out[g] = s
		}
		return out
	}
	n = adjust(n, e.stages())
	for g := range out {
		s := 0.0
		switch e.Fam {
		case famXGB, famDart:
			s = float64(e.Base)
		case famSK:
			s = e.Prior[g]
		}
		for i := 0; i < n; i++ {
			t := &e.Trees[i*e.Groups+g]
			l, _ := t.walk(e.Fam, row)
			v := t.Leaf[l]
			switch e.Fam {
			case famDart:
				v *= float64(e.Drop[i*e.Groups+g])
			case famSK:
				v *= e.LR
			}
			s += v
		}
		if e.RF {
			s /= float64(n)
		}
		out[g] = s
	}
	return out
}

// leafs returns reference leaves in the order of predictions of a leaf view
func (e *Ens) leafs(row []float64) []int {
	st := e.stages()
	out := make([]int, st*e.Groups)
	if e.Fam == famLinear {
		return out // no trees: leaf predictions are refused
	}
	for g := 0; g < e.Groups; g++ {
		for i := 0; i < st; i++ {
			out[g*st+i], _ = e.Trees[i*e.Groups+g].walk(e.Fam, row)
		}
	}
	return out
}

func (e *Ens) nLeaves() []int {
	if e.Fam == famLinear {
		return []int{}
	}
	st := e.stages()
	out := make([]int, st*e.Groups)
	for g := 0; g < e.Groups; g++ {
		for i := 0; i < st; i++ {
			out[g*st+i] = len(e.Trees[i*e.Groups+g].Leaf)
		}
	}
	return out
}

func (e *Ens) name() string {
	switch e.Fam {
	case famLGText:
		if e.RF {
			return "lightgbm.rf"
		}
		return "lightgbm.gbdt"
	case famLGJSON:
		return "lightgbm.gbdt"
	case famXGB:
		return "xgboost.gbtree"
	case famDart:
		return "xgboost.dart"
	case famLinear:
		return "xgboost.gblinear"
	}
	return "sklearn.ensemble.GradientBoostingClassifier"
}

// link names
const (
	linkRaw = iota
	linkLogistic
	linkSoftmax
	linkExp
)

var linkName = [...]string{"raw", "logistic", "softmax", "exponential"}

// link is the transformation the loaded model is to apply
func (e *Ens) link() int {
	if !e.Load {
		return linkRaw
	}
	switch e.Fam {
	case famLGText:
		if e.RF {
			return linkRaw
		}
		switch {
		case e.Objective == "poisson" || e.Objective == "gamma" || e.Objective == "tweedie":
			return linkExp
		case strings.HasPrefix(e.Objective, "binary"):
			return linkLogistic
		case strings.HasPrefix(e.Objective, "multiclass "):
			return linkSoftmax
		}
	case famXGB, famDart, famLinear:
		if e.Objective == "binary:logistic" {
			return linkLogistic
		}
	}
	return linkRaw
}

func applyLink(link int, raw []float64) []float64 {
	out := make([]float64, len(raw))
	switch link {
	case linkRaw:
		copy(out, raw)
	case linkLogistic:
		for i, v := range raw {
			if v >= 0 {
				out[i] = 1 / (1 + math.Exp(-v))
			} else {
				x := math.Exp(v)
				out[i] = x / (1 + x)
			}
		}
	case linkExp:
		for i, v := range raw {
			out[i] = math.Exp(v)
		}
	case linkSoftmax:
		m := math.Inf(-1)
		for _, v := range raw {
			m = math.Max(m, v)
		}
		s := 0.0
		for i, v := range raw {
			out[i] = math.Exp(v - m)
			s += out[i]
		}
		for i := range out {
			out[i] /= s
		}
	}
	return out
}

// absentValue is what an absent feature of a sparse row means
func (e *Ens) absentValue() float64 {
	if e.Fam == famXGB || e.Fam == famDart {
		return math.NaN()
	}
	return 0
}

// ---- number formatting ----------------------------------------------------------------------------------

// num writes a number in the way of C's %.17g (LightGBM)
func num(v float64) string {
	switch {
	case math.IsInf(v, 1):
		return "inf"
	case math.IsInf(v, -1):
		return "-inf"
	}
	return strconv.FormatFloat(v, 'g', 17, 64)
}

func jsonNum(v float64) string { return strconv.FormatFloat(v, 'g', 17, 64) }

func joinInts(v []int) string {
	var b strings.Builder
	for i, x := range v {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(strconv.Itoa(x))
	}
	return b.String()
}

func joinFloats(v []float64) string {
	var b strings.Builder
	for i, x := range v {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(num(x))
	}
	return b.String()
}

// ---- LightGBM text ------------------------------------------------------------------------------------------

// bitset of the categories in 32 bit words
func bitset(cats []int, words int) []uint32 {
	m := 0
	for _, c := range cats {
		if c > m {
			m = c
		}
	}
	n := m/32 + 1
	if n < words {
		n = words
	}
	b := make([]uint32, n)
	for _, c := range cats {
		b[c/32] |= 1 << uint(c%32)
	}
	return b
}

// kv is a line of a section
type kv struct{ K, V string }

// bareKeys are lines without a value
var bareKeys = map[string]bool{"boost_from_average": true, "is_linear_tree": true, "has spaces": true, "categorical features": true}

// lgTreeSection gives the lines of a tree
func lgTreeSection(t *Tree, idx int) []kv {
	n := len(t.Nodes)
	var feat, dec, left, right, icount, lcount []int
	var thr, gain, ival []float64
	var bounds []int
	var words []uint32
	ncat := 0
	for i := range t.Nodes {
		nd := &t.Nodes[i]
		feat = append(feat, nd.F)
		d := nd.Missing << 2
		if nd.DefLeft {
			d |= 2
		}
		th := nd.Thr
		if nd.Cat {
			d |= 1
			if ncat == 0 {
				bounds = []int{0}
			}
			th = float64(ncat)
			ncat++
			words = append(words, bitset(nd.Cats, nd.Words)...)
			bounds = append(bounds, len(words))
		}
		thr = append(thr, th)
		dec = append(dec, d)
		left = append(left, nd.L)
		right = append(right, nd.R)
		icount = append(icount, 10+i)
		gain = append(gain, 0.5)
		ival = append(ival, 0)
	}
	for i := range t.Leaf {
		lcount = append(lcount, 3+i)
	}
	s := []kv{{"Tree", strconv.Itoa(idx)}, {"num_leaves", strconv.Itoa(n + 1)}, {"num_cat", strconv.Itoa(ncat)}}
	s = append(s, kv{"split_feature", joinInts(feat)}, kv{"split_gain", joinFloats(gain)}, kv{"threshold", joinFloats(thr)},
		kv{"decision_type", joinInts(dec)}, kv{"left_child", joinInts(left)}, kv{"right_child", joinInts(right)},
		kv{"leaf_value", joinFloats(t.Leaf)}, kv{"leaf_count", joinInts(lcount)}, kv{"internal_value", joinFloats(ival)},
		kv{"internal_count", joinInts(icount)})
	if ncat > 0 {
		w := make([]int, len(words))
		for i := range words {
			w[i] = int(words[i])
		}
		s = append(s, kv{"cat_boundaries", joinInts(bounds)}, kv{"cat_threshold", joinInts(w)})
	}
	return append(s, kv{"shrinkage", "0.1"})
}

func lgHeaderSection(e *Ens, sizes []int) []kv {
	names := make([]string, e.NFeat)
	infos := make([]string, e.NFeat)
	for i := range names {
		names[i] = fmt.Sprintf("Column_%d", i)
		infos[i] = "[0:1]"
	}
	obj := e.Objective
	if obj == "" {
		obj = "regression"
	}
	s := []kv{{"tree", ""}, {"version", "v3"}, {"num_class", strconv.Itoa(e.Groups)}, {"num_tree_per_iteration", strconv.Itoa(e.Groups)},
		{"label_index", "0"}, {"max_feature_idx", strconv.Itoa(e.NFeat - 1)}, {"objective", obj}}
	if e.RF {
		s = append(s, kv{"average_output", ""})
	}
	return append(s, kv{"feature_names", strings.Join(names, " ")}, kv{"feature_infos", strings.Join(infos, " ")}, kv{"tree_sizes", joinInts(sizes)})
}

func writeSection(b *bytes.Buffer, s []kv, nl string) {
	for _, l := range s {
		b.WriteString(l.K)
		if l.V != "" || !(l.K == "tree" || l.K == "average_output" || bareKeys[l.K]) {
			b.WriteByte('=')
			b.WriteString(l.V)
		}
		b.WriteString(nl)
	}
}

// lgText writes the model in LightGBM's text format
func lgText(e *Ens) []byte {
	var trees []bytes.Buffer = make([]bytes.Buffer, len(e.Trees))
	var sizes []int
	for i := range e.Trees {
		writeSection(&trees[i], lgTreeSection(&e.Trees[i], i), "\n")
		trees[i].WriteString("\n\n")
		sizes = append(sizes, trees[i].Len())
	}
	var b bytes.Buffer
	writeSection(&b, lgHeaderSection(e, sizes), "\n")
	b.WriteString("\n")
	for i := range trees {
		b.Write(trees[i].Bytes())
	}
	b.WriteString("end of trees\n\nfeature importances:\nColumn_0=1\n\nparameters:\n[boosting: gbdt]\n[objective: " + "x" + "]\n\nend of parameters\n\npandas_categorical:null\n")
	return b.Bytes()
}

// ---- LightGBM JSON --------------------------------------------------------------------------------------------

var missName = [...]string{"None", "Zero", "NaN"}

func lgJSONNode(b *bytes.Buffer, t *Tree, i int) {
	if i < 0 {
		fmt.Fprintf(b, `{"leaf_index":%d,"leaf_value":%s,"leaf_count":3}`, ^i, jsonNum(t.Leaf[^i]))
		return
	}
	n := &t.Nodes[i]
	fmt.Fprintf(b, `{"split_index":%d,"split_feature":%d,"split_gain":0.5,"threshold":`, i, n.F)
	if n.Cat {
		c := append([]int(nil), n.Cats...)
		sort.Ints(c)
		s := make([]string, len(c))
		for k := range c {
			s[k] = strconv.Itoa(c[k])
		}
		fmt.Fprintf(b, `"%s","decision_type":"==",`, strings.Join(s, "||"))
	} else {
		fmt.Fprintf(b, `%s,"decision_type":"<=",`, jsonNum(n.Thr))
	}
	fmt.Fprintf(b, `"default_left":%v,"missing_type":"%s","internal_value":0,"internal_count":%d,"left_child":`, n.DefLeft, missName[n.Missing], 10+i)
	lgJSONNode(b, t, n.L)
	b.WriteString(`,"right_child":`)
	lgJSONNode(b, t, n.R)
	b.WriteString(`}`)
}

func lgJSON(e *Ens) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, `{"name":"tree","version":"v2","num_class":%d,"num_tree_per_iteration":%d,"label_index":0,"max_feature_idx":%d,"feature_names":[`,
		e.Groups, e.Groups, e.NFeat-1)
	for i := 0; i < e.NFeat; i++ {
		if i > 0 {
			b.WriteByte(',')
		}
		fmt.Fprintf(&b, `"Column_%d"`, i)
	}
	b.WriteString(`],"tree_info":[`)
	for i := range e.Trees {
		if i > 0 {
			b.WriteByte(',')
		}
		t := &e.Trees[i]
		ncat := 0
		for j := range t.Nodes {
			if t.Nodes[j].Cat {
				ncat++
			}
		}
		fmt.Fprintf(&b, `{"tree_index":%d,"num_leaves":%d,"num_cat":%d,"shrinkage":0.1,"tree_structure":`, i, len(t.Nodes)+1, ncat)
		if len(t.Nodes) == 0 {
			fmt.Fprintf(&b, `{"leaf_value":%s}`, jsonNum(t.Leaf[0]))
		} else {
			lgJSONNode(&b, t, 0)
		}
		b.WriteString("}\n")
	}
	b.WriteString("]}\n")
	return b.Bytes()
}

// ---- XGBoost binary ----------------------------------------------------------------------------------------------

type binw struct{ bytes.Buffer }

func (b *binw) i32(v int32) {
	var x [4]byte
	binary.LittleEndian.PutUint32(x[:], uint32(v))
	b.Write(x[:])
}
func (b *binw) u32(v uint32) { b.i32(int32(v)) }
func (b *binw) u64(v uint64) {
	var x [8]byte
	binary.LittleEndian.PutUint64(x[:], v)
	b.Write(x[:])
}
func (b *binw) f32(v float32) { b.u32(math.Float32bits(v)) }
func (b *binw) zeros(n int)   { b.Write(make([]byte, n)) }
func (b *binw) str(s string)  { b.u64(uint64(len(s))); b.WriteString(s) }

// xgOrder is the storage order of a tree's nodes and leaves: a list of node numbers (>= 0 node, < 0 ^leaf), root first
func xgOrder(t *Tree, kind int) []int {
	if len(t.Nodes) == 0 {
		return []int{^0}
	}
	ord := []int{0}
	switch kind {
	case 0: // breadth first, XGBoost's own
		for i := 0; i < len(ord); i++ {
			if ord[i] >= 0 {
				ord = append(ord, t.Nodes[ord[i]].L, t.Nodes[ord[i]].R)
			}
		}
	default: // depth first; 1: left first, 2: right first
		var rec func(i int)
		rec = func(i int) {
			if i < 0 {
				return
			}
			a, b := t.Nodes[i].L, t.Nodes[i].R
			if kind == 2 {
				a, b = b, a
			}
			ord = append(ord, a)
			rec(a)
			ord = append(ord, b)
			rec(b)
		}
		rec(0)
	}
	return ord
}

func xgTree(b *binw, t *Tree, nfeat int, order []int, vec []float32) {
	pos := map[int]int{}
	for i, v := range order {
		pos[v] = i
	}
	parent := map[int]int{}
	isLeft := map[int]bool{}
	for i := range t.Nodes {
		parent[t.Nodes[i].L] = i
		parent[t.Nodes[i].R] = i
		isLeft[t.Nodes[i].L] = true
	}
	b.i32(1)
	b.i32(int32(len(order)))
	b.i32(0)
	b.i32(3)
	b.i32(int32(nfeat))
	b.i32(int32(len(vec)))
	b.zeros(31 * 4)
	for i, v := range order {
		if i == 0 {
			b.i32(-1)
		} else {
			p := int32(pos[parent[v]])
			if isLeft[v] {
				p = int32(uint32(p) | 1<<31)
			}
			b.i32(p)
		}
		if v < 0 {
			b.i32(-1)
			b.i32(-1)
			b.u32(0)
			b.f32(float32(t.Leaf[^v]))
		} else {
			n := &t.Nodes[v]
			b.i32(int32(pos[n.L]))
			b.i32(int32(pos[n.R]))
			s := uint32(n.F)
			if n.DefLeft {
				s |= 1 << 31
			}
			b.u32(s)
			b.f32(float32(n.Thr))
		}
	}
	for range order {
		b.f32(0.5)
		b.f32(2)
		b.f32(0)
		b.i32(0)
	}
	if len(vec) > 0 { // the leaf vector, one per node
		b.u64(uint64(len(vec) * len(order)))
		for range order {
			for _, w := range vec {
				b.f32(w)
			}
		}
	}
}

// XGOpt is how an XGBoost model is laid out
type XGOpt struct {
	Order func(tree int) []int     // storage order, nil: breadth first
	Info  []int32                  // nil: round-robin
	Vec   func(tree int) []float32 // leaf vector of the nodes of a tree
	Head  []byte                   // what the header has after the number of classes (flags and reserved space), nil: zeros
	Tail  []byte                   // what follows the model (attributes, metrics)
	Inner func(n int) int          // number of features in the header of the trees
}

// xgBytes writes a gbtree, dart or gblinear model
func xgBytes(e *Ens, opt XGOpt) []byte {
	b := &binw{}
	b.f32(e.Base)
	b.u32(uint32(e.NFeat))
	nc := int32(0)
	if e.Groups > 1 {
		nc = int32(e.Groups)
	}
	b.i32(nc)
	if len(opt.Head) > 0 {
		b.Write(opt.Head[:31*4])
	} else {
		b.zeros(31 * 4)
	}
	obj := e.Objective
	if obj == "" {
		obj = "reg:linear"
		if e.Groups > 1 {
			obj = "multi:softprob"
		}
	}
	b.str(obj)
	switch e.Fam {
	case famXGB:
		b.str("gbtree")
	case famDart:
		b.str("dart")
	case famLinear:
		b.str("gblinear")
		b.u32(uint32(e.NFeat))
		b.i32(int32(e.Groups))
		b.zeros(32 * 4)
		b.u64(uint64(len(e.Weights)))
		for _, w := range e.Weights {
			b.f32(w)
		}
		b.Write(opt.Tail)
		return b.Bytes()
	}
	b.i32(int32(len(e.Trees)))
	b.i32(1)
	if opt.Inner != nil {
		b.i32(int32(opt.Inner(e.NFeat)))
	} else {
		b.i32(int32(e.NFeat))
	}
	b.i32(0)
	b.u64(0)
	b.i32(int32(e.Groups))
	size := 0
	if opt.Vec != nil {
		for i := range e.Trees {
			if n := len(opt.Vec(i)); n > size {
				size = n
			}
		}
	}
	b.i32(int32(size))
	b.zeros(32 * 4)
	for i := range e.Trees {
		var ord []int
		if opt.Order != nil {
			ord = opt.Order(i)
		} else {
			ord = xgOrder(&e.Trees[i], 0)
		}
		var vec []float32
		if opt.Vec != nil {
			vec = opt.Vec(i)
		}
		xgTree(b, &e.Trees[i], e.NFeat, ord, vec)
	}
	for i := range e.Trees {
		if opt.Info != nil {
			b.i32(opt.Info[i])
		} else {
			b.i32(int32(i % e.Groups))
		}
	}
	if e.Fam == famDart {
		b.u64(uint64(len(e.Drop)))
		for _, w := range e.Drop {
			b.f32(w)
		}
	}
	b.Write(opt.Tail)
	return b.Bytes()
}

// ---- loading -----------------------------------------------------------------------------------------------------

// emit writes the model in its family's format
func emit(e *Ens) []byte {
	switch e.Fam {
	case famLGText:
		return lgText(e)
	case famLGJSON:
		return lgJSON(e)
	case famSK:
		return skBytes(e, SKOpt{})
	}
	return xgBytes(e, XGOpt{})
}

func loadBytes(fam int, data []byte, tr bool) (*leaves.Ensemble, error) {
	switch fam {
	case famLGText:
		return leaves.LGEnsembleFromReader(bufio.NewReader(bytes.NewReader(data)), tr)
	case famLGJSON:
		return leaves.LGEnsembleFromJSON(bytes.NewReader(data), tr)
	case famXGB, famDart:
		return leaves.XGEnsembleFromReader(bufio.NewReader(bytes.NewReader(data)), tr)
	case famLinear:
		return leaves.XGBLinearFromReader(bufio.NewReader(bytes.NewReader(data)), tr)
	}
	return leaves.SKEnsembleFromReader(bufio.NewReader(bytes.NewReader(data)), tr)
}

// load emits and loads a model that has to be accepted
func (e *Ens) load(c *C) *leaves.Ensemble {
	data := emit(e)
	return mustLoad(c, e.Fam, data, e.Load)
}

func mustLoad(c *C, fam int, data []byte, tr bool) *leaves.Ensemble {
	c.SetModel(data)
	c.Stage("loading")
	m, err := loadBytes(fam, data, tr)
	if err != nil {
		c.Failf("a valid %s model is refused: %v", famName[fam], err)
	}
	c.Stage("predicting")
	return m
}

// ---- comparing ------------------------------------------------------------------------------------------------------

func same(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || a == b || (math.IsNaN(a) && math.IsNaN(b))
}

func close12(a, b float64) bool {
	if same(a, b) {
		return true
	}
	return math.Abs(a-b) <= 1e-12*(1+math.Max(math.Abs(a), math.Abs(b)))
}

func closeAll(a, b []float64, eq func(a, b float64) bool) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !eq(a[i], b[i]) {
			return false
		}
	}
	return true
}

func hash(parts ...interface{}) uint64 {
	h := uint64(14695981039346656037)
	for _, p := range parts {
		s := fmt.Sprint(p)
		for i := 0; i < len(s); i++ {
			h = (h ^ uint64(s[i])) * 1099511628211
		}
		h = (h ^ 0xff) * 1099511628211
	}
	return h
}

func hashBytes(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(b); i++ {
		h = (h ^ uint64(b[i])) * 1099511628211
	}
	return h
}
