//go:build go1.23

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"strconv"
)

// ---- a protocol 0 pickler with CPython's memoization ------------------------------------------------------------

type pyLong int  // L1L
type pyBool bool // I01
type pyNone struct{}
type pyStr struct{ s string } // unicode, memoized by identity
type pyTuple struct{ v []interface{} }
type pyList struct{ v []interface{} }
type pyDict struct{ kv []interface{} }
type pyGlobal struct{ mod, name string }
type pyReduce struct {
	callable *pyGlobal
	args     *pyTuple
	state    interface{} // nil: no BUILD
}

// PickleOpt are degrees of freedom of pickle writers
type PickleOpt struct {
	Ints    bool // I1 instead of L1L
	RawNul  bool // only backslash and newline are escaped (older Pythons)
	NoPut   bool // pickletools.optimize: no PUT that is never read
	Interns map[string]*pyStr
}

type pickler struct {
	b      bytes.Buffer
	memo   map[interface{}]int
	interm map[string]*pyStr
	glob   map[pyGlobal]*pyGlobal
	opt    PickleOpt
	used   map[int]bool // memo entries that are read
	dry    bool
}

// interned strings and globals of one pickle
func (p *pickler) str(s string) *pyStr {
	if x := p.interm[s]; x != nil {
		return x
	}
	x := &pyStr{s}
	p.interm[s] = x
	return x
}

func (p *pickler) global(mod, name string) *pyGlobal {
	k := pyGlobal{mod, name}
	if x := p.glob[k]; x != nil {
		return x
	}
	x := &pyGlobal{mod, name}
	p.glob[k] = x
	return x
}

func newPickler(opt PickleOpt) *pickler {
	return &pickler{memo: map[interface{}]int{}, interm: map[string]*pyStr{}, glob: map[pyGlobal]*pyGlobal{}, opt: opt}
}

func (p *pickler) put(key interface{}) {
	id := len(p.memo)
	p.memo[key] = id
	if p.opt.NoPut && !p.dry && !p.used[id] {
		return
	}
	fmt.Fprintf(&p.b, "p%d\n", id)
}

func (p *pickler) get(key interface{}) bool {
	id, ok := p.memo[key]
	if ok {
		fmt.Fprintf(&p.b, "g%d\n", id)
		if p.dry {
			p.used[id] = true
		}
	}
	return ok
}

// escapeUnicode is raw-unicode-escape of latin1 data as pickle's protocol 0 writes it
func escapeUnicode(s string, rawNul bool) string {
	var b bytes.Buffer
	for i := 0; i < len(s); i++ {
		switch ch := s[i]; {
		case ch == '\\':
			b.WriteString(`\u005c`)
		case ch == '\n':
			b.WriteString(`\u000a`)
		case ch == 0 && !rawNul:
			b.WriteString(`\u0000`)
		case ch == '\r' && !rawNul:
			b.WriteString(`\u000d`)
		case ch == 0x1a && !rawNul:
			b.WriteString(`\u001a`)
		default:
			b.WriteByte(ch)
		}
	}
	return b.String()
}

func pyFloatRepr(v float64) string {
	switch {
	case math.IsInf(v, 1):
		return "inf"
	case math.IsInf(v, -1):
		return "-inf"
	case math.IsNaN(v):
		return "nan"
	}
	s := strconv.FormatFloat(v, 'g', -1, 64)
	a := math.Abs(v)
	if a != 0 && a < 1e16 && a >= 1e-4 {
		s = strconv.FormatFloat(v, 'f', -1, 64)
	}
	for _, ch := range s {
		if ch == '.' || ch == 'e' {
			return s
		}
	}
	return s + ".0"
}

func (p *pickler) save(o interface{}) {
	b := &p.b
	switch x := o.(type) {
	case pyNone:
		b.WriteByte('N')
	case pyLong:
		if p.opt.Ints {
			fmt.Fprintf(b, "I%d\n", int(x))
		} else {
			fmt.Fprintf(b, "L%dL\n", int(x))
		}
	case pyBool:
		if x {
			b.WriteString("I01\n")
		} else {
			b.WriteString("I00\n")
		}
	case float64:
		fmt.Fprintf(b, "F%s\n", pyFloatRepr(x))
	case *pyStr:
		if !p.get(x) {
			fmt.Fprintf(b, "V%s\n", escapeUnicode(x.s, p.opt.RawNul))
			p.put(x)
		}
	case *pyTuple:
		if p.get(x) {
			return
		}
		b.WriteByte('(')
		for _, v := range x.v {
			p.save(v)
		}
		b.WriteByte('t')
		if len(x.v) > 0 {
			p.put(x)
		}
	case *pyList:
		if p.get(x) {
			return
		}
		b.WriteString("(l")
		p.put(x)
		for _, v := range x.v {
			p.save(v)
			b.WriteByte('a')
		}
	case *pyDict:
		if p.get(x) {
			return
		}
		b.WriteString("(d")
		p.put(x)
		for i := 0; i+1 < len(x.kv); i += 2 {
			p.save(x.kv[i])
			p.save(x.kv[i+1])
			b.WriteByte('s')
		}
	case *pyGlobal:
		if p.get(x) {
			return
		}
		fmt.Fprintf(b, "c%s\n%s\n", x.mod, x.name)
		p.put(x)
	case *pyReduce:
		if p.get(x) {
			return
		}
		p.save(x.callable)
		p.save(x.args)
		b.WriteByte('R')
		p.put(x)
		if x.state != nil {
			p.save(x.state)
			b.WriteByte('b')
		}
	default:
		panic(fmt.Sprintf("pickler: %T", o))
	}
}

// dump pickles the object that build makes
func dumpPickle(opt PickleOpt, build func(p *pickler) interface{}) []byte {
	p := newPickler(opt)
	obj := build(p)
	if opt.NoPut {
		p.dry = true
		p.used = map[int]bool{}
		p.save(obj)
		p.dry = false
		p.memo = map[interface{}]int{}
		p.b.Reset()
	}
	p.save(obj)
	p.b.WriteByte('.')
	return p.b.Bytes()
}

// ---- scikit-learn's GradientBoostingClassifier --------------------------------------------------------------------

// SKOpt are degrees of freedom of the pickle
type SKOpt struct {
	Pickle    PickleOpt
	Order     func(tree int) []int // storage order of nodes, nil: depth first, scikit-learn's own
	BigPrior  bool                 // big endian dtype of the priors
	BigValues bool                 // big endian dtype of the tree values
	MaxFeat   int                  // max_features_ (0: all features)
	NoNFeat   bool                 // no n_features_ key
	Mutate    func(p *pickler, root *pyReduce)
}

type skb struct {
	p     *pickler
	dts   map[string]*pyReduce
	bytes *pyReduce
}

func tup(v ...interface{}) *pyTuple { return &pyTuple{v} }

func (s *skb) dtype(name string, big bool) *pyReduce {
	key := fmt.Sprint(name, big)
	if d := s.dts[key]; d != nil {
		return d
	}
	e := "<"
	if big {
		e = ">"
	}
	if name == "O8" || name[0] == 'V' {
		e = "|"
	}
	d := &pyReduce{callable: s.p.global("numpy", "dtype"), args: tup(s.p.fresh(name), pyLong(0), pyLong(1))}
	st := tup(pyLong(3), s.p.str(e), pyNone{}, pyNone{}, pyNone{}, pyLong(-1), pyLong(-1), pyLong(0))
	if name == "V56" {
		names := []string{"left_child", "right_child", "feature", "threshold", "impurity", "n_node_samples", "weighted_n_node_samples"}
		types := []string{"i8", "i8", "i8", "f8", "f8", "i8", "f8"}
		nt := tup()
		fd := &pyDict{}
		for i, n := range names {
			x := s.p.fresh(n)
			nt.v = append(nt.v, x)
			fd.kv = append(fd.kv, x, tup(s.dtype(types[i], false), pyLong(i*8)))
		}
		st = tup(pyLong(3), s.p.str(e), pyNone{}, nt, fd, pyLong(56), pyLong(1), pyLong(16))
	} else if name == "O8" {
		st.v[7] = pyLong(63)
	}
	d.state = st
	s.dts[key] = d
	return d
}

func (p *pickler) fresh(v string) *pyStr { return &pyStr{v} }

func (s *skb) raw(b []byte) *pyReduce {
	return &pyReduce{callable: s.p.global("_codecs", "encode"), args: tup(s.p.fresh(string(b)), s.p.str("latin1"))}
}

func (s *skb) array(shape []int, dt *pyReduce, data interface{}) *pyReduce {
	if s.bytes == nil {
		s.bytes = s.raw([]byte("b"))
	}
	sh := tup()
	for _, v := range shape {
		sh.v = append(sh.v, pyLong(v))
	}
	return &pyReduce{
		callable: s.p.global("numpy.core.multiarray", "_reconstruct"),
		args:     tup(s.p.global("numpy", "ndarray"), tup(pyLong(0)), s.bytes),
		state:    tup(pyLong(1), sh, dt, pyBool(false), data),
	}
}

func (s *skb) scalar(dt *pyReduce, b []byte) *pyReduce {
	return &pyReduce{callable: s.p.global("numpy.core.multiarray", "scalar"), args: tup(dt, s.raw(b))}
}

func (s *skb) object(mod, name string, state *pyDict) *pyReduce {
	return &pyReduce{callable: s.p.global("copy_reg", "_reconstructor"),
		args: tup(s.p.global(mod, name), s.p.global("__builtin__", "object"), pyNone{}), state: state}
}

func i64s(v ...int) []byte {
	var b []byte
	for _, x := range v {
		b = binary.LittleEndian.AppendUint64(b, uint64(int64(x)))
	}
	return b
}

func f64s(big bool, v ...float64) []byte {
	var b []byte
	for _, x := range v {
		if big {
			b = binary.BigEndian.AppendUint64(b, math.Float64bits(x))
		} else {
			b = binary.LittleEndian.AppendUint64(b, math.Float64bits(x))
		}
	}
	return b
}

func (s *skb) dict(kv ...interface{}) *pyDict {
	d := &pyDict{}
	for i := 0; i+1 < len(kv); i += 2 {
		d.kv = append(d.kv, s.p.str(kv[i].(string)), kv[i+1])
	}
	return d
}

func (s *skb) tree(t *Tree, nfeat int, order []int, bigValues bool) *pyReduce {
	pos := map[int]int{}
	for i, v := range order {
		pos[v] = i
	}
	var nodes []byte
	var values []float64
	for i, v := range order {
		if v < 0 {
			nodes = append(nodes, i64s(-1, -1, -2)...)
			nodes = append(nodes, f64s(false, -2, 0)...)
			values = append(values, t.Leaf[^v])
		} else {
			n := &t.Nodes[v]
			nodes = append(nodes, i64s(pos[n.L], pos[n.R], n.F)...)
			nodes = append(nodes, f64s(false, n.Thr, 0.5)...)
			values = append(values, 1000+float64(i)) // values of inner nodes mean nothing
		}
		nodes = append(nodes, i64s(3)...)
		nodes = append(nodes, f64s(false, 3)...)
	}
	n := len(order)
	return &pyReduce{callable: s.p.global("sklearn.tree._tree", "Tree"),
		args: tup(pyLong(nfeat), s.array([]int{1}, s.dtype("i8", false), s.raw(i64s(1))), pyLong(1)),
		state: s.dict("max_depth", pyLong(3), "node_count", pyLong(n),
			"nodes", s.array([]int{n}, s.dtype("V56", false), s.raw(nodes)),
			"values", s.array([]int{n, 1, 1}, s.dtype("f8", bigValues), s.raw(f64s(bigValues, values...))))}
}

func skBuild(p *pickler, e *Ens, opt SKOpt) *pyReduce {
	s := &skb{p: p, dts: map[string]*pyReduce{}}
	K := e.Groups
	ncls := K
	if K == 1 {
		ncls = 2
	}
	maxf := e.NFeat
	if opt.MaxFeat > 0 {
		maxf = opt.MaxFeat
	}
	gb := "sklearn.ensemble.gradient_boosting"
	var init, loss *pyReduce
	if K == 1 {
		loss = s.object(gb, "BinomialDeviance", s.dict("K", pyLong(1)))
		init = s.object(gb, "LogOddsEstimator", s.dict("prior", s.scalar(s.dtype("f8", opt.BigPrior), f64s(opt.BigPrior, e.Prior[0]))))
	} else {
		loss = s.object(gb, "MultinomialDeviance", s.dict("K", pyLong(K)))
		init = s.object(gb, "PriorProbabilityEstimator", s.dict("priors", s.array([]int{K}, s.dtype("f8", opt.BigPrior), s.raw(f64s(opt.BigPrior, e.Prior...)))))
	}
	ests := &pyList{}
	for i := range e.Trees {
		t := &e.Trees[i]
		ord := xgOrder(t, 1)
		if opt.Order != nil {
			ord = opt.Order(i)
		}
		d := s.dict("criterion", s.p.str("friedman_mse"), "splitter", s.p.str("best"), "max_depth", pyLong(3), "min_samples_split", pyLong(2),
			"min_weight_fraction_leaf", 0.0, "max_features", pyNone{}, "presort", pyBool(false),
			"n_features_", pyLong(e.NFeat), "n_outputs_", pyLong(1), "classes_", pyNone{},
			"n_classes_", s.scalar(s.dtype("i8", false), i64s(1)), "max_features_", pyLong(maxf),
			"tree_", s.tree(t, e.NFeat, ord, opt.BigValues), "_sklearn_version", s.p.str("0.19.1"))
		ests.v = append(ests.v, s.object("sklearn.tree.tree", "DecisionTreeRegressor", d))
	}
	cls := make([]int, ncls)
	for i := range cls {
		cls[i] = i
	}
	d := s.dict("n_estimators", pyLong(e.stages()), "learning_rate", e.LR, "loss", s.p.str("deviance"),
		"criterion", s.p.str("friedman_mse"), "min_samples_split", pyLong(2), "subsample", 1.0, "max_features", pyNone{},
		"warm_start", pyBool(false))
	if !opt.NoNFeat {
		d.kv = append(d.kv, s.p.str("n_features_"), pyLong(e.NFeat))
	}
	d.kv = append(d.kv, s.dict("classes_", s.array([]int{ncls}, s.dtype("i8", false), s.raw(i64s(cls...))), "n_classes_", pyLong(ncls),
		"loss_", loss, "max_features_", pyLong(maxf), "init_", init,
		"estimators_", s.array([]int{e.stages(), K}, s.dtype("O8", false), ests), "_sklearn_version", s.p.str("0.19.1")).kv...)
	return s.object(gb, "GradientBoostingClassifier", d)
}

func skBytes(e *Ens, opt SKOpt) []byte {
	return dumpPickle(opt.Pickle, func(p *pickler) interface{} {
		r := skBuild(p, e, opt)
		if opt.Mutate != nil {
			opt.Mutate(p, r)
		}
		return r
	})
}
