//go:build go1.23

package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"

	"github.com/dmitryikh/leaves"
)

// ---- C16 ---------------------------------------------------------------------------------------------------------

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

type corruptCase struct {
	c        *C
	m        *faultModel
	rows     [][]float64
	nfeat    int
	accepted int
	refused  int
	orig     fingerprint
	changed  int
}

// try loads a corrupted file and, if it is accepted, uses the model in every way
func (k *corruptCase) try(data []byte, what string, bigSets bool) {
	c := k.c
	if bytes.Equal(data, k.m.data) {
		return
	}
	h := hashBytes(data)
	if _, ok := c.x.distinct[h]; ok {
		return
	}
	c.Distinct(h)
	c.Evals(1)
	c.SetModel(data)
	c.stage = "loading with " + what
	a0 := allocated()
	got, err := loadFrom(k.m.fam, bytes.NewReader(data), k.m.load, 4096)
	used := allocated() - a0
	// proportion: 64 MB (buffers, first chunks of announced data) and 1000 bytes per byte of the file; a category set
	// is a bitset as long as its largest category
	if limit := uint64(64<<20 + 1000*len(data)); used > limit && !bigSets {
		c.Failf("%s: %d MB are allocated while loading %d bytes", what, used>>20, len(data))
	}
	if err != nil {
		k.refused++
		return
	}
	k.accepted++
	c.stage = "predicting with " + what
	k.use(got)
}

func (k *corruptCase) use(m *leaves.Ensemble) {
	nf := m.NFeatures()
	rows := k.rows
	if nf > k.nfeat {
		// shorter rows have to be refused
		out := make([]float64, m.NOutputGroups())
		if m.Predict(rows[0], 0, out) == nil {
			k.c.Failf("%s: a row of %d values is accepted by a model with %d features", k.c.stage, len(rows[0]), nf)
		}
		if nf > 1<<16 {
			m.NLeaves()
			return
		}
		rows = nil
		for _, r := range k.rows {
			x := make([]float64, nf)
			copy(x, r)
			rows = append(rows, x)
		}
	}
	if nf < 0 || m.NOutputGroups() < 0 || m.NEstimators() < 0 {
		k.c.Failf("%s: negative metadata", k.c.stage)
	}
	fp, _ := printModel(m, rows)
	if !fp.equal(k.orig) {
		k.changed++
	}
	n := len(rows[0])
	for v := viewOrig; v <= viewLeaf; v++ {
		d := deriveView(m, v)
		no := d.NOutputGroups()
		out := make([]float64, no*len(rows))
		for _, ne := range []int{0, 1} {
			d.PredictDense(flat(rows, 0), len(rows), n, out, ne, 1)
			ip := []int{0}
			var cols []int
			var vals []float64
			for _, r := range rows {
				for j, x := range r {
					cols = append(cols, j)
					vals = append(vals, x)
				}
				ip = append(ip, len(cols))
			}
			d.PredictCSR(ip, cols, vals, out, ne, 1)
			for _, r := range rows {
				d.PredictSingle(r, ne)
			}
		}
	}
}

// corruptRows are rows with ordinary and extreme values
func corruptRows(m *faultModel, nf int) [][]float64 {
	rows := append([][]float64{}, m.probeRows(nf, 4)...)
	for _, v := range []float64{math.NaN(), math.Inf(1), math.Inf(-1), 0, 1e300, -1, 31, 32, 1e9, 2147483647, 2147483648, 4294967296} {
		r := make([]float64, nf)
		for i := range r {
			r[i] = v
		}
		rows = append(rows, r)
	}
	return rows
}

func corruptModels(thorough bool) []faultModel {
	var ms []faultModel
	for fam := 0; fam < numFamilies; fam++ {
		add := func(e *Ens) {
			ms = append(ms, faultModel{fmt.Sprintf("%s features=%d groups=%d stages=%d", famName[fam], e.NFeat, e.Groups, e.stages()), fam, emit(e), e.Load, e})
		}
		st := 2
		if fam == famLinear {
			st = 1
		}
		add(zooEns(fam, 2, 1, 1, 1, canLoad(fam)))
		if fam != famSK || thorough {
			add(zooEns(fam, 3, 1, st, 2, canLoad(fam)))
		}
		add(zooEns(fam, 2, 3, 1, 3, canLoad(fam) && canGroups(fam, 3, true)))
		if fam == famSK {
			e := oneTree(fam, dress(Tree{Nodes: []Node{{L: ^0, R: ^1}}, Leaf: []float64{1, 2}}, []Node{numNode(0.5, 0, false)}, []int{0}))
			e.Prior, e.LR = []float64{0.25}, 0.5
			add(e)
		}
		if fam == famLGText {
			// a model with category sets of every encoding
			t := dress(chain(3, 0), []Node{catNode(missNone, false, 0, 1), catNode(missNaN, false, 0, 0, 5), catNode(missZero, false, 3, 2, 40)}, []int{0, 1, 0})
			setLeaves(&t, func(l int) float64 { return float64(l) + 0.5 })
			e := oneTree(fam, t)
			e.NFeat = 2
			add(e)
			ej := *e
			ej.Fam = famLGJSON
			ms = append(ms, faultModel{"lightgbm-json with category sets", famLGJSON, emit(&ej), false, &ej})
		}
		if thorough {
			for v := 4; v < 12; v++ {
				add(zooEns(fam, 1+v%3, 1, st, v, canLoad(fam)))
			}
			add(zooEns(fam, 2, 3, st, 3, false))
		}
	}
	return ms
}

var wrongInts = []int64{0, 1, -1, 2, -2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 100, 127, 128, 255, 256, 1000, 32767, 32768, 65535, 65536, 1 << 20, 1 << 24,
	1<<31 - 1, 1 << 31, -1 << 31, -1<<31 - 1, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1 << 33, 1 << 40, 1 << 53, 1 << 60, 1 << 61, 1 << 62, 1<<63 - 1, -1 << 63, -3, -4, -5, -100, 9, 10, 11, 12, 13, 14}

// wrongNumbers around a number
func wrongNumbers(v int64) []int64 {
	return append([]int64{v + 1, v - 1, v + 2, v - 2, -v, ^v, v * 2, v / 2, v + 1<<32, v | 1<<31}, wrongInts...)
}

// ---- mutations of texts by tokens

func textMutants(data []byte, f func(d []byte, what string, numeric bool)) {
	lines := strings.Split(string(data), "\n")
	join := func(ls []string) []byte { return []byte(strings.Join(ls, "\n")) }
	for i, l := range lines {
		rep := func(n string, what string) {
			ls := append([]string(nil), lines...)
			ls[i] = n
			f(join(ls), fmt.Sprintf("line %d (%.60q) replaced by %.80q (%s)", i, l, n, what), true)
		}
		// the whole line
		f(join(append(append([]string(nil), lines[:i]...), lines[i+1:]...)), fmt.Sprintf("line %d (%.60q) removed", i, l), false)
		f(join(append(append(append([]string(nil), lines[:i+1]...), l), lines[i+1:]...)), fmt.Sprintf("line %d (%.60q) repeated", i, l), false)
		if i+1 < len(lines) {
			ls := append([]string(nil), lines...)
			ls[i], ls[i+1] = ls[i+1], ls[i]
			f(join(ls), fmt.Sprintf("lines %d and %d swapped", i, i+1), false)
		}
		for j := range lines {
			if j != i && len(lines) < 80 {
				rep(lines[j], "a copy of another line")
			}
		}
		eq := strings.IndexByte(l, '=')
		if eq < 0 {
			rep(l+"=", "equals sign added")
			rep(l+"=1", "value added")
			continue
		}
		key, val := l[:eq], l[eq+1:]
		rep(key, "no value")
		rep(key+"=", "empty value")
		rep(key+"= ", "blank value")
		rep(key+"=="+val, "two equals signs")
		rep("x"+l, "other key")
		toks := strings.Split(val, " ")
		for t, tok := range toks {
			with := func(n string) {
				ts := append([]string(nil), toks...)
				ts[t] = n
				rep(key+"="+strings.Join(ts, " "), fmt.Sprintf("token %d", t))
			}
			v, err := strconv.ParseInt(tok, 10, 64)
			if err != nil {
				v = 3
			}
			for _, n := range wrongNumbers(v) {
				with(strconv.FormatInt(n, 10))
			}
			for _, s := range []string{"", "x", "nan", "inf", "-inf", "1e5", "1.5", "-0", "+1", " ", "99999999999999999999", "-99999999999999999999", "1e400", "0x10", tok + " " + tok, tok + " 0", tok + "x", "\t" + tok, "\x00"} {
				with(s)
			}
			ts := append(append([]string(nil), toks[:t]...), toks[t+1:]...)
			rep(key+"="+strings.Join(ts, " "), "token removed")
			if t > 0 {
				rep(key+"="+strings.Join(toks[:t], " "), "tokens removed")
			}
		}
	}
}

// ---- mutations of binary data

func binaryMutants(data []byte, f func(d []byte, what string)) {
	for p := 0; p+4 <= len(data); p++ {
		old := binary.LittleEndian.Uint32(data[p:])
		for _, v := range wrongNumbers(int64(int32(old))) {
			d := append([]byte(nil), data...)
			binary.LittleEndian.PutUint32(d[p:], uint32(v))
			f(d, fmt.Sprintf("uint32 %d at byte %d replaced by %d", old, p, uint32(v)))
		}
		for _, v := range []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat32, -1, 0.5} {
			d := append([]byte(nil), data...)
			binary.LittleEndian.PutUint32(d[p:], math.Float32bits(float32(v)))
			f(d, fmt.Sprintf("uint32 at byte %d replaced by float %v", p, v))
		}
		f(append(append([]byte(nil), data[:p]...), data[p+4:]...), fmt.Sprintf("4 bytes removed at byte %d", p))
		f(append(append(append([]byte(nil), data[:p]...), data[p:p+4]...), data[p:]...), fmt.Sprintf("4 bytes repeated at byte %d", p))
	}
	for p := 0; p+8 <= len(data); p++ {
		old := binary.LittleEndian.Uint64(data[p:])
		for _, v := range wrongNumbers(int64(old)) {
			d := append([]byte(nil), data...)
			binary.LittleEndian.PutUint64(d[p:], uint64(v))
			f(d, fmt.Sprintf("uint64 %d at byte %d replaced by %d", old, p, uint64(v)))
		}
	}
}

func byteMutants(data []byte, alphabet []byte, from, to int, f func(d []byte, what string)) {
	for p := from; p < to && p < len(data); p++ {
		d := append([]byte(nil), data...)
		for _, b := range alphabet {
			if b == data[p] {
				continue
			}
			d[p] = b
			f(append([]byte(nil), d...), fmt.Sprintf("byte %d (%q) replaced by %q", p, data[p], b))
		}
		f(append(append([]byte(nil), data[:p]...), data[p+1:]...), fmt.Sprintf("byte %d (%q) removed", p, data[p]))
		f(append(append(append([]byte(nil), data[:p]...), data[p]), data[p:]...), fmt.Sprintf("byte %d (%q) repeated", p, data[p]))
	}
}

// ---- mutations of object trees (JSON and pickle)

// slot is a place in an object tree
type objSlot struct {
	path string
	get  func() interface{}
	set  func(v interface{})
	del  func() func() // removes the element, returns the undo; nil: not an element
}

func jsonSlots(path string, v interface{}, visit func(s objSlot)) {
	switch x := v.(type) {
	case map[string]interface{}:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			k := k
			visit(objSlot{path + "." + k, func() interface{} { return x[k] }, func(n interface{}) { x[k] = n },
				func() func() { old := x[k]; delete(x, k); return func() { x[k] = old } }})
			jsonSlots(path+"."+k, x[k], visit)
		}
	case []interface{}:
		for i := range x {
			i := i
			visit(objSlot{fmt.Sprintf("%s[%d]", path, i), func() interface{} { return x[i] }, func(n interface{}) { x[i] = n }, nil})
			jsonSlots(fmt.Sprintf("%s[%d]", path, i), x[i], visit)
		}
	}
}

func jsonMutants(data []byte, f func(d []byte, what string, bigSets bool)) {
	dec := json.NewDecoder(bytes.NewReader(data))
	dec.UseNumber()
	var root interface{}
	if err := dec.Decode(&root); err != nil {
		panic(err)
	}
	out := func(what string, big bool) {
		b, err := json.Marshal(root)
		if err != nil {
			panic(err)
		}
		f(b, what, big)
	}
	var slots []objSlot
	jsonSlots("", root, func(s objSlot) { slots = append(slots, s) })
	deep := map[string]interface{}{"leaf_value": json.Number("1")}
	for i := 0; i < 50; i++ {
		deep = map[string]interface{}{"split_index": json.Number(strconv.Itoa(i)), "split_feature": json.Number("0"), "threshold": json.Number("0.5"),
			"decision_type": "<=", "default_left": true, "missing_type": "None", "left_child": deep, "right_child": map[string]interface{}{"leaf_value": json.Number("2")}}
	}
	for i := range slots {
		s := slots[i]
		old := s.get()
		alts := []interface{}{nil, true, false, "", "x", "1", json.Number("1"), json.Number("-1"), json.Number("1.5"), []interface{}{}, map[string]interface{}{}, []interface{}{nil},
			[]interface{}{map[string]interface{}{}}, map[string]interface{}{"leaf_value": json.Number("3")}, map[string]interface{}{"leaf_value": nil},
			map[string]interface{}{"leaf_value": "1"}, deep, root0(root)}
		switch x := old.(type) {
		case json.Number:
			v, err := x.Int64()
			if err != nil {
				v = 3
			}
			for _, n := range wrongNumbers(v) {
				alts = append(alts, json.Number(strconv.FormatInt(n, 10)))
			}
			alts = append(alts, json.Number("1e400"), json.Number("1e308"), json.Number("99999999999999999999"), json.Number("0.1"))
		case string:
			alts = append(alts, x+"||1", x+"||", "||", x+x, "==", "<=", ">", "<", "None", "Zero", "NaN", "Inf", "v2", "v3", "v4", "0||1||2", "-1", "0||-1", "1.5", "1||x", "2147483647", "2147483648",
				"4294967295", "99999999999999999999", "1|2", "31||32||33", "1000000", "nan", "inf", " 1", "1 || 2", "0||0", "1e3")
		case []interface{}:
			for k := range x {
				alts = append(alts, append(append([]interface{}{}, x[:k]...), x[k+1:]...), append(append(append([]interface{}{}, x[:k+1]...), x[k]), x[k+1:]...))
			}
		case map[string]interface{}:
			for _, k := range []string{"split_index", "left_child", "leaf_value"} {
				n := map[string]interface{}{}
				for kk, v := range x {
					n[kk] = v
				}
				n[k] = json.Number("0")
				alts = append(alts, n)
			}
		}
		for _, a := range alts {
			s.set(a)
			str, isStr := a.(string)
			big := isStr && len(str) >= 7
			if n, ok := a.(json.Number); ok && len(n) >= 7 {
				big = true
			}
			out(fmt.Sprintf("%s (%.60v) replaced by %.100v", s.path, old, a), big && strings.HasSuffix(s.path, "threshold"))
		}
		s.set(old)
		if s.del != nil {
			undo := s.del()
			out(s.path+" removed", false)
			undo()
		}
	}
}

// root0 is a shallow copy of the document, to be nested in itself
func root0(v interface{}) interface{} {
	if m, ok := v.(map[string]interface{}); ok {
		return map[string]interface{}{"name": m["name"], "tree_info": "x"}
	}
	return nil
}

func pickleSlots(path string, o interface{}, seen map[interface{}]bool, visit func(s objSlot)) {
	list := func(v *[]interface{}) {
		for i := 0; i < len(*v); i++ {
			i := i
			p := fmt.Sprintf("%s[%d]", path, i)
			visit(objSlot{p, func() interface{} { return (*v)[i] }, func(n interface{}) { (*v)[i] = n }, func() func() {
				old := *v
				*v = append(append([]interface{}{}, old[:i]...), old[i+1:]...)
				return func() { *v = old }
			}})
			pickleSlots(p, (*v)[i], seen, visit)
		}
	}
	switch x := o.(type) {
	case *pyTuple:
		if !seen[x] {
			seen[x] = true
			list(&x.v)
		}
	case *pyList:
		if !seen[x] {
			seen[x] = true
			list(&x.v)
		}
	case *pyDict:
		if !seen[x] {
			seen[x] = true
			for i := 0; i+1 < len(x.kv); i += 2 {
				i := i
				name := ""
				if s, ok := x.kv[i].(*pyStr); ok {
					name = s.s
				}
				visit(objSlot{path + ".key:" + name, func() interface{} { return x.kv[i] }, func(n interface{}) { x.kv[i] = n }, nil})
				visit(objSlot{path + "." + name, func() interface{} { return x.kv[i+1] }, func(n interface{}) { x.kv[i+1] = n }, func() func() {
					old := x.kv
					x.kv = append(append([]interface{}{}, old[:i]...), old[i+2:]...)
					return func() { x.kv = old }
				}})
				pickleSlots(path+"."+name, x.kv[i+1], seen, visit)
			}
		}
	case *pyReduce:
		if !seen[x] {
			seen[x] = true
			visit(objSlot{path + ".callable", func() interface{} { return x.callable }, func(n interface{}) {
				if g, ok := n.(*pyGlobal); ok {
					x.callable = g
				}
			}, nil})
			visit(objSlot{path + ".args", func() interface{} { return x.args }, func(n interface{}) {
				if t, ok := n.(*pyTuple); ok {
					x.args = t
				}
			}, nil})
			pickleSlots(path+".args", x.args, seen, visit)
			if x.state != nil {
				visit(objSlot{path + ".state", func() interface{} { return x.state }, func(n interface{}) { x.state = n }, nil})
				pickleSlots(path+".state", x.state, seen, visit)
			}
		}
	}
}

// pickleMutants replaces every object of the pickle by other objects
func pickleMutants(e *Ens, part, parts int, f func(d []byte, what string)) {
	// the graph is rebuilt and one slot replaced; a first build tells the number of slots
	count := 0
	k := -1   // slot
	alt := 0  // alternative
	altN := 0 // number of alternatives of the slot
	desc := ""
	build := func() []byte {
		return skBytes(e, SKOpt{Mutate: func(p *pickler, root *pyReduce) {
			var slots []objSlot
			pickleSlots("", root, map[interface{}]bool{}, func(s objSlot) { slots = append(slots, s) })
			count = len(slots)
			if k < 0 {
				return
			}
			s := slots[k]
			old := s.get()
			alts := []interface{}{pyNone{}, pyLong(0), pyLong(7), pyLong(-3), 1.5, pyBool(true), &pyStr{""}, &pyStr{"x"}, tup(), &pyList{}, &pyDict{}, tup(pyLong(1), tup(), pyNone{}),
				p.global("numpy", "ndarray"), p.global("os", "system"), &pyList{[]interface{}{pyNone{}}},
				&pyReduce{callable: p.global("numpy", "dtype"), args: tup(&pyStr{"f8"}, pyLong(0), pyLong(1))},
				&pyReduce{callable: p.global("numpy.core.multiarray", "scalar"), args: tup(pyLong(1), pyLong(2))}}
			switch x := old.(type) {
			case pyLong:
				for _, n := range wrongNumbers(int64(x)) {
					alts = append(alts, pyLong(n))
				}
			case float64:
				alts = append(alts, math.NaN(), math.Inf(1), math.Inf(-1), 1e308, -x)
			case pyBool:
				alts = append(alts, pyBool(!x))
			case *pyStr:
				n := len(x.s)
				alts = append(alts, &pyStr{x.s + "x"}, &pyStr{x.s + x.s})
				if n > 0 {
					alts = append(alts, &pyStr{x.s[:n-1]}, &pyStr{x.s[:n/2]}, &pyStr{x.s[1:]})
				}
				for _, o := range []string{"f4", "f8", "i4", "i8", "O8", "V56", "<", ">", "|", "=", "latin1", "b1", "u8", "deviance", "exponential", "prior", "priors"} {
					alts = append(alts, &pyStr{o})
				}
				if n >= 8 && n%8 == 0 && strings.Contains(s.path, "args") { // array data
					for i := 0; i < n; i += 8 {
						v := int64(binary.LittleEndian.Uint64([]byte(x.s[i : i+8])))
						ns := wrongNumbers(v)
						for _, fl := range []float64{math.NaN(), math.Inf(1), math.Inf(-1), -0.5, 1e300} {
							ns = append(ns, int64(math.Float64bits(fl)))
						}
						if alt >= len(alts)+len(ns)+3 || alt < len(alts) { // not the one
							alts = append(alts, make([]interface{}, len(ns)+3)...)
							continue
						}
						for _, w := range ns {
							b := []byte(x.s)
							binary.LittleEndian.PutUint64(b[i:], uint64(w))
							alts = append(alts, &pyStr{string(b)})
						}
						alts = append(alts, &pyStr{x.s[:i]}, &pyStr{x.s[:i] + x.s[i+8:]}, &pyStr{x.s[:i+8] + x.s[i:]})
					}
				}
			case *pyTuple:
				for i := range x.v {
					alts = append(alts, tup(append(append([]interface{}{}, x.v[:i]...), x.v[i+1:]...)...))
					alts = append(alts, tup(append(append([]interface{}{}, x.v[:i+1]...), x.v[i:]...)...))
					for j := range x.v[:i] {
						y := append([]interface{}{}, x.v...)
						y[i], y[j] = y[j], y[i]
						alts = append(alts, tup(y...))
					}
				}
			case *pyList:
				for i := range x.v {
					alts = append(alts, &pyList{append(append([]interface{}{}, x.v[:i+1]...), x.v[i:]...)})
				}
				alts = append(alts, tup(x.v...))
			case *pyGlobal:
				for _, g := range [][2]string{{"copy_reg", "_reconstructor"}, {"numpy", "dtype"}, {"numpy.core.multiarray", "_reconstruct"}, {"numpy.core.multiarray", "scalar"}, {"_codecs", "encode"},
					{"sklearn.tree._tree", "Tree"}, {"sklearn.tree.tree", "DecisionTreeRegressor"}, {"sklearn.ensemble.gradient_boosting", "GradientBoostingClassifier"}, {"sklearn.ensemble.gradient_boosting", "LogOddsEstimator"},
					{"sklearn.ensemble.gradient_boosting", "PriorProbabilityEstimator"}, {"sklearn.ensemble.gradient_boosting", "BinomialDeviance"}, {"__builtin__", "object"}, {"numpy", "ndarray"}, {"x", "y"}} {
					alts = append(alts, p.global(g[0], g[1]))
				}
			}
			alts = append(alts, root) // a cycle or the model itself
			altN = len(alts)
			if alt < altN {
				desc = fmt.Sprintf("%s (%.40v) replaced by %.60v", s.path, short(old), short(alts[alt]))
				if alts[alt] == interface{}(root) {
					// the pickler can't write cycles through REDUCE: an object of the same class without state instead
					s.set(&pyReduce{callable: root.callable, args: tup(append([]interface{}{}, root.args.v...)...)})
					return
				}
				s.set(alts[alt])
			} else if s.del != nil {
				desc = s.path + " removed"
				s.del()
			}
		}})
	}
	build()
	n := count
	for i := part; i < n; i += parts {
		k = i
		altN = 1 << 30
		for alt = 0; alt <= altN; alt++ {
			d := build()
			f(d, desc)
		}
	}
}

func short(o interface{}) string {
	switch x := o.(type) {
	case *pyStr:
		return fmt.Sprintf("%q", x.s)
	case *pyTuple:
		return fmt.Sprintf("tuple of %d", len(x.v))
	case *pyList:
		return fmt.Sprintf("list of %d", len(x.v))
	case *pyDict:
		return fmt.Sprintf("dict of %d", len(x.kv)/2)
	case *pyReduce:
		return "object " + x.callable.name
	case *pyGlobal:
		return x.mod + "." + x.name
	}
	return fmt.Sprintf("%T %v", o, o)
}

// opcodeMutants changes the pickle's operations
func opcodeMutants(data []byte, part, parts int, f func(d []byte, what string)) {
	lines := bytes.SplitAfter(data, []byte("\n"))
	// lines that are part of other lines' operands are mutated as well
	ins := []string{"(", ".", "F1.5\n", "I5\n", "I01\n", "I00\n", "L3L\n", "N", "R", "Vx\n", "a", "b", "cos\nsystem\n", "cnumpy\ndtype\n", "d", "g0\n", "g1\n", "g99999\n", "l", "p0\n", "p1\n", "s", "t", "\x80\x02", "0", "2", "S'x'\n", "e", "}", "]", ")", "q\x00"}
	for i := part; i < len(lines); i += parts {
		mk := func(mid ...[]byte) []byte {
			var d []byte
			for _, l := range lines[:i] {
				d = append(d, l...)
			}
			for _, m := range mid {
				d = append(d, m...)
			}
			for _, l := range lines[i+1:] {
				d = append(d, l...)
			}
			return d
		}
		l := lines[i]
		f(mk(), fmt.Sprintf("line %d (%.30q) removed", i, l))
		f(mk(l, l), fmt.Sprintf("line %d (%.30q) repeated", i, l))
		for _, s := range ins {
			f(mk([]byte(s), l), fmt.Sprintf("%q inserted before line %d (%.30q)", s, i, l))
		}
		if len(l) > 1 {
			f(mk(l[1:]), fmt.Sprintf("the first byte of line %d (%.30q) removed", i, l))
			for _, s := range []string{"p", "g"} {
				for _, n := range []int{0, 1, 2, 5, 50, 100000, -1, 1 << 40} {
					if x := bytes.LastIndexByte(l, 'p'); x >= 0 {
						f(mk(l[:x], []byte(fmt.Sprintf("%s%d\n", s, n))), fmt.Sprintf("memo operation of line %d (%.30q) replaced by %s%d", i, l, s, n))
					}
				}
			}
		}
	}
}

func runCorrupt(x *X) {
	runPairs(x)
	ms := corruptModels(x.Thorough)
	all := make([]byte, 256)
	for i := range all {
		all[i] = byte(i)
	}
	for i := range ms {
		m := &ms[i]
		first := i == 0 || ms[i-1].fam != m.fam
		one := func(what string, f func(k *corruptCase)) {
			x.Case(func() string { return m.name + ": " + what }, func(c *C) {
				full, err := m.read(bytes.NewReader(m.data))
				if err != nil {
					c.Failf("the correct model is refused: %v", err)
				}
				k := &corruptCase{c: c, m: m, nfeat: full.NFeatures()}
				k.rows = corruptRows(m, k.nfeat)
				k.orig, _ = printModel(full, k.rows)
				f(k)
				c.Extra("corrupted_accepted", k.accepted)
				c.Extra("corrupted_refused", k.refused)
				c.Extra("corrupted_accepted_with_other_predictions", k.changed)
			})
		}
		n := len(m.data)
		// single bytes
		al := all
		if m.fam == famSK {
			al = []byte("(.FILNRVabcdglpst0915-\n\x00\\u'LqS]}")
		}
		step := 64
		smallest := first || m.fam == famSK && n < 4500
		if smallest && m.fam == famSK == (n < 4500) || x.Thorough {
			for p := 0; p < n; p += step {
				one(fmt.Sprintf("every single byte %d..%d replaced", p, p+step), func(k *corruptCase) {
					byteMutants(m.data, al, p, p+step, func(d []byte, what string) { k.try(d, what, m.fam == famLGJSON) })
				})
			}
		}
		switch m.fam {
		case famLGText:
			one("tokens and lines", func(k *corruptCase) {
				textMutants(m.data, func(d []byte, what string, num bool) { k.try(d, what, false) })
			})
		case famLGJSON:
			one("values, members and elements", func(k *corruptCase) { jsonMutants(m.data, k.try) })
		case famXGB, famDart, famLinear:
			const parts = 8
			for part := 0; part < parts; part++ {
				one(fmt.Sprintf("fields, part %d", part), func(k *corruptCase) {
					j := 0
					binaryMutants(m.data, func(d []byte, what string) {
						if j++; j%parts == part {
							k.try(d, what, false)
						}
					})
				})
			}
		case famSK:
			const parts = 16
			for part := 0; part < parts; part++ {
				one(fmt.Sprintf("objects, part %d", part), func(k *corruptCase) {
					pickleMutants(m.e, part, parts, func(d []byte, what string) { k.try(d, what, false) })
				})
				one(fmt.Sprintf("operations, part %d", part), func(k *corruptCase) {
					opcodeMutants(m.data, part, parts, func(d []byte, what string) { k.try(d, what, false) })
				})
			}
		}
	}
}

func init() {
	register(&Check{ID: "C16", Level: "fault_enumeration", Run: runCorrupt, MemMB: 6144,
		Rule:   "single corruptions of emitted models: every token, line, JSON value, binary field at every offset, pickled object, pickle operation replaced by an alphabet of wrong values, removed or repeated; every single byte replaced; and all pairs of small structural edits of tiny models; each distinct corrupted file is one non-trivial case: it must be refused or predict without panic, hang, or allocations beyond 64 MB + 1000 bytes per byte of file",
		Assume: []string{"the declared number of features is taken at face value (PredictCSR allocates one row of NFeatures values); predictions on models declaring more than 65536 features are not made", "a category set is a bitset as long as its largest category (at most 2^31 bits)"}})
}
