//go:build go1.23

package main

import (
	"fmt"
	"math"

	"github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/zzverif/vsched"
)

type schedModel struct {
	name string
	e    *Ens
	view int
	data []byte
}

func (m *schedModel) load() *leaves.Ensemble {
	l, err := loadBytes(m.e.Fam, m.data, m.e.Load)
	if err != nil {
		panic(failure{"the model does not load: " + err.Error()})
	}
	return l
}

func schedModels() []*schedModel {
	var ms []*schedModel
	add := func(fam, groups, v, view int, load bool) {
		e := zooEns(fam, 3, groups, 3, v, load)
		name := fmt.Sprintf("%s, %d groups, %s", famName[fam], groups, viewName[view])
		if load {
			name += ", transformed"
		}
		ms = append(ms, &schedModel{name: name, e: e, view: view, data: emit(e)})
	}
	add(famLGText, 1, 0, viewOrig, true)
	add(famLGText, 3, 0, viewOrig, true)
	add(famLGText, 2, 0, viewLeaf, false)
	add(famXGB, 1, 0, viewOrig, true)
	add(famXGB, 3, 1, viewRaw, false)
	add(famXGB, 1, 2, viewLeaf, false)
	add(famLinear, 2, 0, viewOrig, false)
	add(famLinear, 1, 0, viewOrig, true)
	add(famSK, 3, 0, viewOrig, false)
	add(famLGJSON, 1, 0, viewOrig, false)
	add(famDart, 1, 0, viewOrig, true)
	return ms
}

// wideModels have many features, groups and stages
func wideModels() []*schedModel {
	var ms []*schedModel
	add := func(fam, nfeat, groups, stages, view int, load bool) {
		e := zooEns(fam, nfeat, groups, stages, 0, load)
		name := fmt.Sprintf("%s, %d features, %d groups, %d stages, %s", famName[fam], nfeat, groups, stages, viewName[view])
		ms = append(ms, &schedModel{name: name, e: e, view: view, data: emit(e)})
	}
	add(famLGText, 1100, 1, 3, viewOrig, true)
	add(famXGB, 300, 20, 2, viewRaw, false)
	add(famLGJSON, 40, 1, 300, viewOrig, false)
	add(famLinear, 300, 70, 1, viewOrig, false)
	add(famLGText, 70, 5, 20, viewLeaf, false)
	add(famSK, 300, 1, 40, viewOrig, false)
	return ms
}

type batch struct {
	rows   [][]float64
	dense  []float64
	sparse csr
	ncols  int
}

func (m *schedModel) batch(n int) *batch {
	pool := rowPool(m.e, 24)
	b := &batch{ncols: m.e.NFeat + 1}
	for i := 0; i < n; i++ {
		b.rows = append(b.rows, pool[(i*5+i/16)%len(pool)])
	}
	b.dense = flat(b.rows, 1)
	b.sparse = m.e.csrOf(b.rows, true)
	return b
}

func (b *batch) clone() *batch {
	return &batch{rows: b.rows, ncols: b.ncols, dense: cloneF(b.dense), sparse: csr{append([]int(nil), b.sparse.indptr...),
		append([]int(nil), b.sparse.cols...), cloneF(b.sparse.vals)}}
}

func (b *batch) predict(l *leaves.Ensemble, sparse bool, out []float64, threads int) error {
	if sparse {
		return l.PredictCSR(b.sparse.indptr, b.sparse.cols, b.sparse.vals, out, 0, threads)
	}
	return l.PredictDense(b.dense, len(b.rows), b.ncols, out, 0, threads)
}

// scribble overwrites everything the call was given: a late access of a goroutine is a race then
func (b *batch) scribble(out []float64) {
	for i := range out {
		out[i] = 0
	}
	for i := range b.dense {
		b.dense[i] = 0
	}
	for i := range b.sparse.indptr {
		b.sparse.indptr[i] = 0
	}
	for i := range b.sparse.cols {
		b.sparse.cols[i] = 0
	}
	for i := range b.sparse.vals {
		b.sparse.vals[i] = 0
	}
}

// alone gives what a call yields outside of any concurrency
func alone(c *C, f func() []float64) []float64 {
	var want []float64
	res := vsched.Run(func() { want = f() }, func(n int, key uint64) int { return 0 })
	if res.Panic != "" {
		c.Failf("panic in a call without concurrency: %s", res.Panic)
	}
	if res.Deadlock || res.Leak > 0 {
		c.Failf("a call without concurrency never ends: %s", res.Blocked)
	}
	return want
}

func diffAt(a, b []float64) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d results instead of %d", len(a), len(b))
	}
	for i := range a {
		if math.Float64bits(a[i]) != math.Float64bits(b[i]) && !(math.IsNaN(a[i]) && math.IsNaN(b[i])) {
			return fmt.Sprintf("result %d is %v instead of %v", i, a[i], b[i])
		}
	}
	return ""
}

// cpus sets the number of processors the code sees
func cpus(n int) func() {
	vsched.SetProcs(n)
	if degraded == "" {
		return setProcs(1) // one goroutine runs at a time
	}
	return setProcs(n)
}

func runSchedules(x *X) {
	x.Case(func() string { return "self test of the explorer" }, selfTest)
	type shape struct {
		rows, threads, procs int
		near                 int // explored up to that number of deviations, 0: completely
	}
	shapes := []shape{{17, 2, 4, 0}, {32, 3, 2, 0}, {33, 2, 4, 0}, {33, 3, 4, 0}, {48, 3, 3, 0}, {49, 2, 8, 0}}
	big := []shape{{48, 4, 2, 0}, {64, 3, 4, 0}, {33, 0, 2, 0}, {33, -1, 3, 0}, {50, 4, 4, 0}}
	far := []shape{{129, 8, 8, 1}, {100, 5, 16, 1}, {257, 4, 4, 1}, {1030, 2, 2, 1}, {66, 8, 64, 1}, {200, 13, 13, 1}}
	if x.Thorough {
		for i := range far {
			far[i].near = 2
		}
		far = append(far, shape{528, 64, 64, 1}, shape{2100, 3, 3, 1}, shape{1040, 70, 70, 1}, shape{80, 6, 6, 3})
	}
	if x.Thorough {
		shapes = append(shapes, shape{16, 4, 4, 0}, shape{18, 8, 8, 0}, shape{47, 3, 4, 0}, shape{64, 2, 4, 0}, shape{65, 2, 4, 0})
		big = append(big, shape{64, 4, 4, 0}, shape{65, 3, 4, 0}, shape{80, 3, 3, 0}, shape{80, 4, 4, 0}, shape{96, 3, 4, 0}, shape{80, 5, 8, 0})
	}
	limit := 400000
	if x.Thorough {
		limit = 20000000
	}
	// tiny models come first: with many schedules they are explored farthest
	var tiny []*schedModel
	for _, fam := range []int{famLGText, famXGB} {
		e := zooEns(fam, 1, 1, 1, 0, false)
		tiny = append(tiny, &schedModel{name: "tiny " + famName[fam], e: e, data: emit(e)})
	}
	ms := schedModels()
	usual := len(ms)
	ms = append(ms, wideModels()...)
	ms = append(tiny, ms...)
	for mi, m := range ms {
		m := m
		all := append(append(append([]shape(nil), shapes...), big...), far...)
		if mi < len(tiny) {
			all = []shape{{64, 3, 4, 0}, {17, 2, 4, 0}}
		}
		for si, sh := range all {
			sh := sh
			mi := mi - len(tiny)
			if mi >= 0 && sh.near > 0 && !x.Thorough && (mi+si)%8 != 0 {
				continue
			}
			if si >= len(shapes) && sh.near == 0 && !x.Thorough && mi%4 != 0 {
				continue
			}
			if si >= len(shapes)+5 && sh.near == 0 && mi%4 != 0 {
				continue
			}
			if mi >= usual && !x.Thorough && sh.near == 0 && sh != (shape{17, 2, 4, 0}) && sh != (shape{33, 3, 4, 0}) {
				continue
			}
			if mi >= usual && sh.near == 0 && sh.rows > 50 {
				continue
			}
			for _, sparse := range []bool{false, true} {
				sparse := sparse
				for _, calls := range []int{1, 2, 3} {
					calls := calls
					if calls >= 2 && sh.rows != 17 {
						continue
					}
					if mi < 0 && sh.rows == 17 && calls < 3 || mi >= 0 && calls == 3 {
						continue
					}
					label := fmt.Sprintf("%s, sparse %v, %d rows, %d threads, %d CPUs, %d calls", m.name, sparse, sh.rows, sh.threads, sh.procs, calls)
					x.Case(func() string { return label }, func(c *C) {
						c.SetModel(m.data)
						if mi < 0 {
							c.Focus()
						}
						defer cpus(sh.procs)()
						src := m.batch(sh.rows)
						n := m.e.nOut(m.view) * sh.rows
						want := alone(c, func() []float64 {
							out := guarded(n, 3)
							if err := src.predict(deriveView(m.load(), m.view), sparse, out, 1); err != nil {
								panic(err)
							}
							return out
						})
						var got [3][]float64
						var errs error
						body := func() {
							l := deriveView(m.load(), m.view)
							errs = nil
							for k := 0; k < calls; k++ {
								in := src.clone()
								out := guarded(n, 3)
								if err := in.predict(l, sparse, out, sh.threads); err != nil {
									errs = err
								}
								if u := vsched.Unfinished(); u != "" {
									panic(failure{"the call has returned before its goroutines have finished: " + u})
								}
								got[k] = cloneF(out)
								in.scribble(out)
							}
						}
						verdict := func() string {
							if errs != nil {
								return "error " + errs.Error()
							}
							for k := 0; k < calls; k++ {
								if d := diffAt(got[k], want); d != "" {
									return fmt.Sprintf("call %d: %s", k+1, d)
								}
							}
							return ""
						}
						if sh.near > 0 {
							exploreNear(c, sh.near, label, body, verdict)
						} else {
							explore(c, limit, label, body, verdict)
						}
						c.Distinct(hash(label))
					})
				}
			}
		}
	}
}

// caller is something a goroutine does with an ensemble; it gives everything it observes
type caller struct {
	name string
	par  bool // starts goroutines itself
	f    func(m *schedModel, l *leaves.Ensemble, in *batch) []float64
}

func status(err error) float64 {
	if err != nil {
		return -1
	}
	return 1
}

func callers() []caller {
	meta := func(l *leaves.Ensemble) []float64 {
		o := []float64{float64(l.NEstimators()), float64(l.NRawOutputGroups()), float64(l.NOutputGroups()), float64(l.NFeatures()),
			float64(len(l.Name())), float64(len(l.Transformation().Name())), float64(l.Transformation().Type())}
		for _, n := range l.NLeaves() {
			o = append(o, float64(n))
		}
		return o
	}
	single := func(l *leaves.Ensemble, in *batch) []float64 {
		var o []float64
		for _, r := range in.rows[:3] {
			o = append(o, l.PredictSingle(r, 0), l.PredictSingle(r, 2))
		}
		return o
	}
	vector := func(l *leaves.Ensemble, in *batch) []float64 {
		out := guarded(l.NOutputGroups(), 1)
		var o []float64
		for _, r := range in.rows[:3] {
			o = append(o, status(l.Predict(r, 0, out)))
			o = append(o, out...)
		}
		return o
	}
	many := func(sparse bool, threads int) func(m *schedModel, l *leaves.Ensemble, in *batch) []float64 {
		return func(m *schedModel, l *leaves.Ensemble, in *batch) []float64 {
			b := in.clone()
			if threads == 1 {
				b.rows = b.rows[:5]
				b.sparse.indptr = b.sparse.indptr[:6]
			}
			out := guarded(l.NOutputGroups()*len(b.rows), 2)
			s := status(b.predict(l, sparse, out, threads))
			res := append([]float64{s}, out...)
			b.scribble(out)
			return res
		}
	}
	return []caller{
		{"PredictSingle", false, func(m *schedModel, l *leaves.Ensemble, in *batch) []float64 { return single(l, in) }},
		{"Predict", false, func(m *schedModel, l *leaves.Ensemble, in *batch) []float64 { return vector(l, in) }},
		{"PredictDense", false, many(false, 1)},
		{"PredictCSR", false, many(true, 1)},
		{"metadata", false, func(m *schedModel, l *leaves.Ensemble, in *batch) []float64 { return meta(l) }},
		{"raw view", false, func(m *schedModel, l *leaves.Ensemble, in *batch) []float64 {
			v := l.EnsembleWithRawPredictions()
			return append(append(meta(v), single(v, in)...), vector(v, in)...)
		}},
		{"leaf view", false, func(m *schedModel, l *leaves.Ensemble, in *batch) []float64 {
			v := l.EnsembleWithLeafPredictions()
			return append(append(meta(v), vector(v, in)...), many(true, 1)(m, v, in)...)
		}},
		{"failing calls", false, func(m *schedModel, l *leaves.Ensemble, in *batch) []float64 {
			return []float64{status(l.Predict(nil, 0, nil)), status(l.PredictDense(in.dense, len(in.rows), 1, make([]float64, 1000), 0, 2)), l.PredictSingle(nil, 0)}
		}},
		{"loading a model", false, func(m *schedModel, l *leaves.Ensemble, in *batch) []float64 {
			o := m.load()
			return append(meta(o), vector(o, in)...)
		}},
		{"parallel PredictDense", true, many(false, 2)},
		{"parallel PredictCSR", true, many(true, 2)},
		{"PredictDense on 5 threads", true, many(false, 5)},
		{"PredictCSR on 4 threads", true, many(true, 4)},
	}
}

func repeat(k, n int) []int {
	var s []int
	for i := 0; i < n; i++ {
		s = append(s, k)
	}
	return s
}

func runCallers(x *X) {
	x.Case(func() string { return "self test of the explorer" }, selfTest)
	cs := callers()
	limit := 300000
	if x.Thorough {
		limit = 20000000
	}
	near := 0
	focus := false
	mix := func(m *schedModel, rows int, seqs [][]int, warm bool) {
		near, cs, focus := near, cs, focus
		procs := 2
		if near > 0 {
			procs = 6
		}
		label := m.name + ":"
		for _, s := range seqs {
			label += " ["
			for i := 0; i < len(s); i++ {
				if i > 0 {
					label += ", "
				}
				label += cs[s[i]].name
				n := 1
				for i+1 < len(s) && s[i+1] == s[i] && len(s) > 9 {
					i++
					n++
				}
				if n > 1 {
					label += fmt.Sprintf(" %d times", n)
				}
			}
			label += "]"
		}
		label += fmt.Sprintf(" %d rows", rows)
		if warm {
			label += ", after a first use"
		}
		x.Case(func() string { return label }, func(c *C) {
			c.SetModel(m.data)
			if focus {
				c.Focus()
			}
			defer cpus(procs)()
			src := m.batch(rows)
			var want [][]float64
			for _, s := range seqs {
				s := s
				want = append(want, alone(c, func() []float64 {
					l := deriveView(m.load(), m.view)
					var o []float64
					for _, k := range s {
						o = append(o, cs[k].f(m, l, src)...)
					}
					return o
				}))
			}
			got := make([][]float64, len(seqs))
			body := func() {
				l := deriveView(m.load(), m.view)
				if warm {
					for _, k := range seqs[0] {
						cs[k].f(m, l, src)
					}
				}
				done := vsched.NewChan[int](len(seqs))
				for i := range seqs {
					i := i
					got[i] = nil
					vsched.Go(func() {
						for _, k := range seqs[i] {
							got[i] = append(got[i], cs[k].f(m, l, src)...)
						}
						done.Send(i)
					})
				}
				for range seqs {
					done.Recv()
				}
			}
			verdict := func() string {
				for i := range seqs {
					if d := diffAt(got[i], want[i]); d != "" {
						return fmt.Sprintf("caller %d: %s", i+1, d)
					}
				}
				return ""
			}
			if near > 0 {
				exploreNear(c, near, label, body, verdict)
			} else {
				explore(c, limit, label, body, verdict)
			}
			c.Distinct(hash(label))
		})
	}
	// more callers, and calls that start more goroutines, up to few deviations
	near = 1
	if x.Thorough {
		near = 2
	}
	for mi, m := range append(schedModels(), wideModels()...) {
		for a := range cs {
			for b := a; b < len(cs); b++ {
				if !cs[b].par || !x.Thorough && (a+2*b+mi)%16 > 0 {
					continue
				}
				mix(m, 65, [][]int{{a}, {b}}, false)
			}
			all := [][]int{}
			for k := 0; k < 8; k++ {
				all = append(all, []int{(a + k*k) % 9, (a + 5*k) % 9})
			}
			if a < 3 && (x.Thorough || (a+mi)%3 == 0) {
				mix(m, 17, all, a%2 == 0)
			}
		}
		// one call beside many
		for a := 0; a < 9; a++ {
			if b := (a + mi) % 3 * 3 % 9; x.Thorough || (a+mi)%4 == 0 {
				mix(m, 17, [][]int{{a}, repeat(a, 150)}, false)
				mix(m, 17, [][]int{{a}, repeat(b, 300)}, false)
			}
		}
		if x.Thorough || mi%6 == 0 {
			mix(m, 49, [][]int{{9}, {11}, {12}, {10}}, false)
			mix(m, 49, [][]int{{9, 10}, {10, 1}, {12}}, mi%2 == 0)
		}
	}
	cs = cs[:len(cs)-2]
	near = 0
	for mi, m := range wideModels() {
		for a := range cs {
			for b := a; b < len(cs); b++ {
				if a == b && (!cs[a].par || mi == 0) || cs[b].par && !cs[a].par && (a+b)%6 == mi || x.Thorough {
					mix(m, 17, [][]int{{a}, {b}}, false)
				}
			}
		}
	}
	ms := schedModels()
	for mi, m := range ms {
		for a := range cs {
			for b := a; b < len(cs); b++ {
				if cs[a].par && cs[b].par && !x.Thorough && mi%3 != 0 {
					continue
				}
				mix(m, 17, [][]int{{a}, {b}}, false)
				if !cs[a].par && !cs[b].par {
					mix(m, 17, [][]int{{a}, {b}}, true)
					mix(m, 17, [][]int{{a, b}, {b, a}}, false)
					for d := b; d < len(cs); d++ {
						if !cs[d].par {
							mix(m, 17, [][]int{{a}, {b}, {d}}, false)
						}
					}
				}
				if x.Thorough && cs[b].par {
					mix(m, 33, [][]int{{a}, {b}}, false)
					mix(m, 17, [][]int{{b}, {a, b}}, false)
				}
			}
		}
		if mi == 0 || mi == 3 {
			// small ones that are explored far even if there are many schedules
			focus = true
			for a := range cs {
				if !cs[a].par {
					mix(m, 17, [][]int{{a, a}, {a, a}, {a}}, false)
				}
			}
			focus = false
		}
		if mi%3 == 0 {
			par := len(cs) - 1
			mix(m, 17, [][]int{{par, 0}, {1, par}}, false)
			if x.Thorough {
				mix(m, 17, [][]int{{par}, {par}, {par - 1}}, false)
				mix(m, 17, [][]int{{par, par - 1}, {par - 1, par}}, false)
			}
		}
	}
}

func init() {
	register(&Check{ID: "C08", Level: "model_checking", Shares: true,
		Rule: "every interleaving (up to happens-before equivalence) of the goroutines, channels and wait groups of the real code (of calls with 66 to 1030 rows on up to 13 (64) threads: those with one deviation, thorough: two), run under a controlled scheduler and the race detector; cases with very many schedules take those with 0 to 3 deviations first",
		Assume: []string{
			"the sources are rewritten in a build overlay so that go statements, channels and package sync run under the scheduler; everything else is the code as it is",
			"between synchronisation operations a goroutine runs without interruption: sound because the race detector reports any unordered access in any schedule",
			"the race detector keeps the last four accesses of each word",
		},
		Run: runSchedules})
	register(&Check{ID: "C22", Level: "model_checking", Shares: true,
		Rule: "every interleaving (up to happens-before equivalence) of 2 to 3 callers of one ensemble (of up to 8 callers and calls on 5 threads: those with one deviation, thorough: two), run under a controlled scheduler and the race detector; cases with very many schedules take those with 0 to 3 deviations first",
		Assume: []string{
			"the sources are rewritten in a build overlay so that go statements, channels and package sync run under the scheduler; everything else is the code as it is",
			"between synchronisation operations a goroutine runs without interruption: sound because the race detector reports any unordered access in any schedule",
		},
		Run: runCallers})
}
