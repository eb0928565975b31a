//go:build go1.23

package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"strings"

	"github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/mat"
	"github.com/dmitryikh/leaves/transformation"
	"github.com/dmitryikh/leaves/util"
	"github.com/dmitryikh/leaves/zzverif/vsched"
)

// operation is something a goroutine does with data of its own; inst tells the data apart. It gives all it observes
type operation struct {
	name string
	par  bool
	f    func(inst int) []float64
}

// text is what was said as a number
func text(s string) float64 { return float64(uint32(hash(s))) }

func failed(err error) []float64 { return []float64{-1, text(err.Error())} }

// observe is all that an ensemble tells and predicts
func observe(e *Ens, l *leaves.Ensemble, threads int) []float64 {
	var o []float64
	n := 5
	if threads > 1 {
		n = 17
	}
	pool := rowPool(e, 6)
	b := &batch{ncols: e.NFeat}
	for i := 0; i < n; i++ {
		b.rows = append(b.rows, pool[i%len(pool)])
	}
	b.dense = flat(b.rows, 0)
	b.sparse = e.csrOf(b.rows, true)
	views := []*leaves.Ensemble{l}
	if threads < 2 {
		views = append(views, l.EnsembleWithRawPredictions(), l.EnsembleWithLeafPredictions())
	}
	for _, v := range views {
		o = append(o, float64(v.NEstimators()), float64(v.NRawOutputGroups()), float64(v.NOutputGroups()), float64(v.NFeatures()), text(v.Name()), text(v.Transformation().Name()))
		for _, k := range v.NLeaves() {
			o = append(o, float64(k))
		}
		if threads < 2 {
			out := guarded(v.NOutputGroups(), 1)
			for _, r := range pool {
				o = append(o, status(v.Predict(r, 0, out)), v.PredictSingle(r, 0))
				o = append(o, out...)
			}
		}
		for _, sparse := range []bool{false, true} {
			out := guarded(v.NOutputGroups()*n, 1)
			o = append(o, status(b.predict(v, sparse, out, threads)))
			o = append(o, out...)
		}
	}
	return o
}

func operations(dir string) []operation {
	var ops []operation
	add := func(name string, par bool, f func(inst int) []float64) {
		ops = append(ops, operation{name, par, f})
	}
	for fam := 0; fam < numFamilies; fam++ {
		fam := fam
		load := canLoad(fam)
		a := zooEns(fam, 2, 1, 2, 1, load)
		es := []*Ens{a, twin(a), zooEns(fam, 3, 3, 2, 0, load && canGroups(fam, 3, true))}
		var data [][]byte
		for _, e := range es {
			data = append(data, emit(e))
		}
		loaded := func(inst int, l *leaves.Ensemble, err error, threads int) []float64 {
			if err != nil {
				return failed(err)
			}
			return observe(es[inst], l, threads)
		}
		add("load of "+famName[fam]+" and predictions", false, func(inst int) []float64 {
			l, err := loadBytes(fam, data[inst], es[inst].Load)
			return loaded(inst, l, err, 1)
		})
		add("bytewise load of "+famName[fam], false, func(inst int) []float64 {
			d := data[inst]
			l, err := loadFrom(fam, &faultReader{data: d, end: len(d), err: io.EOF, chunk: func(int) int { return 1 }}, es[inst].Load, 16)
			if err != nil {
				return failed(err)
			}
			return []float64{float64(l.NFeatures()), float64(l.NEstimators()), l.PredictSingle(make([]float64, l.NFeatures()), 0)}
		})
		add("load of a file of "+famName[fam]+" and predictions", false, func(inst int) []float64 {
			l, err := loadFile(fam, filepath.Join(dir, fmt.Sprintf("model-%d-%d", fam, inst)), es[inst].Load)
			return loaded(inst, l, err, 1)
		})
		add("failing loads of "+famName[fam], false, func(inst int) []float64 {
			d := data[inst]
			var o []float64
			for _, n := range []int{len(d) / 3, len(d) / 2, len(d) * 4 / 5} {
				if _, err := loadBytes(fam, d[:n], es[inst].Load); err != nil {
					o = append(o, failed(err)...)
				}
				_, err := loadFrom(fam, &faultReader{data: d, end: n, err: errors.New(fmt.Sprint("injected ", inst))}, es[inst].Load, 64)
				if err != nil {
					o = append(o, failed(err)...)
				}
			}
			if _, err := loadFile(fam, filepath.Join(dir, fmt.Sprint("missing", inst)), false); err != nil {
				o = append(o, failed(err)...)
			}
			return o
		})
		if fam == famLGText || fam == famXGB || fam == famLinear {
			add("load of "+famName[fam]+" and parallel predictions", true, func(inst int) []float64 {
				l, err := loadBytes(fam, data[inst], es[inst].Load)
				return loaded(inst, l, err, 2)
			})
		}
		for i, d := range data {
			os.WriteFile(filepath.Join(dir, fmt.Sprintf("model-%d-%d", fam, i)), d, 0o644)
		}
	}
	rd := func(s string) *bufio.Reader { return bufio.NewReaderSize(strings.NewReader(s), 16) }
	dense := func(m *mat.DenseMat, err error) []float64 {
		if err != nil {
			return failed(err)
		}
		return append([]float64{float64(m.Rows), float64(m.Cols)}, m.Values...)
	}
	sparse := func(m *mat.CSRMat, err error) []float64 {
		if err != nil {
			return failed(err)
		}
		var o []float64
		for _, h := range m.RowHeaders {
			o = append(o, float64(h))
		}
		for _, h := range m.ColIndexes {
			o = append(o, float64(h))
		}
		return append(o, m.Values...)
	}
	csvs := []string{"1,,3\n4,5,6\n7,8,9\n", "6,,1\n9,4,2\n3,1,8\n", "1,2\n,\n-1,nan\n5,5\n"}
	svms := []string{"1 0:1 2:3\n0 5:6 6:1\n", "0 0:2 3:1\n1 4:5 7:9\n", "1 1:1\n1 0:7\n0 2:3 3:4 4:5\n"}
	dsvm := []string{"1 0:1 1:3\n0 0:6 1:1\n", "0 0:2 1:1\n1 0:5 1:9\n", "1 0:1 1:4 2:5\n0 0:3 1:4 2:5\n"}
	for i := range csvs {
		os.WriteFile(filepath.Join(dir, fmt.Sprint("csv", i)), []byte(csvs[i]), 0o644)
		os.WriteFile(filepath.Join(dir, fmt.Sprint("svm", i)), []byte(svms[i]), 0o644)
	}
	for _, f := range []bool{false, true} {
		f := f
		from := map[bool]string{false: "", true: " file"}[f]
		add("csv"+from, false, func(inst int) []float64 {
			if f {
				return dense(mat.DenseMatFromCsvFile(filepath.Join(dir, fmt.Sprint("csv", inst)), 0, false, ",", float64(-inst)))
			}
			return dense(mat.DenseMatFromCsv(rd(csvs[inst]), 0, inst == 2, ",", float64(-inst)))
		})
		add("sparse libsvm"+from, false, func(inst int) []float64 {
			if f {
				return sparse(mat.CSRMatFromLibsvmFile(filepath.Join(dir, fmt.Sprint("svm", inst)), 0, true))
			}
			return sparse(mat.CSRMatFromLibsvm(rd(svms[inst]), 0, true))
		})
	}
	add("dense libsvm", false, func(inst int) []float64 { return dense(mat.DenseMatFromLibsvm(rd(dsvm[inst]), 0, true)) })
	add("bad matrices", false, func(inst int) []float64 {
		o := dense(mat.DenseMatFromCsv(rd("1,2\n3,x"+fmt.Sprint(inst)+"\n"), 0, false, ",", 1))
		o = append(o, dense(mat.DenseMatFromCsv(rd("1,2\n3\n"), 0, false, ",", 1))...)
		o = append(o, sparse(mat.CSRMatFromLibsvm(rd("1 2:3\n1 a"+fmt.Sprint(inst)+":5\n"), 0, true))...)
		return append(o, dense(mat.DenseMatFromLibsvmFile(filepath.Join(dir, fmt.Sprint("none", inst)), 0, true))...)
	})
	matrix := func(inst int) *mat.DenseMat {
		m, err := mat.DenseMatFromArray([]float64{float64(inst), 0.1, -7.25e300, math.NaN(), 1 / 3.0, float64(inst) + 0.7}, 2+inst%2, 3-inst%2)
		if err != nil {
			panic(failure{err.Error()})
		}
		return &m
	}
	add("written matrix", false, func(inst int) []float64 {
		var b bytes.Buffer
		if err := matrix(inst).WriteStr(&b, []string{",", "\t", ";"}[inst]); err != nil {
			return failed(err)
		}
		return []float64{float64(b.Len()), text(b.String())}
	})
	add("matrix written to a file", false, func(inst int) []float64 {
		p := filepath.Join(dir, fmt.Sprint("out", inst))
		if err := matrix(inst).ToCsvFile(p, []string{",", "\t", ";"}[inst]); err != nil {
			return failed(err)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return failed(err)
		}
		return append([]float64{float64(len(b)), text(string(b))}, status(matrix(inst).ToCsvFile(filepath.Join(dir, "no", "where"), ",")))
	})
	add("matrices from arrays", false, func(inst int) []float64 {
		m := matrix(inst)
		s, err := mat.CSRMatFromArray(m.Values, m.Rows, m.Cols)
		if err != nil {
			return failed(err)
		}
		return append(sparse(&s, nil), dense(m, nil)...)
	})
	add("helpers", false, func(inst int) []float64 {
		v := []float64{float64(inst), 2, -3, 0.5}
		w := []float64{float64(inst), 2, -3.1, 0.5}
		o := []float64{status(util.AlmostEqualFloat64Slices(v, w, 0.05+0.1*float64(inst))), util.Sigmoid(float64(inst))}
		n, err := util.NumMismatchedFloat64Slices(v, w, 0.01)
		o = append(o, float64(n), status(err))
		out := make([]float64, 4)
		util.SoftmaxFloat64Slice(v, out, 0)
		o = append(o, out...)
		util.SigmoidFloat64SliceInplace(v)
		o = append(o, v...)
		bits := util.ConstructBitset([]int{inst, 33 + inst, 70})
		first, err := util.FirstNonZeroBit(bits)
		o = append(o, float64(first), status(err), float64(util.NumberOfSetBits(bits)))
		p, err := util.ReadParamsUntilBlank(rd(fmt.Sprintf("a=%d\nb=x%d\n\n", inst, inst)))
		if err != nil {
			return append(o, failed(err)...)
		}
		k, err := p.ToInt("a")
		s, err2 := p.ToString("b")
		return append(o, float64(k), status(err), text(s), status(err2))
	})
	add("transformations", false, func(inst int) []float64 {
		var o []float64
		for _, t := range []transformation.Transform{&transformation.TransformRaw{NumOutputGroups: 3}, &transformation.TransformLogistic{}, &transformation.TransformSoftmax{NClasses: 3}, &transformation.TransformExponential{}} {
			out := make([]float64, 4)
			in := []float64{float64(inst), -2, 0.5}
			if t.NOutputGroups() == 1 {
				in = in[:1]
			}
			o = append(o, status(t.Transform(in, out, inst%2)), text(t.Name()))
			o = append(o, out...)
		}
		return o
	})
	return ops
}

func runConcurrent(x *X) {
	dir := filepath.Join(workDir, "concurrent")
	os.MkdirAll(dir, 0o755)
	ops := operations(dir)
	mix := func(near int, seqs ...[]int) {
		label := ""
		for i, s := range seqs {
			if i > 0 {
				label += " beside "
			}
			for k := 0; k < len(s); k++ {
				n := 1
				for k+1 < len(s) && s[k+1] == s[k] {
					k++
					n++
				}
				label += "[" + ops[s[k]].name
				if n > 1 {
					label += fmt.Sprintf(" %d times", n)
				}
				label += "]"
			}
		}
		x.Case(func() string { return label }, func(c *C) {
			defer cpus(2)()
			got, want := make([][]float64, len(seqs)), make([][]float64, len(seqs))
			body := func() {
				done := vsched.NewChan[int](len(seqs))
				for i := range seqs {
					i := i
					got[i] = nil
					vsched.Go(func() {
						for n, k := range seqs[i] {
							o := ops[k].f(i)
							if n < 3 || n%16 == 0 || n == len(seqs[i])-1 {
								got[i] = append(got[i], o...)
							}
						}
						done.Send(i)
					})
				}
				for range seqs {
					done.Recv()
				}
			}
			verdict := func() string {
				for i := range seqs {
					if d := diffAt(got[i], want[i]); d != "" {
						return fmt.Sprintf("goroutine %d: %s", i+1, d)
					}
				}
				return ""
			}
			// the first run may meet what packages set up once
			first := false
			if degraded == "" && givenSchedule() == nil {
				e := newExploration(c, -1)
				e.run(1, c.x.deadline, label+", first use", body, func() string { return "" })
				first = e.full > 0
			}
			for i, s := range seqs {
				for n, k := range s {
					if n < 3 || n%16 == 0 || n == len(s)-1 {
						want[i] = append(want[i], alone(c, func() []float64 { return ops[k].f(i) })...)
					}
				}
			}
			if d := ""; first {
				if d = verdict(); d != "" {
					c.Failf("%s, first use: %s", label, d)
				}
			}
			if near > 0 {
				exploreNear(c, near, label, body, verdict)
			} else {
				explore(c, 300000, label, body, verdict)
			}
			c.Distinct(hash(label))
		})
	}
	// first of all in each process: two of a kind
	for a := range ops {
		mix(0, []int{a}, []int{a})
	}
	for a := range ops {
		for b := a; b < len(ops); b++ {
			if ops[a].par && ops[b].par && a != b && !x.Thorough {
				continue
			}
			if a != b {
				mix(0, []int{a}, []int{b})
			}
			if ops[a].par || ops[b].par {
				continue
			}
			if a != b {
				mix(0, []int{a, b}, []int{b, a})
			}
			if x.Thorough {
				mix(1, []int{a}, repeat(b, 40), []int{a, b})
			}
		}
		if !ops[a].par {
			mix(0, []int{a}, []int{a}, []int{a})
			mix(1, []int{a}, repeat(a, 70))
			mix(1, []int{a, a}, []int{a, a}, []int{(a + 7) % len(ops)})
		}
	}
}

func init() {
	register(&Check{ID: "C29", Level: "model_checking", Shares: true,
		Rule: "every interleaving (up to happens-before equivalence) of all pairs of 44 operations on separate data (loads of all families from memory and files, failing loads, predictions by every path, reads and writes of matrices, helpers, transformations), of pairs of sequences, of three of a kind, of one beside seventy (those with one deviation); under a controlled scheduler and the race detector; each goroutine sees what it sees alone",
		Assume: []string{
			"the sources are rewritten in a build overlay so that go statements, channels and package sync run under the scheduler; everything else is the code as it is",
			"state that packages set up once is set up in the first run of a process only: the first cases of a worker are two of a kind, so that they meet it in one schedule",
		},
		Run: runConcurrent})
}
