//go:build go1.23

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/mat"
)

// Models also come from files by name. The name must not matter, nor what a file of that name contained before.

var routeNames = []string{
	"m", "m.txt", "m.model", "m.bin", "m.json", "m.pkl", "m.pickle", "m.xgb", "m.lgb", "m.deprecated", "m.raw", "m.dat", "m.gz", "m.tmp", "m.ubj", "m.csv", "model.TXT",
	".hidden", "no.such.ext", "with space", "модель.bin", "a=b", "%d%s", "dart.model", "gblinear.model", "binary.model", "multi.txt",
	strings.Repeat("n", 200), "d/m", "d.bin/m", "d.json/m.txt", "-", "~", "m?x", "m#1",
}

// inDir runs f in another working directory
func inDir(c *C, dir string, f func()) {
	old, err := os.Getwd()
	if err != nil {
		c.Failf("%v", err)
	}
	if err := os.Chdir(dir); err != nil {
		c.Failf("%v", err)
	}
	defer os.Chdir(old)
	f()
}

// routes loads models of the families from files of all names, by absolute and by relative names, and compares everything observable with the reference
func routes(x *X, fams ...int) {
	for _, fam := range fams {
		for _, load := range []bool{false, true} {
			if load && !canLoad(fam) {
				continue
			}
			for _, groups := range []int{1, 3} {
				if !canGroups(fam, groups, load) {
					continue
				}
				for ni := range routeNames {
					x.Case(func() string {
						return fmt.Sprintf("%s: %d groups, transformation %v, from a file named %q", famName[fam], groups, load, routeNames[ni])
					}, func(c *C) {
						routeCase(c, fam, groups, load, routeNames[ni])
					})
				}
			}
		}
	}
}

func routeCase(c *C, fam, groups int, load bool, name string) {
	dir, err := os.MkdirTemp(workDir, "r")
	if err != nil {
		c.Failf("%v", err)
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, name)
	if err := os.MkdirAll(filepath.Dir(path), 0755); err != nil {
		c.Failf("%v", err)
	}
	// the file is rewritten with other models; those loaded earlier stay what they are
	var ms []*leaves.Ensemble
	var es []*Ens
	check := func(k int, what string) {
		e, m := es[k], ms[k]
		metaCase(c, e, m, what)
		for _, r := range rowPool(e, 12) {
			for v := viewOrig; v <= viewLeaf; v++ {
				if v == viewLeaf && (fam == famLinear || !e.leafExact()) {
					continue
				}
				d := deriveView(m, v)
				o := make([]float64, d.NOutputGroups())
				if err := d.Predict(r, 0, o); err != nil {
					c.Failf("%s: %v\n%s", what, err, e)
				}
				if want := e.expect(v, r, 0); !closeAll(o, want, close12) {
					c.Failf("%s: row %v, view %d: got %v, want %v\n%s", what, r, v, o, want, e)
				}
				c.Traces(1)
			}
		}
	}
	for k := 0; k < 4; k++ {
		e := zooEns(fam, 2+k%2, groups, 1+k%3, k, load)
		if err := os.WriteFile(path, emit(e), 0644); err != nil {
			c.Failf("%v", err)
		}
		var m *leaves.Ensemble
		rel := k%2 == 1 && !strings.HasPrefix(name, "-")
		if rel {
			inDir(c, dir, func() { m, err = loadFile(fam, name, load) })
		} else {
			m, err = loadFile(fam, path, load)
		}
		if err != nil {
			c.Failf("a %s file named %q (version %d, relative %v) is refused: %v", famName[fam], name, k, rel, err)
		}
		ms, es = append(ms, m), append(es, e)
		check(k, fmt.Sprintf("a %s file named %q (version %d, relative %v)", famName[fam], name, k, rel))
		c.States(1)
		c.Trans(1)
	}
	for k := range ms {
		check(k, fmt.Sprintf("the model of version %d of file %q, after later versions", k, name))
	}
	// without the transformation
	if load {
		e := *es[3]
		e.Load = false
		m, err := loadFile(fam, path, false)
		if err != nil {
			c.Failf("a %s file named %q is refused without transformation: %v", famName[fam], name, err)
		}
		ms, es = append(ms, m), append(es, &e)
		check(4, "the same file without the transformation")
	}
	if err := os.Remove(path); err != nil {
		c.Failf("%v", err)
	}
	if m, err := loadFile(fam, path, load); err == nil {
		c.Failf("a %s model loads from the missing file %q: %v", famName[fam], name, m.Name())
	}
	for k := range ms {
		check(k, "after the removal of the file")
	}
}

// twin is another model whose file has the same length: the leaves of every tree (or the weights) are in reverse order
func twin(e *Ens) *Ens {
	t := *e
	t.Weights = append([]float32(nil), e.Weights...)
	for i, j := 0, len(t.Weights)-1; i < j; i, j = i+1, j-1 {
		t.Weights[i], t.Weights[j] = t.Weights[j], t.Weights[i]
	}
	t.Trees = append([]Tree(nil), e.Trees...)
	for k := range t.Trees {
		l := append([]float64(nil), t.Trees[k].Leaf...)
		for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
		t.Trees[k].Leaf = l
	}
	return &t
}

// replaceFile gives a file new contents in one of the ways programs do; the times of the file stay the same
func replaceFile(c *C, path string, data []byte, how int) {
	at := time.Unix(1600000000, 0)
	var err error
	switch how {
	case 0:
		err = os.WriteFile(path, data, 0644)
	case 1:
		if err = os.WriteFile(path+".new", data, 0644); err == nil {
			err = os.Rename(path+".new", path)
		}
	case 2:
		os.Remove(path)
		err = os.WriteFile(path, data, 0644)
	case 3:
		var f *os.File
		if f, err = os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0644); err == nil {
			_, err = f.WriteAt(data, 0)
			f.Truncate(int64(len(data)))
			f.Close()
		}
	case 4: // a link to another file
		os.Remove(path)
		p := fmt.Sprintf("%s.%x", path, hashBytes(data))
		if err = os.WriteFile(p, data, 0644); err == nil {
			os.Chtimes(p, at, at)
			err = os.Symlink(filepath.Base(p), path)
		}
	}
	if err == nil {
		err = os.Chtimes(path, at, at)
	}
	if err != nil {
		c.Failf("%v", err)
	}
}

const replaceWays = 5

// rewrites loads a file that gets other contents of the same length and the same times again and again
func rewrites(x *X, fams ...int) {
	for _, fam := range fams {
		for _, load := range []bool{false, true} {
			if load && !canLoad(fam) {
				continue
			}
			for _, groups := range []int{1, 3} {
				if !canGroups(fam, groups, load) {
					continue
				}
				for how := 0; how < replaceWays; how++ {
					for v := 0; v < 3; v++ {
						x.Case(func() string {
							return fmt.Sprintf("%s: %d groups, transformation %v, variant %d: a file replaced by another of its length (way %d)", famName[fam], groups, load, v, how)
						}, func(c *C) { rewriteCase(c, fam, groups, load, how, v) })
					}
				}
			}
		}
	}
}

func rewriteCase(c *C, fam, groups int, load bool, how, v int) {
	dir, err := os.MkdirTemp(workDir, "w")
	if err != nil {
		c.Failf("%v", err)
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "m")
	a := zooEns(fam, 2+v, groups, 2, v, load)
	b := twin(a)
	es := []*Ens{a, b}
	data := [][]byte{emit(a), emit(b)}
	if len(data[0]) != len(data[1]) || string(data[0]) == string(data[1]) {
		c.Failf("machinery: lengths %d and %d", len(data[0]), len(data[1]))
	}
	rows := rowPool(a, 10)
	check := func(e *Ens, m *leaves.Ensemble, what string) {
		for _, r := range rows {
			for w := viewOrig; w <= viewRaw; w++ {
				d := deriveView(m, w)
				o := make([]float64, d.NOutputGroups())
				if err := d.Predict(r, 0, o); err != nil {
					c.Failf("%s: %v\n%s", what, err, e)
				}
				if want := e.expect(w, r, 0); !closeAll(o, want, close12) {
					c.Failf("%s: row %v, view %d: got %v, want %v\n%s", what, r, w, o, want, e)
				}
				c.Traces(1)
			}
		}
	}
	var ms []*leaves.Ensemble
	var of []*Ens
	for k, i := range []int{0, 1, 0, 0, 1, 1, 0} {
		replaceFile(c, path, data[i], how)
		m, err := loadFile(fam, path, load)
		if err != nil {
			c.Failf("load %d of the file: %v", k, err)
		}
		check(es[i], m, fmt.Sprintf("load %d of the file", k))
		ms, of = append(ms, m), append(of, es[i])
		for j := range ms {
			check(of[j], ms[j], fmt.Sprintf("the model of load %d after load %d", j, k))
		}
		c.States(1)
		c.Trans(1)
	}
	// damaged contents of the same length, then the correct ones again
	bad := append([]byte(nil), data[0]...)
	for i := range bad {
		bad[i] ^= 0x55
	}
	replaceFile(c, path, bad, how)
	if m, err := loadFile(fam, path, load); err == nil {
		c.Failf("damaged contents are loaded as %s", m.Name())
	}
	replaceFile(c, path, data[1], how)
	m, err := loadFile(fam, path, load)
	if err != nil {
		c.Failf("the correct file after a damaged one: %v", err)
	}
	check(b, m, "the correct file after a damaged one")
}

// matrixRewrites reads matrices from a file that gets other contents of the same length and the same times
func matrixRewrites(x *X) {
	for how := 0; how < replaceWays; how++ {
		x.Case(func() string { return fmt.Sprintf("matrix files replaced by others of their length (way %d)", how) }, func(c *C) {
			dir, err := os.MkdirTemp(workDir, "w")
			if err != nil {
				c.Failf("%v", err)
			}
			defer os.RemoveAll(dir)
			path := filepath.Join(dir, "m")
			for k, v := range []int{1, 2, 1, 5, 5, 3} {
				replaceFile(c, path, []byte(fmt.Sprintf("0,%d,2\n1,%d,4\n", v, v+1)), how)
				d, err := mat.DenseMatFromCsvFile(path, 0, true, ",", 0)
				if err != nil || d.Rows != 2 || d.Cols != 2 || d.Values[0] != float64(v) || d.Values[1] != 2 || d.Values[2] != float64(v+1) {
					c.Failf("read %d of a csv file: %v, %v", k, d, err)
				}
				d.Values[0] = -7 // the caller's own
				replaceFile(c, path, []byte(fmt.Sprintf("0 0:%d 1:2\n1 0:%d 1:4\n", v, v+1)), how)
				d, err = mat.DenseMatFromLibsvmFile(path, 0, true)
				if err != nil || d.Rows != 2 || d.Cols != 2 || d.Values[0] != float64(v) || d.Values[1] != 2 || d.Values[2] != float64(v+1) {
					c.Failf("read %d of a libsvm file: %v, %v", k, d, err)
				}
				d.Values[0] = -7
				s, err := mat.CSRMatFromLibsvmFile(path, 0, true)
				if err != nil || s.Rows() != 2 || s.Values[0] != float64(v) || s.Values[2] != float64(v+1) {
					c.Failf("sparse read %d of a libsvm file: %v, %v", k, s, err)
				}
				s.Values[0] = -7
				c.States(3)
				c.Traces(3)
				c.Trans(3)
			}
		})
	}
}
