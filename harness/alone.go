//go:build go1.23

package main

import (
	"bytes"
	"crypto/sha256"
	"errors"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"

	"github.com/dmitryikh/leaves"
)

// ---- C26: a load in a fresh process against the same load after others ---------------------------------------------

// outcome sums up what a load gives: refusal, or metadata and predictions of the model
func outcome(fam int, data []byte, tr bool) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "panic"
		}
	}()
	m, err := loadFrom(fam, bytes.NewReader(data), tr, 4096)
	if err != nil {
		return "refused"
	}
	return modelOutcome(m)
}

func modelOutcome(m *leaves.Ensemble) string {
	nf := m.NFeatures()
	if nf > 1<<12 || nf < 0 || m.NOutputGroups() > 1<<12 {
		return fmt.Sprintf("%d features, %d outputs", nf, m.NOutputGroups())
	}
	var rows [][]float64
	for _, v := range []float64{0, 1, -3, 0.75, 2, 40, math.NaN(), math.Inf(1), -1e300} {
		r := make([]float64, nf+2)
		for i := range r {
			r[i] = v
			if i%2 == 1 {
				r[i] = v / 2
			}
		}
		rows = append(rows, r)
	}
	f, err := printModel(m, rows)
	h := sha256.New()
	for _, v := range f.out {
		fmt.Fprintf(h, "%x ", math.Float64bits(v))
	}
	return fmt.Sprintf("%s, error %v, %x", f.meta, err != nil, h.Sum(nil)[:8])
}

// aloneProcess is the entry point of the process that loads one file
func aloneProcess(args []string) {
	fam, _ := strconv.Atoi(args[0])
	data, err := os.ReadFile(args[2])
	if err != nil {
		fmt.Println("machinery:", err)
		os.Exit(3)
	}
	fmt.Print("outcome ", outcome(fam, data, args[1] == "true"))
}

// outcomeAlone is the outcome in a process that does nothing else
func outcomeAlone(c *C, fam int, data []byte, tr bool) string {
	p := filepath.Join(workDir, "alone")
	if err := os.WriteFile(p, data, 0600); err != nil {
		c.Failf("%v", err)
	}
	cmd := exec.Command(os.Args[0], "alone", strconv.Itoa(fam), strconv.FormatBool(tr), p)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	b, err := cmd.CombinedOutput()
	s := string(b)
	if i := strings.LastIndex(s, "outcome "); i >= 0 && err == nil {
		return s[i+len("outcome "):]
	}
	if len(s) > 2000 {
		s = s[:2000]
	}
	return fmt.Sprintf("the process ended with %v: %s", err, s)
}

// doc is a file, correct or damaged
type doc struct {
	data []byte
	what string
	tr   bool
}

// damagedDocs are the edits of the small models of a family
func damagedDocs(fam int, thorough bool) (valid, damaged []doc) {
	for _, m := range pairModels(thorough) {
		if m.fam != fam {
			continue
		}
		valid = append(valid, doc{m.data, m.name, m.load})
		add := func(d []byte, what string) {
			damaged = append(damaged, doc{append([]byte(nil), d...), m.name + ": " + what, m.load})
		}
		var es []edit
		switch fam {
		case famSK:
			opcodeMutants(m.data, 0, 1, func(d []byte, what string) {
				if strings.Contains(what, "removed") || strings.Contains(what, "replaced by g") {
					add(d, what)
				}
			})
			continue
		case famLGText:
			es = textEdits(m.data, thorough)
		case famLGJSON:
			es = jsonEdits(m.data, thorough)
		default:
			es = binaryEdits(m.e, m.data, thorough)
		}
		for _, e := range es {
			d := append([]byte(nil), m.data[:e.a]...)
			d = append(append(d, e.with...), m.data[e.b:]...)
			add(d, e.what)
		}
	}
	// every file only once
	seen := map[uint64]bool{}
	k := 0
	for _, d := range damaged {
		if h := hashBytes(d.data); !seen[h] {
			seen[h] = true
			damaged[k] = d
			k++
		}
	}
	return valid, damaged[:k]
}

func runAlone(x *X) {
	bad := errors.New("injected")
	for fam := 0; fam < numFamilies; fam++ {
		valid, docs := damagedDocs(fam, x.Thorough)
		// the loads before
		type prior struct {
			what string
			do   func()
		}
		var ps []prior
		load := func(f int, d doc) {
			ps = append(ps, prior{"load of " + d.what, func() { outcome(f, d.data, d.tr) }})
		}
		fails := func(d doc, n int) {
			ps = append(ps, prior{fmt.Sprintf("load of %s from a stream that fails after %d bytes", d.what, n), func() {
				defer func() { recover() }()
				loadFrom(fam, &faultReader{data: d.data, end: n, err: bad}, d.tr, 16)
			}})
		}
		for _, d := range valid {
			load(fam, d)
		}
		big := zooEns(fam, 3, 3, 2, 3, false)
		bd := doc{emit(big), "a larger " + famName[fam], false}
		if fam == famLGText {
			rf := *big
			rf.RF = true
			bd.data = emit(&rf)
		}
		load(fam, bd)
		for o := 0; o < numFamilies; o++ {
			if o != fam {
				e := zooEns(o, 2, 1, 1, 1, false)
				load(o, doc{emit(e), famName[o], false})
			}
		}
		for i := 1; i < 12; i++ {
			fails(bd, len(bd.data)*i/12)
			fails(valid[0], len(valid[0].data)*i/12)
			load(fam, docs[len(docs)*i/12])
		}
		const batch = 24
		for from := 0; from < len(docs); from += batch {
			x.Case(func() string {
				return fmt.Sprintf("%s: damaged files %d.. alone and after other loads", famName[fam], from)
			}, func(c *C) {
				for i := from; i < from+batch && i < len(docs); i++ {
					d := docs[i]
					c.Alive()
					want := outcomeAlone(c, fam, d.data, d.tr)
					c.SetModel(d.data)
					for _, p := range ps {
						p.do()
						for k := 0; k < 2; k++ {
							if got := outcome(fam, d.data, d.tr); got != want {
								c.Failf("%s: %s; after a %s: %s (repetition %d)", d.what, want, p.what, got, k)
							}
						}
						c.States(1)
						c.Trans(3)
					}
					c.Traces(1)
					c.Distinct(hash(fam, i))
				}
			})
		}
		// a damaged file or a failing stream does not change what a correct file gives
		for vi, v := range valid {
			x.Case(func() string { return v.what + " after every damaged file and every failure" }, func(c *C) {
				want := outcomeAlone(c, fam, v.data, v.tr)
				if !strings.Contains(want, "features") {
					c.Failf("%s: %s", v.what, want)
				}
				c.SetModel(v.data)
				is := func(what string) {
					if got := outcome(fam, v.data, v.tr); got != want {
						c.Failf("%s: %s; after %s: %s", v.what, want, what, got)
					}
					c.States(1)
					c.Trans(2)
				}
				for _, d := range docs {
					outcome(fam, d.data, d.tr)
					is("a load of " + d.what)
				}
				for _, d := range append([]doc{bd}, valid...) {
					for n := 0; n < len(d.data); n++ {
						func() {
							defer func() { recover() }()
							loadFrom(fam, &faultReader{data: d.data, end: n, err: bad}, d.tr, 16)
						}()
						is(fmt.Sprintf("a load of %s that fails after %d bytes", d.what, n))
						outcome(fam, d.data[:n], d.tr)
						is(fmt.Sprintf("a load of the first %d bytes of %s", n, d.what))
					}
				}
				c.Distinct(hash("v", fam, vi))
			})
		}
	}
}
