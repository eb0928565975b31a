//go:build go1.23

package main

import (
	"encoding/binary"
	"fmt"
	"math"
)

// ---- C20: the pickle reader -----------------------------------------------------------------------------------------

// directPickle drives the decoder itself; it is part of the program vhp only (harness_pickle), because the decoder's
// package is internal and its Go types could change. Without it the reader is checked through the public API.
var directPickle func(x *X)

// escapeLike enumerates 8 byte strings around the escapes: two free bytes before, around or behind an escape of which
// at most one character is changed
func escapeLike(f func(s string)) {
	free := []byte{'\\', 'u', '0', 'c', 'a', '\n', '\r', 0, 0x1a, 0xff, '5', '1', 0x3f}
	repl := []byte{'\\', 'u', '0', '5', 'c', 'a', 'd', '1', '\n', 'U', 'A'}
	for _, x := range []byte("0015") {
		for _, y := range []byte("0acd") {
			for ch := -1; ch < 6*len(repl); ch++ {
				esc := []byte{'\\', 'u', '0', '0', x, y}
				if ch >= 0 {
					esc[ch/len(repl)] = repl[ch%len(repl)]
				}
				for pos := 0; pos <= 2; pos++ {
					for _, p := range free {
						for _, q := range free {
							two := []byte{p, q}
							f(string(two[:pos]) + string(esc) + string(two[pos:]))
						}
					}
				}
			}
		}
	}
}

// runPickle checks raw data through scikit-learn models: the bytes of leaf values, thresholds and priors
func runPickle(x *X) {
	if directPickle != nil {
		directPickle(x)
	}
	// all byte values at all positions of a double
	for b := 0; b < 256; b++ {
		x.Case(func() string { return fmt.Sprintf("doubles with byte %#x", b) }, func(c *C) {
			var vals []float64
			for pos := 0; pos < 8; pos++ {
				for _, fill := range []byte{0, 0x3f, 0x5c, 'u', '0', 0x0a, 0x40} {
					var raw [8]byte
					for i := range raw {
						raw[i] = fill
					}
					raw[pos] = byte(b)
					vals = append(vals, math.Float64frombits(binary.LittleEndian.Uint64(raw[:])))
				}
			}
			pickleDoubles(c, vals)
		})
	}
	// doubles whose bytes look like escapes
	var vals []float64
	n := 0
	flush := func() {
		v := vals
		vals = nil
		x.Case(func() string { return fmt.Sprintf("doubles that look like escapes, up to %d", n) }, func(c *C) { pickleDoubles(c, v) })
	}
	escapeLike(func(s string) {
		n++
		vals = append(vals, math.Float64frombits(binary.LittleEndian.Uint64([]byte(s))))
		if len(vals) == 4000 {
			flush()
		}
	})
	if len(vals) > 0 {
		flush()
	}
}

// pickleDoubles stores the values as leaf values (both byte orders) and reads them back
func pickleDoubles(c *C, vals []float64) {
	var ok []float64
	for _, v := range vals {
		if !math.IsNaN(v) && !math.IsInf(v, 0) {
			ok = append(ok, v)
		}
	}
	for start := 0; start < len(ok); start += 64 {
		part := ok[start:min(start+64, len(ok))]
		k := len(part) - 1
		if k == 0 {
			part = append(part, 1)
			k = 1
		}
		t := chain(k, 1)
		for i := range t.Nodes {
			t.Nodes[i].Thr = float64(i)
		}
		// chain to the right: value i-0.5 leaves at node i
		setLeaves(&t, func(l int) float64 { return part[l] })
		for v := 0; v < 8; v++ {
			e := &Ens{Fam: famSK, NFeat: 1, Groups: 1, LR: 1, Prior: []float64{0}, Trees: []Tree{t}}
			m := mustLoad(c, famSK, skBytes(e, SKOpt{BigValues: v&1 > 0, BigPrior: v&1 > 0, Pickle: PickleOpt{RawNul: v&2 > 0, NoPut: v&4 > 0}}), false)
			for i := range part {
				got := m.PredictSingle([]float64{float64(i) - 0.5}, 0)
				if got != part[i] {
					c.Failf("leaf value %x (%v, writer variant %d) comes back as %x (%v)", math.Float64bits(part[i]), part[i], v, math.Float64bits(got), got)
				}
			}
			c.States(len(part))
			c.Trans(len(part))
			c.Traces(len(part))
		}
	}
}

func init() {
	register(&Check{ID: "C20", Level: "model_checking",
		Rule: "every program of pickle operations up to 6 (8) steps over an alphabet of 17 operations, run on a reference pickle machine with Python's semantics and on the decoder (isomorphic object graphs, or an error where the machine has one); every unknown operation in every reached state to depth 3; all strings of up to 5 (6) characters of the escape alphabet and all short token strings; numbers; numpy arrays and scalars of all types x byte orders x shapes; doubles whose bytes look like escapes through whole scikit-learn models; one state per program, string or array",
		Run:  runPickle})
}
