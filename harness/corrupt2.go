//go:build go1.23

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strings"
)

// ---- pairs of corruptions that could fit together: a count together with its elements, two counts, ... ------------

// edit replaces data[a:b] by text
type edit struct {
	a, b int
	with []byte
	what string
}

// eachPair applies every single edit and every pair of disjoint edits
func eachPair(data []byte, es []edit, part, parts int, f func(d []byte, what string)) {
	buf := make([]byte, 0, 2*len(data))
	apply := func(x, y *edit) []byte {
		if y != nil && y.a < x.a {
			x, y = y, x
		}
		buf = append(buf[:0], data[:x.a]...)
		buf = append(buf, x.with...)
		if y == nil {
			return append(buf, data[x.b:]...)
		}
		buf = append(buf, data[x.b:y.a]...)
		buf = append(buf, y.with...)
		return append(buf, data[y.b:]...)
	}
	for i := range es {
		if i%parts != part {
			continue
		}
		x := &es[i]
		f(apply(x, nil), x.what)
		for j := i + 1; j < len(es); j++ {
			y := &es[j]
			if x.a < y.b && y.a < x.b || x.a == y.a {
				continue
			}
			f(apply(x, y), x.what+" and "+y.what)
		}
	}
}

// textEdits: numbers, lines and sections of a LightGBM text model (up to the end of the trees)
func textEdits(data []byte, thorough bool) []edit {
	var es []edit
	end := bytes.Index(data, []byte("end of trees"))
	pos, section := 0, 0
	alts := []string{"0", "-1", "1", "2"}
	if thorough {
		alts = append(alts, "3", "32", "2147483647", "4294967295", "-2147483648", "1e300", "nan")
	}
	for pos < end {
		n := bytes.IndexByte(data[pos:], '\n') + 1
		line := string(data[pos : pos+n-1])
		if line == "" && pos > section {
			if section > 0 {
				es = append(es, edit{section, pos + n, nil, fmt.Sprintf("section %.10q removed", data[section:pos])})
				es = append(es, edit{section, section, append([]byte(nil), data[section:pos+n]...), fmt.Sprintf("section %.10q repeated", data[section:pos])})
			}
			section = pos + n
		} else if line == "" {
			section = pos + n
		} else {
			es = append(es, edit{pos, pos + n, nil, fmt.Sprintf("line %.30q removed", line)})
			if eq := strings.IndexByte(line, '='); eq >= 0 && eq+1 < len(line) && line[:eq] != "feature_names" && line[:eq] != "feature_infos" && line[:eq] != "Tree" {
				key := line[:eq]
				p := pos + eq + 1
				for t, tok := range strings.Split(line[eq+1:], " ") {
					for _, alt := range alts {
						if alt != tok {
							es = append(es, edit{p, p + len(tok), []byte(alt), fmt.Sprintf("%s[%d] of the line at %d replaced by %s", key, t, pos, alt)})
						}
					}
					if t > 0 {
						es = append(es, edit{p - 1, p + len(tok), nil, fmt.Sprintf("%s[%d] of the line at %d removed", key, t, pos)})
					}
					es = append(es, edit{p, p, []byte(tok + " "), fmt.Sprintf("%s[%d] of the line at %d repeated", key, t, pos)})
					p += len(tok) + 1
				}
			}
		}
		pos += n
	}
	return es
}

// jsonEdits: every value of the document
func jsonEdits(data []byte, thorough bool) []edit {
	var es []edit
	add := func(a, b int, what string, alts ...string) {
		for _, alt := range alts {
			if string(data[a:b]) != alt {
				es = append(es, edit{a, b, []byte(alt), fmt.Sprintf("%s at %d (%.30q) replaced by %.40s", what, a, data[a:b], alt)})
			}
		}
	}
	p := 0
	space := func() {
		for p < len(data) && (data[p] == ' ' || data[p] == '\n') {
			p++
		}
	}
	var value func(what string)
	value = func(what string) {
		space()
		a := p
		switch data[p] {
		case '{', '[':
			obj := data[p] == '{'
			p++
			for i := 0; ; i++ {
				space()
				if data[p] == '}' || data[p] == ']' {
					p++
					break
				}
				name := fmt.Sprint(i)
				s := p
				if obj {
					q := bytes.IndexByte(data[p+1:], '"') + p + 1
					name = string(data[p+1 : q])
					p = q + 2
				}
				value(what + "." + name)
				space()
				e := p
				if data[p] == ',' {
					p++
					e = p
					es = append(es, edit{s, e, nil, fmt.Sprintf("%s.%s removed", what, name)})
					if !obj {
						es = append(es, edit{s, s, append([]byte(nil), data[s:e]...), fmt.Sprintf("%s.%s repeated", what, name)})
					}
				}
			}
			if obj {
				add(a, p, what, "null", `{}`, `{"leaf_value":1}`)
			} else {
				add(a, p, what, "null", `[]`)
			}
		case '"':
			p = bytes.IndexByte(data[p+1:], '"') + p + 2
			if thorough || !strings.Contains(what, "feature_names") {
				add(a, p, what, `""`, `"1"`, `"3||64"`, `"=="`, `"<="`)
			}
		default:
			for strings.IndexByte(",}]\n ", data[p]) < 0 {
				p++
			}
			if data[a] == 't' || data[a] == 'f' {
				add(a, p, what, "true", "false")
			} else if thorough {
				add(a, p, what, "0", "-1", "1", "2", "3", "100", "2147483648", "4294967296", "1e300", `"5"`, "null")
			} else {
				add(a, p, what, "0", "-1", "1", "2", `"5"`)
			}
		}
	}
	value("")
	return es
}

// binaryEdits: fields of XGBoost models
func binaryEdits(e *Ens, data []byte, thorough bool) []edit {
	var es []edit
	p := 0
	cut := func(a, b int, what string) {
		if a < b {
			es = append(es, edit{a, b, nil, what + " removed"})
			es = append(es, edit{b, b, append([]byte(nil), data[a:b]...), what + " repeated"})
		}
	}
	i32 := func(what string) {
		vs := []int32{0, 1, -1, 2}
		if thorough {
			vs = append(vs, 3, 4, 1<<31-1, -1<<31, 100)
		}
		for _, v := range vs {
			var b [4]byte
			binary.LittleEndian.PutUint32(b[:], uint32(v))
			if !bytes.Equal(b[:], data[p:p+4]) {
				es = append(es, edit{p, p + 4, b[:], fmt.Sprintf("%s at %d replaced by %d", what, p, v)})
			}
		}
		p += 4
	}
	u64 := func(what string, vs ...uint64) uint64 {
		old := binary.LittleEndian.Uint64(data[p:])
		for _, v := range append(vs, old-1, old+1) {
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], v)
			es = append(es, edit{p, p + 8, b[:], fmt.Sprintf("%s at %d replaced by %d", what, p, v)})
		}
		p += 8
		return old
	}
	p = 4
	i32("features")
	i32("classes")
	p = 4 + 4 + 4 + 4 + 4 + 29*4
	for _, what := range []string{"objective", "booster"} {
		n := int(u64("length of "+what, 0, 1<<40))
		cut(p, p+n, what)
		if what == "booster" {
			for _, v := range []string{"gbtree", "dart", "gblinear"} {
				var b binw
				b.str(v)
				es = append(es, edit{p - 8, p + n, b.Bytes(), "booster replaced by " + v})
			}
		}
		p += n
	}
	if e.Fam == famLinear {
		i32("features of the booster")
		i32("groups")
		p += 32 * 4
		n := int(u64("number of weights", 0))
		cut(p, p+4*n, "all weights")
		for i := 0; i < n; i++ {
			cut(p, p+4, fmt.Sprintf("weight %d", i))
			p += 4
		}
		return es
	}
	i32("trees")
	i32("roots")
	i32("features of the booster")
	p += 4 + 8
	i32("groups")
	i32("size of leaf vector")
	p += 32 * 4
	first := p
	for t := range e.Trees {
		a := p
		i32(fmt.Sprintf("roots of tree %d", t))
		n := int(int32(binary.LittleEndian.Uint32(data[p:])))
		i32(fmt.Sprintf("nodes of tree %d", t))
		i32(fmt.Sprintf("deleted nodes of tree %d", t))
		p += 4
		i32(fmt.Sprintf("features of tree %d", t))
		i32(fmt.Sprintf("leaf vector of tree %d", t))
		p += 31 * 4
		cut(p, p+20*n, fmt.Sprintf("all nodes of tree %d", t))
		cut(p, p+36*n, fmt.Sprintf("all nodes and statistics of tree %d", t))
		for i := 0; i < n; i++ {
			cut(p, p+20, fmt.Sprintf("node %d of tree %d", i, t))
			p += 4
			i32(fmt.Sprintf("left child of node %d of tree %d", i, t))
			i32(fmt.Sprintf("right child of node %d of tree %d", i, t))
			i32(fmt.Sprintf("feature of node %d of tree %d", i, t))
			p += 4
		}
		cut(p, p+16*n, fmt.Sprintf("all statistics of tree %d", t))
		cut(p, p+16, fmt.Sprintf("a statistic of tree %d", t))
		p += 16 * n
		cut(a, p, fmt.Sprintf("tree %d", t))
	}
	cut(first, p, "all trees")
	info := p
	for t := range e.Trees {
		cut(p, p+4, fmt.Sprintf("group of tree %d", t))
		i32(fmt.Sprintf("group of tree %d", t))
	}
	cut(info, p, "all groups")
	cut(first, p, "all trees and groups")
	if e.Fam == famDart {
		n := int(u64("number of weights", 0))
		cut(p, p+4*n, "all weights")
		for i := 0; i < n; i++ {
			cut(p, p+4, fmt.Sprintf("weight %d", i))
			p += 4
		}
	}
	return es
}

// picklePairs replaces two objects of the pickle at once
func picklePairs(e *Ens, part, parts int, thorough bool, f func(d []byte, what string)) {
	type choice struct {
		slot, alt int
		what      string
	}
	var pick []choice
	var all []choice
	alts := func(old interface{}) []interface{} {
		switch x := old.(type) {
		case pyLong:
			if thorough {
				return []interface{}{pyLong(0), pyLong(1), pyLong(2), pyLong(3), pyLong(-1), pyLong(1 << 40), pyNone{}}
			}
			return []interface{}{pyLong(0), pyLong(1), pyLong(2), pyLong(-1)}
		case *pyStr:
			n := len(x.s)
			var o []interface{}
			if n >= 8 && n%8 == 0 { // array data
				step := 8
				if n%56 == 0 {
					step = 56
				}
				o = append(o, &pyStr{""}, &pyStr{x.s[:n-step]}, &pyStr{x.s + x.s[:step]}, &pyStr{strings.Repeat("\x00", n)}, &pyStr{strings.Repeat("\xff", n)})
			} else if thorough || n <= 3 {
				o = append(o, &pyStr{"f8"}, &pyStr{"i8"}, &pyStr{">"}, &pyStr{"O8"})
			}
			return o
		case *pyList:
			if len(x.v) > 0 {
				return []interface{}{&pyList{}, &pyList{x.v[:len(x.v)-1]}, &pyList{append(append([]interface{}{}, x.v...), x.v[0])}}
			}
		case *pyTuple:
			if len(x.v) > 0 {
				return []interface{}{tup(), tup(x.v[:len(x.v)-1]...), tup(append(append([]interface{}{}, x.v...), x.v[0])...)}
			}
		}
		return nil
	}
	build := func() []byte {
		return skBytes(e, SKOpt{Mutate: func(p *pickler, root *pyReduce) {
			var slots []objSlot
			pickleSlots("", root, map[interface{}]bool{}, func(s objSlot) { slots = append(slots, s) })
			if pick == nil {
				for i, s := range slots {
					if strings.Contains(s.path, ".key:") {
						continue
					}
					old := s.get()
					for a, alt := range alts(old) {
						all = append(all, choice{i, a, fmt.Sprintf("%s (%.30v) replaced by %.40v", s.path, short(old), short(alt))})
					}
					if s.del != nil && !thorough {
						continue
					}
				}
				return
			}
			var news []interface{}
			for _, ch := range pick {
				news = append(news, alts(slots[ch.slot].get())[ch.alt])
			}
			for i, ch := range pick {
				slots[ch.slot].set(news[i])
			}
		}})
	}
	build()
	for i := range all {
		if i%parts != part {
			continue
		}
		for j := i + 1; j < len(all); j++ {
			if all[i].slot == all[j].slot {
				continue
			}
			pick = []choice{all[i], all[j]}
			f(build(), all[i].what+" and "+all[j].what)
		}
	}
}

// pairModels are small, so that all pairs can be tried
func pairModels(thorough bool) []faultModel {
	var ms []faultModel
	add := func(e *Ens) {
		ms = append(ms, faultModel{fmt.Sprintf("%s features=%d groups=%d trees=%d", famName[e.Fam], e.NFeat, e.Groups, len(e.Trees)), e.Fam, emit(e), e.Load, e})
	}
	for fam := 0; fam < numFamilies; fam++ {
		if fam == famLinear {
			add(zooEns(fam, 2, 1, 1, 1, true))
			add(zooEns(fam, 1, 2, 1, 1, false))
			continue
		}
		split := func() Tree {
			t := dress(Tree{Nodes: []Node{{L: ^0, R: ^1}}, Leaf: []float64{1, 2}}, []Node{numNode(0.5, 0, false)}, []int{0})
			return t
		}
		leaf := Tree{Leaf: []float64{0.25}}
		mk := func(groups int, ts ...Tree) *Ens {
			e := oneTree(fam, ts[0])
			e.Groups, e.Trees = groups, ts
			if fam == famDart {
				e.Drop = make([]float32, len(ts))
				for i := range ts {
					e.Drop[i] = 0.5
				}
			}
			if fam == famSK {
				e.LR = 0.5
				e.Prior = make([]float64, groups)
				for i := range e.Prior {
					e.Prior[i] = 0.25
				}
			}
			return e
		}
		add(mk(1, split()))
		add(mk(1, leaf))
		if fam != famSK || thorough {
			add(mk(1, split(), leaf))
		}
		if fam != famSK {
			add(mk(2, leaf, split()))
		} else if thorough {
			add(mk(3, leaf, split(), leaf))
		}
		if fam == famLGText || fam == famLGJSON {
			t := dress(chain(2, 0), []Node{catNode(missNone, false, 0, 1, 40), catNode(missNaN, false, 0, 0, 5)}, []int{0, 1})
			setLeaves(&t, func(l int) float64 { return float64(l) + 0.5 })
			e := oneTree(fam, t)
			e.NFeat = 2
			add(e)
		}
	}
	return ms
}

func runPairs(x *X) {
	ms := pairModels(x.Thorough)
	for i := range ms {
		m := &ms[i]
		const parts = 16
		for part := 0; part < parts; part++ {
			x.Case(func() string { return fmt.Sprintf("%s: pairs of changes, part %d", m.name, part) }, func(c *C) {
				full, err := m.read(bytes.NewReader(m.data))
				if err != nil {
					c.Failf("the correct model is refused: %v", err)
				}
				k := &corruptCase{c: c, m: m, nfeat: full.NFeatures()}
				k.rows = corruptRows(m, k.nfeat)
				k.orig, _ = printModel(full, k.rows)
				if m.fam == famSK {
					picklePairs(m.e, part, parts, x.Thorough, func(d []byte, what string) { k.try(d, what, false) })
				} else {
					var es []edit
					switch m.fam {
					case famLGText:
						es = textEdits(m.data, x.Thorough)
					case famLGJSON:
						es = jsonEdits(m.data, x.Thorough)
					default:
						es = binaryEdits(m.e, m.data, x.Thorough)
					}
					eachPair(m.data, es, part, parts, func(d []byte, what string) { k.try(d, what, false) })
				}
				c.Extra("corrupted_accepted", k.accepted)
				c.Extra("corrupted_refused", k.refused)
				c.Extra("corrupted_accepted_with_other_predictions", k.changed)
			})
		}
	}
}
