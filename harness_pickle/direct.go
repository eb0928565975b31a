//go:build go1.23

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	"github.com/dmitryikh/leaves/internal/pickle"
	"github.com/dmitryikh/leaves/util"
)

// ---- reference machine ------------------------------------------------------------------------------------------------

type (
	rNone   struct{}
	rTuple  struct{ v []interface{} }
	rList   struct{ v []interface{} }
	rDict   struct{ m map[string]interface{} }
	rGlobal struct{ mod, name string }
	rObj    struct {
		callable interface{}
		args     *rTuple
		state    interface{}
		built    bool
	}
	// rRef is a reference to an object; early: it was taken before the object got its state
	rRef struct {
		o     *rObj
		early bool
	}
)

type rMachine struct {
	stack []interface{}
	marks []int
	memo  map[string]interface{}
}

// outcomes of a step
const (
	stepOK   = iota
	stepErr  // Python refuses
	stepFree // outside of the supported operations: only "no panic" is demanded
)

// pickleOp is an operation of the alphabet
type pickleOp struct {
	text string
	run  func(m *rMachine) int
}

func (m *rMachine) depth() int {
	if len(m.marks) > 0 {
		return len(m.stack) - m.marks[len(m.marks)-1]
	}
	return len(m.stack)
}

func (m *rMachine) push(v interface{}) { m.stack = append(m.stack, v) }
func (m *rMachine) pop() interface{} {
	v := m.stack[len(m.stack)-1]
	m.stack = m.stack[:len(m.stack)-1]
	return v
}
func (m *rMachine) popMark() []interface{} {
	i := m.marks[len(m.marks)-1]
	m.marks = m.marks[:len(m.marks)-1]
	v := append([]interface{}(nil), m.stack[i:]...)
	m.stack = m.stack[:i]
	return v
}

func opPush(text string, v interface{}) pickleOp {
	return pickleOp{text, func(m *rMachine) int { m.push(v); return stepOK }}
}

func opPut(key string) pickleOp {
	return pickleOp{"p" + key + "\n", func(m *rMachine) int {
		if m.depth() < 1 {
			return stepErr
		}
		m.memo[key] = m.stack[len(m.stack)-1]
		return stepOK
	}}
}

func opGet(key string) pickleOp {
	return pickleOp{"g" + key + "\n", func(m *rMachine) int {
		v, ok := m.memo[key]
		if !ok {
			return stepErr
		}
		if r, ok := v.(rRef); ok {
			v = rRef{r.o, !r.o.built}
		}
		m.push(v)
		return stepOK
	}}
}

var opMark = pickleOp{"(", func(m *rMachine) int { m.marks = append(m.marks, len(m.stack)); return stepOK }}
var opTuple = pickleOp{"t", func(m *rMachine) int {
	if len(m.marks) == 0 {
		return stepErr
	}
	m.push(&rTuple{m.popMark()})
	return stepOK
}}
var opList = pickleOp{"l", func(m *rMachine) int {
	if len(m.marks) == 0 {
		return stepErr
	}
	m.push(&rList{m.popMark()})
	return stepOK
}}
var opDict = pickleOp{"d", func(m *rMachine) int {
	if len(m.marks) == 0 {
		return stepErr
	}
	v := m.popMark()
	if len(v)%2 != 0 {
		return stepErr
	}
	d := &rDict{map[string]interface{}{}}
	for i := 0; i < len(v); i += 2 {
		k, ok := v[i].(string)
		if !ok {
			return stepFree
		}
		d.m[k] = v[i+1]
	}
	m.push(d)
	return stepOK
}}
var opAppend = pickleOp{"a", func(m *rMachine) int {
	if m.depth() < 2 {
		return stepErr
	}
	v := m.pop()
	switch l := m.stack[len(m.stack)-1].(type) {
	case *rList:
		l.v = append(l.v, v)
		return stepOK
	case rRef:
		return stepFree
	}
	return stepErr
}}
var opSetitem = pickleOp{"s", func(m *rMachine) int {
	if m.depth() < 3 {
		return stepErr
	}
	v, k := m.pop(), m.pop()
	switch d := m.stack[len(m.stack)-1].(type) {
	case *rDict:
		s, ok := k.(string)
		if !ok {
			return stepFree
		}
		d.m[s] = v
		return stepOK
	case *rList, rRef:
		return stepFree
	}
	return stepErr
}}
var opReduce = pickleOp{"R", func(m *rMachine) int {
	if m.depth() < 2 {
		return stepErr
	}
	a, f := m.pop(), m.pop()
	t, ok := a.(*rTuple)
	if !ok {
		return stepErr
	}
	if _, ok := f.(rGlobal); !ok {
		return stepFree
	}
	m.push(rRef{&rObj{callable: f, args: t}, true})
	return stepOK
}}
var opBuild = pickleOp{"b", func(m *rMachine) int {
	if m.depth() < 2 {
		return stepErr
	}
	s := m.pop()
	r, ok := m.pop().(rRef)
	if !ok || r.o.built {
		return stepFree
	}
	r.o.built, r.o.state = true, s
	m.push(rRef{r.o, false})
	return stepOK
}}

// runRef executes a program; the outcome is that of the last step
func runRef(ops []pickleOp) (*rMachine, int) {
	m := &rMachine{memo: map[string]interface{}{}}
	for i := range ops {
		if r := ops[i].run(m); r != stepOK {
			return m, r
		}
	}
	return m, stepOK
}

// iso compares a reference value with a decoded one; shared objects have to be shared in the same way
type iso struct {
	toImpl map[interface{}]uintptr
	toRef  map[uintptr]interface{}
}

func (s *iso) pair(ref interface{}, impl interface{}) (bool, bool) {
	p := reflect.ValueOf(impl).Pointer()
	q, ok := s.toImpl[ref]
	r, ok2 := s.toRef[p]
	if ok || ok2 {
		return ok && ok2 && q == p && r == ref, true
	}
	s.toImpl[ref] = p
	s.toRef[p] = ref
	return true, false
}

func (s *iso) same(ref, impl interface{}) bool {
	switch r := ref.(type) {
	case rNone:
		_, ok := impl.(pickle.None)
		return ok
	case int:
		v, ok := impl.(int)
		return ok && v == r
	case float64:
		v, ok := impl.(float64)
		return ok && (v == r && math.Signbit(v) == math.Signbit(r) || v != v && r != r)
	case string:
		v, ok := impl.(pickle.Unicode)
		return ok && string(v) == r
	case rGlobal:
		v, ok := impl.(pickle.Global)
		return ok && v.Module == r.mod && v.Name == r.name
	case *rTuple:
		v, ok := impl.(pickle.Tuple)
		return ok && s.seq(r.v, v)
	case *rList:
		v, ok := impl.(*pickle.List)
		if !ok || v == nil {
			return false
		}
		if same, seen := s.pair(r, v); seen || !same {
			return same
		}
		return s.seq(r.v, *v)
	case *rDict:
		v, ok := impl.(pickle.Dict)
		if !ok || len(v) != len(r.m) {
			return false
		}
		if same, seen := s.pair(r, v); seen || !same {
			return same
		}
		for k, x := range r.m {
			y, ok := v[k]
			if !ok || !s.same(x, y) {
				return false
			}
		}
		return true
	case rRef:
		var red *pickle.Reduce
		built := false
		var args interface{}
		switch v := impl.(type) {
		case *pickle.Reduce:
			red = v
		case pickle.Build:
			red, _ = v.Object.(*pickle.Reduce)
			built, args = true, v.Args
		}
		if red == nil || !r.o.built && built || r.o.built && !built && !r.early {
			return false
		}
		same, seen := s.pair(r.o, red)
		if !same {
			return false
		}
		if !seen && (!s.same(r.o.callable, red.Callable) || !s.seq(r.o.args.v, red.Args)) {
			return false
		}
		if built {
			k := &struct{ o *rObj }{r.o}
			_ = k
			if s.toImpl[stateKey{r.o}] == 0 {
				s.toImpl[stateKey{r.o}] = 1
				return s.same(r.o.state, args)
			}
		}
		return true
	}
	return false
}

type stateKey struct{ o *rObj }

func (s *iso) seq(ref []interface{}, impl []interface{}) bool {
	if len(ref) != len(impl) {
		return false
	}
	for i := range ref {
		if !s.same(ref[i], impl[i]) {
			return false
		}
	}
	return true
}

func isomorphic(ref, impl interface{}) bool {
	return (&iso{map[interface{}]uintptr{}, map[uintptr]interface{}{}}).same(ref, impl)
}

func decode(b []byte) (interface{}, error) {
	return pickle.NewDecoder(bytes.NewReader(b)).Decode()
}

// describe a reference value, cycles cut
func describe(v interface{}, d int) string {
	if d > 6 {
		return "..."
	}
	j := func(v []interface{}) string {
		var p []string
		for _, x := range v {
			p = append(p, describe(x, d+1))
		}
		return strings.Join(p, ", ")
	}
	switch r := v.(type) {
	case rNone:
		return "None"
	case string:
		return strconv.Quote(r)
	case *rTuple:
		return "(" + j(r.v) + ")"
	case *rList:
		return "[" + j(r.v) + "]"
	case *rDict:
		s := "{"
		for k, x := range r.m {
			s += strconv.Quote(k) + ": " + describe(x, d+1) + " "
		}
		return s + "}"
	case rRef:
		s := fmt.Sprint(r.o.callable) + describe(r.o.args, d+1)
		if r.o.built {
			s += " with state " + describe(r.o.state, d+1)
		}
		return s
	}
	return fmt.Sprint(v)
}

// ---- programs ----------------------------------------------------------------------------------------------------------

func supported() map[byte]bool {
	m := map[byte]bool{}
	for _, b := range []byte("(.FILNRVabcdglpst") {
		m[b] = true
	}
	return m
}

// step checks the program ops (whose proper prefixes are all fine) and tells whether it may be extended
func checkProgram(c *C, ops []pickleOp) bool {
	var b []byte
	for i := range ops {
		b = append(b, ops[i].text...)
	}
	c.States(1)
	c.Trans(1)
	c.Traces(1)
	m, out := runRef(ops)
	c.Stage(fmt.Sprintf("decoding %q", b))
	switch out {
	case stepFree:
		decode(append(b, '.'))
		return false
	case stepErr:
		if v, err := decode(append(b, '.')); err == nil {
			c.Failf("program %q: Python refuses it, decoded as %T", append(b, '.'), v)
		}
		return false
	}
	got, err := decode(append(b, '.'))
	if m.depth() < 1 {
		if err == nil {
			c.Failf("program %q stops on an empty stack, decoded as %T", append(b, '.'), got)
		}
		return true
	}
	top := m.stack[len(m.stack)-1]
	if err != nil {
		c.Failf("program %q is %s, refused: %v", append(b, '.'), describe(top, 0), err)
	}
	if !isomorphic(top, got) {
		c.Failf("program %q is %s, decoded as %s", append(b, '.'), describe(top, 0), describeImpl(got, 0))
	}
	// bytes behind STOP do not matter
	return true
}

func describeImpl(v interface{}, d int) string {
	if d > 6 {
		return "..."
	}
	j := func(v []interface{}) string {
		var p []string
		for _, x := range v {
			p = append(p, describeImpl(x, d+1))
		}
		return strings.Join(p, ", ")
	}
	switch r := v.(type) {
	case pickle.None:
		return "None"
	case pickle.Unicode:
		return strconv.Quote(string(r))
	case pickle.Tuple:
		return "(" + j(r) + ")"
	case *pickle.List:
		return "[" + j(*r) + "]"
	case pickle.Dict:
		s := "{"
		for k, x := range r {
			s += strconv.Quote(k) + ": " + describeImpl(x, d+1) + " "
		}
		return s + "}"
	case *pickle.Reduce:
		return fmt.Sprint(describeImpl(r.Callable, d+1)) + "(" + j(r.Args) + ")"
	case pickle.Build:
		return describeImpl(r.Object, d+1) + " with state " + describeImpl(r.Args, d+1)
	case int, float64, pickle.Global:
		return fmt.Sprint(r)
	}
	return fmt.Sprintf("%T", v)
}

func runPrograms(x *X) {
	alphabet := []pickleOp{opMark, opPush("N", rNone{}), opPush("I1\n", 1), opPush("Va\n", "a"), opPush("Vb\n", "b"), opPush("cm\nn\n", rGlobal{"m", "n"}),
		opPut("0"), opPut("1"), opGet("0"), opGet("1"), opTuple, opList, opDict, opAppend, opSetitem, opReduce, opBuild}
	depth := 6
	if x.Thorough {
		depth = 8
	}
	var unknown []byte
	sup := supported()
	for b := 0; b < 256; b++ {
		if !sup[byte(b)] {
			unknown = append(unknown, byte(b))
		}
	}
	x.Case(func() string { return "the empty program" }, func(c *C) {
		if _, err := decode(nil); err == nil {
			c.Failf("an empty file is accepted")
		}
		if _, err := decode([]byte(".")); err == nil {
			c.Failf("STOP on an empty stack is accepted")
		}
	})
	dfs := func(c *C, ops []pickleOp, depth int, alphabet []pickleOp) {
		var rec func(ops []pickleOp)
		rec = func(ops []pickleOp) {
			if !checkProgram(c, ops) {
				return
			}
			if len(ops) <= 3 {
				var b []byte
				for i := range ops {
					b = append(b, ops[i].text...)
				}
				for _, u := range unknown {
					if v, err := decode(append(append([]byte(nil), b...), u, '1', '\n', '.')); err == nil {
						c.Failf("program %q with unknown operation %q is decoded as %T", b, u, v)
					}
					c.Traces(1)
				}
				// every program has to be complete
				for n := 0; n <= len(b); n++ {
					if v, err := decode(b[:n]); err == nil {
						c.Failf("incomplete program %q is decoded as %T", b[:n], v)
					}
					c.Traces(1)
				}
			}
			if len(ops) == depth {
				return
			}
			for i := range alphabet {
				rec(append(ops, alphabet[i]))
			}
			c.Alive()
		}
		rec(ops)
	}
	for i := range alphabet {
		x.Case(func() string { return fmt.Sprintf("program %q", alphabet[i].text) }, func(c *C) {
			checkProgram(c, []pickleOp{alphabet[i]})
		})
		for j := range alphabet {
			if _, out := runRef([]pickleOp{alphabet[i]}); out != stepOK {
				continue
			}
			for k := range alphabet {
				if _, out := runRef([]pickleOp{alphabet[i], alphabet[j]}); out != stepOK {
					if k > 0 {
						continue
					}
					x.Case(func() string { return fmt.Sprintf("program %q %q", alphabet[i].text, alphabet[j].text) }, func(c *C) {
						checkProgram(c, []pickleOp{alphabet[i], alphabet[j]})
					})
					continue
				}
				x.Case(func() string {
					return fmt.Sprintf("all programs of %d operations starting with %q %q %q", depth, alphabet[i].text, alphabet[j].text, alphabet[k].text)
				}, func(c *C) {
					if k == 0 {
						checkProgram(c, []pickleOp{alphabet[i], alphabet[j]})
					}
					dfs(c, []pickleOp{alphabet[i], alphabet[j], alphabet[k]}, depth, alphabet)
				})
			}
		}
	}
	// deeper programs that start with useful prefixes, over smaller alphabets
	seq := func(s ...pickleOp) []pickleOp { return s }
	small := []pickleOp{opMark, opPush("N", rNone{}), opPush("Va\n", "a"), opPut("0"), opGet("0"), opTuple, opAppend, opSetitem, opReduce, opBuild, opList, opDict}
	glob := opPush("cm\nn\n", rGlobal{"m", "n"})
	more := 5
	if x.Thorough {
		more = 6
	}
	for pi, p := range [][]pickleOp{
		seq(opMark, opList, opPut("0")), seq(opMark, opDict, opPut("0")), seq(glob, opMark, opTuple, opReduce, opPut("0")),
		seq(glob, opMark, opTuple, opReduce, opPut("0"), opMark, opDict, opBuild), seq(opMark, opMark, opList, opPut("0"), opGet("0")),
		seq(opMark, opList, opPut("0"), opMark, opGet("0"), opGet("0"), opTuple), seq(opMark, glob, opMark, opTuple, opReduce, opPut("0"), opGet("0")),
	} {
		for i := range small {
			x.Case(func() string { return fmt.Sprintf("programs with prefix %d and %q", pi, small[i].text) }, func(c *C) {
				dfs(c, append(append([]pickleOp(nil), p...), small[i]), len(p)+more, small)
			})
		}
	}
	// many memo entries, deep nesting, long containers
	for _, n := range []int{9, 10, 11, 12, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 1000, 1024, 3000, 4097, 70000} {
		x.Case(func() string { return fmt.Sprintf("%d memo entries", n) }, func(c *C) {
			ops := []pickleOp{opMark}
			for i := 0; i < n; i++ {
				ops = append(ops, opPush(fmt.Sprintf("I%d\n", i*7), i*7), opPut(fmt.Sprint(i)))
			}
			for i := n - 1; i >= 0; i-- {
				ops = append(ops, opGet(fmt.Sprint(i)))
			}
			checkProgram(c, append(ops, opTuple))
			checkProgram(c, append(ops, opList))
			checkProgram(c, append(ops[:1:1], opGet(fmt.Sprint(n))))
			// overwritten entries
			ops = append(ops, opPush("Vz\n", "z"), opPut("1"), opGet("1"), opGet("10"), opGet("0"))
			checkProgram(c, append(ops, opTuple))
		})
		x.Case(func() string { return fmt.Sprintf("containers of %d entries", n) }, func(c *C) {
			// every element is an object of its own or a shared one
			elem := func(i int) []pickleOp {
				switch i % 4 {
				case 0:
					return []pickleOp{opPush(fmt.Sprintf("I%d\n", i), i)}
				case 1:
					return []pickleOp{opPush(fmt.Sprintf("Vs%d\n", i), fmt.Sprintf("s%d", i))}
				case 2:
					return []pickleOp{opMark, opPush("N", rNone{}), opTuple}
				}
				return []pickleOp{opGet("0")}
			}
			shared := []pickleOp{opMark, opMark, opPush("Va\n", "a"), opList, opPut("0")}
			for kind := 0; kind < 4; kind++ {
				ops := append([]pickleOp(nil), shared...)
				switch kind {
				case 0, 1:
					ops = append(ops, opMark)
					for i := 0; i < n; i++ {
						ops = append(ops, elem(i)...)
					}
					ops = append(ops, []pickleOp{opTuple, opList}[kind])
				case 2:
					ops = append(ops, opMark, opList)
					for i := 0; i < n; i++ {
						ops = append(append(ops, elem(i)...), opAppend)
					}
				case 3:
					ops = append(ops, opMark, opDict)
					for i := 0; i < n; i++ {
						ops = append(ops, opPush(fmt.Sprintf("Vk%d\n", i), fmt.Sprintf("k%d", i)))
						ops = append(append(ops, elem(i)...), opSetitem)
					}
					ops = append(ops, opMark)
					for i := 0; i < n; i++ {
						ops = append(ops, opPush(fmt.Sprintf("Vk%d\n", i), fmt.Sprintf("k%d", i)))
						ops = append(ops, elem(i+1)...)
					}
					ops = append(ops, opDict)
				}
				checkProgram(c, append(ops, opTuple))
			}
		})
		if n > 5000 {
			continue
		}
		x.Case(func() string { return fmt.Sprintf("%d nested containers", n) }, func(c *C) {
			var ops []pickleOp
			for i := 0; i < n; i++ {
				ops = append(ops, opMark, opPush(fmt.Sprintf("I%d\n", i), i))
			}
			for i := 0; i < n; i++ {
				ops = append(ops, []pickleOp{opTuple, opList}[i%2])
			}
			checkProgram(c, ops)
			ops = []pickleOp{opMark, opList}
			for i := 0; i < n; i++ {
				ops = append(ops, opMark, opList)
			}
			for i := 0; i < n; i++ {
				ops = append(ops, opAppend)
			}
			checkProgram(c, ops)
			ops = []pickleOp{opMark, opDict, opPut("0")}
			for i := 0; i < n; i++ {
				ops = append(ops, opPush(fmt.Sprintf("Vk%d\n", i), fmt.Sprintf("k%d", i)), opMark, opDict, opSetitem)
			}
			checkProgram(c, ops)
		})
	}
}

// ---- strings and numbers --------------------------------------------------------------------------------------------------

func runStrings(x *X) {
	one := func(c *C, s string) {
		for _, rawNul := range []bool{false, true} {
			b := []byte("V" + escapeUnicode(s, rawNul) + "\n.")
			got, err := decode(b)
			if err != nil {
				c.Failf("string %q written as %q: %v", s, b, err)
			}
			if u, ok := got.(pickle.Unicode); !ok || string(u) != s {
				c.Failf("string %q written as %q is decoded as %q", s, b, got)
			}
			c.States(1)
			c.Trans(1)
			c.Traces(1)
		}
	}
	alpha := []byte{'\\', 'u', '0', '5', 'c', 'a', '\n', '\r', 0, 0x1a, 0x80, 0xff, ' ', '1', 'd', 'A'}
	n := 4
	if x.Thorough {
		n = 5
	}
	for i := range alpha {
		for j := range alpha {
			x.Case(func() string { return fmt.Sprintf("strings that start with %q", alpha[i:i+1]) }, func(c *C) {
				if j == 0 {
					one(c, string(alpha[i:i+1]))
				}
				var rec func(s []byte)
				rec = func(s []byte) {
					one(c, string(s))
					if len(s) == n+1 {
						return
					}
					for _, ch := range alpha {
						rec(append(s, ch))
					}
				}
				rec([]byte{alpha[i], alpha[j]})
			})
		}
	}
	x.Case(func() string { return "all strings of up to two bytes" }, func(c *C) {
		one(c, "")
		for i := 0; i < 256; i++ {
			one(c, string([]byte{byte(i)}))
			for j := 0; j < 256; j++ {
				one(c, string([]byte{byte(i), byte(j)}))
			}
		}
	})
	max := 10
	if x.Thorough {
		max = 13
	}
	for k := 3; k <= max; k++ {
		x.Case(func() string { return fmt.Sprintf("strings of %d bytes made of look-alikes of escapes", k) }, func(c *C) {
			toks := []string{"\\u000a", "\\u005c", "\\u000d", "\\u0000", "\\u001a", "u000a", "u005c", "\\", "\n", "c", "0", "u"}
			m := 0
			var rec func(s string)
			rec = func(s string) {
				if len(s) == k {
					one(c, s)
					m++
					if m%4096 == 0 {
						c.Alive()
					}
					return
				}
				for i, t := range toks {
					if k > 7 && i >= 9 {
						break
					}
					if len(s)+len(t) <= k {
						rec(s + t)
					}
				}
			}
			rec("")
		})
	}
	for _, k := range []int{100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 8191, 8192, 16384, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 140000} {
		x.Case(func() string { return fmt.Sprintf("strings of %d bytes", k) }, func(c *C) {
			long := strings.Repeat("name_", k/5+1)[:k]
			text := strings.Repeat("x1 ", k/3+1)[:k]
			// names and strings of that length between other objects
			checkProgram(c, []pickleOp{opMark, opPush("c"+long+"\n"+long+"b\n", rGlobal{long, long + "b"}), opMark, opPush("V"+text+"\n", text), opPut("0"),
				opPush("I5\n", 5), opTuple, opReduce, opPush("V"+text+"\n", text), opGet("0"), opPush("Vab\n", "ab"), opTuple})
			checkProgram(c, []pickleOp{opMark, opDict, opPush("V"+text+"\n", text), opPush("I5\n", 5), opSetitem, opPush("V"+text+"z\n", text+"z"), opPush("I6\n", 6), opSetitem})
			for _, t := range []string{"a", "\\", "\n", "\\u000a", "\x00\xff"} {
				one(c, strings.Repeat(t, k)[:k])
			}
		})
	}
	num := func(c *C, text string, want interface{}) {
		got, err := decode([]byte(text + "."))
		if err != nil {
			c.Failf("%q: %v", text, err)
		}
		if !isomorphic(want, got) {
			c.Failf("%q is decoded as %v", text, got)
		}
		c.States(1)
		c.Trans(1)
		c.Traces(1)
	}
	x.Case(func() string { return "integers" }, func(c *C) {
		var vals []int
		for i := -1000; i <= 1000; i++ {
			vals = append(vals, i)
		}
		for s := uint(8); s < 63; s++ {
			for d := -1; d <= 1; d++ {
				vals = append(vals, 1<<s+d, -(1<<s)+d)
			}
		}
		vals = append(vals, math.MaxInt64, math.MinInt64, math.MaxInt64-1, math.MinInt64+1)
		for _, v := range vals {
			num(c, fmt.Sprintf("I%d\n", v), v)
			num(c, fmt.Sprintf("L%dL\n", v), v)
		}
		num(c, "I00\n", 0)
		num(c, "I01\n", 1)
		for v, l := range []string{"000", "001", "002", "003", "004", "005", "006", "007", "008", "009", "010", "011", "012"} { // decimal, whatever they start with
			num(c, "I"+l+"\n", v)
			num(c, "L"+l+"L\n", v)
			num(c, "I-"+l+"\n", -v)
		}
		for _, bad := range []string{"I\n", "Ix\n", "I1.5\n", "L\n", "LL\n", "LxL\n", "L1.5L\n", "I99999999999999999999\n", "L99999999999999999999L\n", "I1", "L1L", "F\n", "Fx\n", "F1.5", "F1,5\n", "I1 2\n"} {
			if v, err := decode([]byte(bad + ".")); err == nil {
				c.Failf("%q is decoded as %v", bad, v)
			}
		}
	})
	x.Case(func() string { return "floats" }, func(c *C) {
		vals := []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 1e16, 1e15, 123456789012345678, 1e22, 1e23, 1e-4, 1e-5, 9007199254740993, 5e-324, 2.2250738585072014e-308, 2.225073858507201e-308,
			math.MaxFloat64, math.Pi, 1.0 / 3, 4.35, 0.3, 1e300, 1e-300, 0.1 + 0.2, 6.02214076e23}
		for _, v := range append([]float64(nil), vals...) {
			vals = append(vals, -v, math.Nextafter(v, 2*v), math.Nextafter(v, 0), v*3, v/7)
		}
		vals = append(vals, math.Inf(1), math.Inf(-1), math.NaN())
		for e := -1074; e < 1024; e++ {
			vals = append(vals, math.Ldexp(1, e), math.Ldexp(1.7320508075688772, e))
		}
		for _, v := range vals {
			num(c, "F"+pyFloatRepr(v)+"\n", v)
		}
	})
}

// ---- numpy ------------------------------------------------------------------------------------------------------------------

func runNumpy(x *X) {
	types := []string{"i8", "f8", "V56", "i4", "f4", "b1", "u8"}
	shapes := [][]int{{0}, {1}, {2}, {3}, {2, 2}, {1, 1, 1}, {4, 1, 1}, {2, 3}, {}, {130}, {1030}}
	for _, ty := range types {
		for _, en := range []string{"<", ">", "|", "="} {
			for _, sh := range shapes {
				x.Case(func() string { return fmt.Sprintf("array %s%s %v", en, ty, sh) }, func(c *C) {
					size, _ := strconv.Atoi(ty[1:])
					n := 1
					for _, d := range sh {
						n *= d
					}
					for pat := 0; pat < 4; pat++ {
						for fortran := 0; fortran < 2; fortran++ {
							for opt := 0; opt < 8; opt++ {
								data := make([]byte, n*size)
								for i := range data {
									data[i] = []byte{byte(i), byte(255 - i), "\\u000a\n\r\x00"[i%9], byte(i * 37)}[pat]
								}
								po := PickleOpt{Ints: opt&1 > 0, RawNul: opt&2 > 0, NoPut: opt&4 > 0}
								mk := func(p *pickler) (*skb, *pyReduce) {
									s := &skb{p: p, dts: map[string]*pyReduce{}}
									dt := &pyReduce{callable: p.global("numpy", "dtype"), args: tup(p.fresh(ty), pyLong(0), pyLong(1))}
									dt.state = tup(pyLong(3), p.str(en), pyNone{}, pyNone{}, pyNone{}, pyLong(-1), pyLong(-1), pyLong(0))
									return s, dt
								}
								b := dumpPickle(po, func(p *pickler) interface{} {
									s, dt := mk(p)
									a := s.array(sh, dt, s.raw(data))
									a.state.(*pyTuple).v[3] = pyBool(fortran == 1)
									return a
								})
								c.SetModel(b)
								v, err := decode(b)
								if err != nil {
									c.Failf("%v", err)
								}
								arr := pickle.NumpyArrayRaw{}
								err = pickle.ParseClass(&arr, v)
								c.States(1)
								c.Trans(1)
								c.Traces(1)
								if fortran == 1 {
									if err == nil {
										c.Failf("an array in Fortran order is accepted")
									}
									continue
								}
								if err != nil {
									c.Failf("%v", err)
								}
								if arr.Type.Type != ty || arr.Type.LittleEndinan != (en == "<") || fmt.Sprint(arr.Shape) != fmt.Sprint(sh) || !bytes.Equal(arr.Data, data) || len(arr.DataList) != 0 {
									c.Failf("array %s%s %v of %x is read as %#v", en, ty, sh, data, arr)
								}
								var got []byte
								k := 0
								if err := arr.Data.Iterate(size, func(e []byte) error {
									if len(e) != size {
										c.Failf("an element of %d bytes, want %d", len(e), size)
									}
									k++
									got = append(got, e...)
									return nil
								}); err != nil || k != n || !bytes.Equal(got, data) {
									c.Failf("iterating gives %d elements %x of %d elements %x: %v", k, got, n, data, err)
								}
								if n == 1 {
									b = dumpPickle(po, func(p *pickler) interface{} {
										s, dt := mk(p)
										return s.scalar(dt, data)
									})
									v, err := decode(b)
									if err != nil {
										c.Failf("%v", err)
									}
									sc := pickle.NumpyScalarRaw{}
									if err := pickle.ParseClass(&sc, v); err != nil || sc.Type.Type != ty || sc.Type.LittleEndinan != (en == "<") || !bytes.Equal(sc.Data, data) {
										c.Failf("scalar %s%s of %x is read as %#v, %v", en, ty, data, sc, err)
									}
								}
							}
						}
					}
				})
			}
		}
	}
	x.Case(func() string { return "element iteration of incomplete data" }, func(c *C) {
		for n := 0; n < 40; n++ {
			for size := 1; size < 12; size++ {
				raw := pickle.NumpyRawBytes(make([]byte, n))
				k := 0
				err := raw.Iterate(size, func([]byte) error { k++; return nil })
				if (err != nil) != (n%size != 0) || err == nil && k != n/size {
					c.Failf("%d bytes in elements of %d: %d elements, %v", n, size, k, err)
				}
				if n%size == 0 {
					for stop := 0; stop < n/size; stop++ {
						k = 0
						err := raw.Iterate(size, func([]byte) error {
							k++
							if k == stop+1 {
								return fmt.Errorf("stop")
							}
							return nil
						})
						if err == nil || k != stop+1 {
							c.Failf("an error of the callback is dropped")
						}
					}
				}
				c.States(1)
				c.Traces(1)
			}
		}
	})
	x.Case(func() string { return "object arrays" }, func(c *C) {
		for n := 0; n < 20; n++ {
			b := dumpPickle(PickleOpt{}, func(p *pickler) interface{} {
				s := &skb{p: p, dts: map[string]*pyReduce{}}
				l := &pyList{}
				for i := 0; i < n; i++ {
					l.v = append(l.v, pyLong(i*3))
				}
				return s.array([]int{n}, s.dtype("O8", false), l)
			})
			v, err := decode(b)
			if err != nil {
				c.Failf("%v", err)
			}
			arr := pickle.NumpyArrayRaw{}
			if err := pickle.ParseClass(&arr, v); err != nil || len(arr.DataList) != n || arr.Type.Type != "O8" {
				c.Failf("object array of %d: %v, %#v", n, err, arr)
			}
			for i := range arr.DataList {
				if arr.DataList[i] != i*3 {
					c.Failf("object array: element %d is %v", i, arr.DataList[i])
				}
			}
			c.States(1)
			c.Traces(1)
		}
	})
	x.Case(func() string { return "doubles and tree nodes from bytes" }, func(c *C) {
		vals := []float64{0, 1, -1, 0.1, 5e-324, math.MaxFloat64, math.Inf(1), math.Inf(-1), math.Pi, math.Copysign(0, -1), 1e-300}
		for _, v := range vals {
			var le, be [8]byte
			binary.LittleEndian.PutUint64(le[:], math.Float64bits(v))
			binary.BigEndian.PutUint64(be[:], math.Float64bits(v))
			if a, b := util.Float64FromBytes(le[:], true), util.Float64FromBytes(be[:], false); math.Float64bits(a) != math.Float64bits(v) || math.Float64bits(b) != math.Float64bits(v) {
				c.Failf("%v is read as %v (little endian), %v (big endian)", v, a, b)
			}
		}
		ints := []int{0, 1, -1, -2, 5, 1 << 31, 1<<40 + 3, -1 << 40}
		for i := range ints {
			for j := range vals {
				at := func(k int) int { return ints[(i+k)%len(ints)] }
				av := func(k int) float64 { return vals[(j+k)%len(vals)] }
				var b []byte
				b = append(b, i64s(at(0), at(1), at(2))...)
				b = append(b, f64s(false, av(0), av(1))...)
				b = append(b, i64s(at(3))...)
				b = append(b, f64s(false, av(2))...)
				n := pickle.SklearnNodeFromBytes(b)
				if n.LeftChild != at(0) || n.RightChild != at(1) || n.Feature != at(2) || n.Threshold != av(0) || n.Impurity != av(1) || n.NNodeSamples != at(3) || n.WeightedNNodeSamples != av(2) {
					c.Failf("node of %x is read as %#v", b, n)
				}
				c.States(1)
				c.Traces(1)
			}
		}
	})
}

func init() {
	directPickle = func(x *X) {
		runPrograms(x)
		runStrings(x)
		runNumpy(x)
	}
}
