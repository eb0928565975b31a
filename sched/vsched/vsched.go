// Package vsched is a controlled scheduler: goroutines, channels and locks of rewritten sources run one at a time, in
// the order an explorer decides. Its own hand-offs are hidden from the race detector, which therefore sees exactly the
// happens-before edges of the emulated operations.
//
// No function here may use maps, append or other runtime helpers that the race detector instruments on shared data.
package vsched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"unsafe"
)

type opKind int

const (
	opStart opKind = iota
	opSend
	opRecv
	opClose
	opSelect
	opLock
	opUnlock
	opRLock
	opRUnlock
	opWGAdd
	opWGWait
	opOnceEnter
	opOnceExit
	opAtomic
	opPoolGet
	opPoolPut
	opCondWait
	opCondSignal
	opYield
)

var opName = [...]string{"start", "send", "recv", "close", "select", "Lock", "Unlock", "RLock", "RUnlock", "WaitGroup.Add", "WaitGroup.Wait", "Once.Do", "Once.Do end",
	"atomic", "Pool.Get", "Pool.Put", "Cond.Wait", "Cond.Signal", "yield"}

const maxG = 512
const maxCases = 16

type selCase struct {
	ch   *chanCore
	send bool
	ptr  unsafe.Pointer
}

// g is a goroutine under control
type g struct {
	id     uint64 // canonical: hash of the parent and the number of the child
	idx    int
	nchild uint64
	last   uint64 // hash of the last event: its causal past
	before uint64 // last before it became a waiting writer
	wake   chan struct{}
	pre    [2][8]byte // released when parking, alternately: a peer of a rendezvous acquires only what led to it
	par    int
	done   bool

	op      opKind
	obj     *Obj
	ch      *chanCore
	ptr     unsafe.Pointer // value to send
	arg     int
	cases   [maxCases]selCase
	ncases  int
	dflt    bool
	res     int            // outcome of the operation
	src     unsafe.Pointer // value received
	okRecv  bool
	acq     [4]unsafe.Pointer
	nacq    int
	rel     [4]unsafe.Pointer
	nrel    int
	relOver bool
	name    string
}

// Obj is the state of a lock, wait group, once, atomic or pool
type Obj struct {
	hash   uint64 // chain of events, or commutative sum
	rhash  uint64 // sum of what readers did since
	s, r   [8]byte
	writer bool
	rd     int
	n      int
	state  int // once: 0 new, 1 running, 2 done
	pend   *g  // writer that waits for the readers to go: no new ones come in (as in sync.RWMutex)
	epoch  int
}

type chanCore struct {
	hash   uint64
	cap    int
	n      int // elements in the buffer
	head   int
	closed bool
	closeS [8]byte
	slots  [][8]byte
}

var (
	gs       [maxG]*g
	ng       int
	cur      *g
	active   bool
	aborting bool
	ctrl     chan struct{}
	panicked string
	endS     [8]byte
	abortS   [8]byte
	epoch    int
	procs    = 4
	overflow bool
	steps    int
	trace    [4096]traceStep
	ntrace   int
)

type traceStep struct {
	g, peer int
	op      opKind
	res     int
}

// SetProcs sets what GOMAXPROCS and NumCPU report
func SetProcs(n int) { procs = n }

// Procs is the emulated number of processors
//
//go:norace
func Procs() int { return procs }

// Active tells whether a run is going on
//
//go:norace
func Active() bool { return active }

// Epoch numbers the runs
//
//go:norace
func Epoch() int { return epoch }

//go:norace
func mix(a, b uint64) uint64 {
	x := a*0x9e3779b97f4a7c15 + b
	x ^= x >> 29
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 32
	x *= 0x94d049bb133111eb
	x ^= x >> 29
	return x
}

// block parks the current goroutine at its operation until the controller performs it
//
//go:norace
func block(me *g) {
	me.nacq, me.nrel, me.relOver = 0, 0, false
	me.par ^= 1
	raceRelease(unsafe.Pointer(&me.pre[me.par]))
	raceDisable()
	ctrl <- struct{}{}
	<-me.wake
	raceEnable()
	if aborting {
		raceAcquire(unsafe.Pointer(&abortS))
		runtime.Goexit()
	}
	for i := 0; i < me.nacq; i++ {
		raceAcquire(me.acq[i])
	}
	for i := 0; i < me.nrel; i++ {
		if me.relOver {
			raceRelease(me.rel[i])
		} else {
			raceReleaseMerge(me.rel[i])
		}
	}
}

//go:norace
func (me *g) acquire(p unsafe.Pointer) { me.acq[me.nacq] = p; me.nacq++ }

//go:norace
func (me *g) release(p unsafe.Pointer) { me.rel[me.nrel] = p; me.nrel++ }

// begin prepares an operation of the current goroutine; nil: there is no run, the operation is done at once
//
//go:norace
func begin(op opKind) *g {
	if !active || cur == nil {
		return nil
	}
	cur.op = op
	cur.obj, cur.ch, cur.ptr, cur.src, cur.ncases, cur.arg = nil, nil, nil, nil, 0, 0
	return cur
}

// Go starts a goroutine
//
//go:norace
func Go(f func()) {
	if !active {
		go f()
		return
	}
	if aborting {
		return
	}
	parent := cur
	if ng >= maxG {
		overflow = true
		panic("vsched: too many goroutines")
	}
	parent.nchild++
	c := &g{id: mix(parent.id, parent.nchild), idx: ng, wake: make(chan struct{}, 1), op: opStart}
	c.last = mix(c.id, parent.last)
	gs[ng] = c
	ng++
	spawn(c, f)
}

//go:norace
func spawn(c *g, f func()) {
	go body(c, f)
}

//go:norace
func body(c *g, f func()) {
	raceDisable()
	<-c.wake
	raceEnable()
	defer finish(c)
	if aborting {
		raceAcquire(unsafe.Pointer(&abortS))
		return
	}
	f()
}

//go:norace
func finish(c *g) {
	if r := recover(); r != nil && !aborting && panicked == "" {
		panicked = fmt.Sprintf("goroutine %d: %v\n%s", c.idx, r, debug.Stack())
	}
	c.done = true
	raceReleaseMerge(unsafe.Pointer(&endS))
	if aborting {
		raceReleaseMerge(unsafe.Pointer(&abortS))
	}
	raceDisable()
	ctrl <- struct{}{}
	raceEnable()
}

// resume lets a goroutine run to its next operation
//
//go:norace
func resume(c *g) {
	cur = c
	raceDisable()
	c.wake <- struct{}{}
	<-ctrl
	raceEnable()
	cur = nil
}

// transition is an enabled step: goroutine a (with peer b for rendezvous), case or variant v
type transition struct {
	a, b *g
	v    int
	w    int // case of the peer's select
}

var trans [1 << 14]transition
var ntrans int

// goroutines of the last step
var last1, last2 *g

// Strict makes the choice of the next goroutine cost a deviation even if the last one cannot go on
var Strict bool

// Cost is the number of deviations enabled step k means: a switch away from a goroutine that could go on, and any
// variant of a step but its usual one (the first ready case or peer, a used object of a pool)
//
//go:norace
func Cost(k int) int {
	t := &trans[k]
	cost := 0
	first := k
	goesOn, its := false, false
	for i := 0; i < ntrans; i++ {
		u := &trans[i]
		if u.a == t.a && i < first {
			first = i
		}
		if u.a == last1 || u.a == last2 || (u.b != nil && (u.b == last1 || u.b == last2)) {
			goesOn = true
			if i == k {
				its = true
			}
		}
	}
	if t.a.op == opPoolGet && t.a.obj.n > 0 {
		if t.v == 0 {
			cost++
		}
	} else if first != k {
		cost++
	}
	if goesOn && !its || !goesOn && Strict && k > 0 {
		cost++
	}
	return cost
}

// LastKey tells the goroutines of the last step apart
//
//go:norace
func LastKey() uint64 {
	k := uint64(0)
	if last1 != nil {
		k = last1.id
	}
	if last2 != nil {
		k += last2.id
	}
	return k
}

//go:norace
func addTrans(a, b *g, v, w int) {
	if ntrans < len(trans) {
		trans[ntrans] = transition{a, b, v, w}
		ntrans++
	} else {
		overflow = true
	}
}

// receivers of a rendezvous on ch, other than a
//
//go:norace
func addReceivers(a *g, ch *chanCore, v int) {
	for i := 0; i < ng; i++ {
		b := gs[i]
		if b == a || b.done {
			continue
		}
		if b.op == opRecv && b.ch == ch {
			addTrans(a, b, v, 0)
		}
		if b.op == opSelect {
			for k := 0; k < b.ncases; k++ {
				if b.cases[k].ch == ch && !b.cases[k].send {
					addTrans(a, b, v, k)
				}
			}
		}
	}
}

//go:norace
func hasSender(a *g, ch *chanCore) bool {
	for i := 0; i < ng; i++ {
		b := gs[i]
		if b == a || b.done {
			continue
		}
		if b.op == opSend && b.ch == ch {
			return true
		}
		if b.op == opSelect {
			for k := 0; k < b.ncases; k++ {
				if b.cases[k].ch == ch && b.cases[k].send {
					return true
				}
			}
		}
	}
	return false
}

// alone keeps only the last enabled step: nothing that others can do before it depends on it, so it may come first
//
//go:norace
func alone() {
	trans[0] = trans[ntrans-1]
	ntrans = 1
}

//go:norace
func enabled() {
	ntrans = 0
	for i := 0; i < ng; i++ {
		a := gs[i]
		if a.done {
			continue
		}
		switch a.op {
		case opClose, opUnlock, opRUnlock, opOnceExit, opAtomic, opPoolPut, opCondSignal, opYield:
			addTrans(a, nil, 0, 0)
		case opStart:
			addTrans(a, nil, 0, 0)
			alone()
			return
		case opWGAdd:
			addTrans(a, nil, 0, 0)
			if a.arg < 0 && a.obj.n+a.arg >= 0 { // no Wait can come before it, and other Adds commute
				alone()
				return
			}
		case opSend:
			if a.ch == nil {
				break
			}
			if a.ch.closed || a.ch.n < a.ch.cap {
				addTrans(a, nil, 0, 0)
			} else if a.ch.cap == 0 {
				addReceivers(a, a.ch, 0)
			}
		case opRecv:
			if a.ch != nil && (a.ch.n > 0 || a.ch.closed) {
				addTrans(a, nil, 0, 0)
				if a.ch.closed && a.ch.n == 0 { // it stays closed and empty
					alone()
					return
				}
			}
		case opSelect:
			before := ntrans
			ready := false
			for k := 0; k < a.ncases; k++ {
				cs := &a.cases[k]
				if cs.ch == nil {
					continue
				}
				if cs.send {
					if cs.ch.closed || cs.ch.n < cs.ch.cap {
						addTrans(a, nil, k, 0)
					} else if cs.ch.cap == 0 {
						addReceivers(a, cs.ch, k)
					}
				} else if cs.ch.n > 0 || cs.ch.closed {
					addTrans(a, nil, k, 0)
				} else if cs.ch.cap == 0 && hasSender(a, cs.ch) {
					ready = true // the step belongs to the sender
				}
			}
			if a.dflt && ntrans == before && !ready {
				addTrans(a, nil, -1, 0)
			} else if a.dflt && ready {
				// a peer that has not arrived yet in the runtime's view: the default may still be taken
				addTrans(a, nil, -1, 0)
			}
		case opLock:
			if !a.obj.writer && a.obj.rd == 0 && (a.obj.pend == nil || a.obj.pend == a) {
				addTrans(a, nil, 0, 0)
			} else if a.arg == 1 { // TryLock
				addTrans(a, nil, -1, 0)
			} else if a.obj.rd > 0 && a.obj.pend == nil {
				addTrans(a, nil, 1, 0)
			}
		case opRLock:
			if !a.obj.writer && a.obj.pend == nil {
				addTrans(a, nil, 0, 0)
			} else if a.arg == 1 {
				addTrans(a, nil, -1, 0)
			}
		case opWGWait:
			if a.obj.n == 0 {
				addTrans(a, nil, 0, 0)
			}
		case opOnceEnter:
			if a.obj.state != 1 {
				addTrans(a, nil, 0, 0)
			}
		case opPoolGet:
			addTrans(a, nil, 0, 0) // a new object
			if a.obj.n > 0 {
				addTrans(a, nil, 1, 0) // a used one
			}
		case opCondWait:
			if a.obj.rd == 1 { // signalled
				addTrans(a, nil, 0, 0)
			}
		}
	}
}

//go:norace
func chanSend(a *g, ch *chanCore) {
	if ch.closed {
		a.res = -2
		return
	}
	slot := (ch.head + ch.n) % ch.cap
	a.res = slot
	ch.n++
	p := unsafe.Pointer(&ch.slots[slot])
	a.acquire(p)
	a.release(p)
	ch.hash = mix(ch.hash, a.last)
	a.last = mix(a.last, ch.hash)
}

//go:norace
func chanRecv(a *g, ch *chanCore) {
	if ch.n > 0 {
		slot := ch.head
		a.res = slot
		a.okRecv = true
		ch.head = (ch.head + 1) % ch.cap
		ch.n--
		p := unsafe.Pointer(&ch.slots[slot])
		a.acquire(p)
		a.release(p)
		ch.hash = mix(ch.hash, a.last)
		a.last = mix(a.last, ch.hash)
		return
	}
	a.res = -1
	a.okRecv = false
	a.acquire(unsafe.Pointer(&ch.closeS))
	a.last = mix(a.last, ch.hash+1)
}

// perform executes a transition and lets the goroutines run to their next operations
//
//go:norace
func perform(t transition) {
	a := t.a
	last1, last2 = t.a, t.b
	if a.op == opStart {
		last1 = nil
	}
	if ntrace < len(trace) {
		p := -1
		if t.b != nil {
			p = t.b.idx
		}
		trace[ntrace] = traceStep{a.idx, p, a.op, t.v}
		ntrace++
	}
	o := a.obj
	if a.op == opLock && t.v == 1 { // from now on it keeps readers out
		o.pend, a.before = a, a.last
		a.last = mix(a.last, 83)
		return
	}
	if a.op == opLock && o.pend == a {
		o.pend, a.last = nil, a.before
	}
	a.last = mix(a.last, uint64(a.op)*8+uint64(t.v)+3)
	if t.b != nil { // rendezvous: a sends to b
		b := t.b
		ptr := a.ptr
		if a.op == opSelect {
			ptr = a.cases[t.v].ptr
		}
		la := a.last
		a.last = mix(mix(la, 1), b.last)
		b.last = mix(mix(b.last, uint64(t.w)+2), la)
		a.res, b.res = t.v, t.w
		if a.op == opSend {
			a.res = -1
		}
		b.src, b.okRecv = ptr, true
		b.acquire(unsafe.Pointer(&a.pre[a.par]))
		a.acquire(unsafe.Pointer(&b.pre[b.par]))
		resume(b)
		resume(a)
		return
	}
	switch a.op {
	case opSend:
		chanSend(a, a.ch)
	case opRecv:
		chanRecv(a, a.ch)
	case opSelect:
		a.res = t.v
		if t.v >= 0 {
			cs := &a.cases[t.v]
			if cs.send {
				chanSend(a, cs.ch)
			} else {
				chanRecv(a, cs.ch)
			}
			a.arg, a.res = a.res, t.v
		}
	case opClose:
		if a.ch.closed {
			a.res = -2
		} else {
			a.res = 0
			a.ch.closed = true
			a.ch.hash = mix(a.ch.hash, a.last)
			a.release(unsafe.Pointer(&a.ch.closeS))
		}
	case opLock:
		a.res = t.v
		o.hash = mix(o.hash, o.rhash)
		o.rhash = 0
		if t.v == 0 {
			o.writer = true
			a.acquire(unsafe.Pointer(&o.s))
			a.acquire(unsafe.Pointer(&o.r))
		}
		chain(a, o)
	case opUnlock:
		a.res = 0
		if !o.writer {
			a.res = -2
		}
		o.writer = false
		a.release(unsafe.Pointer(&o.s))
		chain(a, o)
	case opRLock:
		a.res = t.v
		if t.v == 0 {
			o.rd++
			a.acquire(unsafe.Pointer(&o.s))
			a.last = mix(a.last, o.hash) // readers commute
			break
		}
		chain(a, o)
	case opRUnlock:
		a.res = 0
		if o.rd <= 0 {
			a.res = -2
		}
		o.rd--
		a.release(unsafe.Pointer(&o.r))
		o.rhash += mix(a.last, 79)
	case opWGAdd:
		o.n += a.arg
		a.res = 0
		if o.n < 0 {
			a.res = -2
		}
		if a.arg < 0 {
			a.release(unsafe.Pointer(&o.s))
		}
		o.hash += mix(a.last, 77)
	case opWGWait:
		a.acquire(unsafe.Pointer(&o.s))
		a.last = mix(a.last, o.hash)
	case opOnceEnter:
		a.res = o.state
		if o.state == 0 {
			o.state = 1
			chain(a, o)
		} else {
			a.acquire(unsafe.Pointer(&o.s))
			a.last = mix(a.last, o.hash)
		}
	case opOnceExit:
		o.state = 2
		a.release(unsafe.Pointer(&o.s))
		chain(a, o)
	case opAtomic:
		// 0 load, 1 store, 2 read-modify-write
		if a.arg != 1 {
			a.acquire(unsafe.Pointer(&o.s))
		}
		if a.arg != 0 {
			a.release(unsafe.Pointer(&o.s))
			a.relOver = true
			chain(a, o)
		} else {
			a.last = mix(a.last, o.hash) // loads commute
		}
	case opPoolGet:
		a.res = t.v
		if t.v == 1 {
			a.acquire(unsafe.Pointer(&o.s))
			o.n--
		}
		chain(a, o)
	case opPoolPut:
		o.n++
		a.release(unsafe.Pointer(&o.s))
		chain(a, o)
	case opCondWait:
		a.acquire(unsafe.Pointer(&o.s))
		chain(a, o)
	case opCondSignal:
		a.release(unsafe.Pointer(&o.s))
		chain(a, o)
	}
	resume(a)
}

//go:norace
func chain(a *g, o *Obj) {
	o.hash = mix(o.hash, a.last)
	a.last = mix(a.last, o.hash)
}

//go:norace
func stateKey() uint64 {
	k := uint64(ng)
	for i := 0; i < ng; i++ {
		c := gs[i]
		x := mix(c.id, c.last)
		if c.done {
			x = mix(x, 5)
		}
		k += x
	}
	return k
}

// Unfinished tells which other goroutines have work left: those that have not started, those that have not told their
// wait group yet and those that wait for more from a closed channel
//
//go:norace
func Unfinished() string {
	r := ""
	if !active || aborting {
		return r
	}
	for i := 1; i < ng; i++ {
		c := gs[i]
		if c.done || c == cur {
			continue
		}
		if c.op == opStart || c.op == opWGAdd || c.op == opRecv && c.ch != nil && c.ch.closed {
			r += fmt.Sprintf("goroutine %d at %s; ", i, opName[c.op])
		}
	}
	return r
}

// Result of a run
type Result struct {
	Steps     int
	Deadlock  bool // the root cannot go on
	Leak      int  // goroutines that never end although the root has
	Panic     string
	Aborted   bool // by the explorer
	Overflow  bool // out of the bounds of the scheduler
	Blocked   string
	RootAlive bool
}

const maxSteps = 20000

// Run executes root under control. choose gets the number of enabled steps and the key of the state and answers the
// step to take, or -1 to end the run
//
//go:norace
func Run(root func(), choose func(n int, key uint64) int) Result {
	var r Result
	ctrl = make(chan struct{}, 1)
	for i := range gs {
		gs[i] = nil
	}
	ng, ntrace = 0, 0
	panicked, aborting, overflow = "", false, false
	epoch++
	last1, last2 = nil, nil
	m := &g{id: 1, idx: 0, wake: make(chan struct{}, 1), op: opStart, last: 1}
	gs[0] = m
	ng = 1
	active = true
	spawn(m, root)
	for {
		if panicked != "" || overflow {
			break
		}
		alive := 0
		for i := 0; i < ng; i++ {
			if !gs[i].done {
				alive++
			}
		}
		if alive == 0 {
			break
		}
		enabled()
		if ntrans == 0 {
			if !m.done {
				r.Deadlock = true
			}
			r.Leak = alive
			break
		}
		r.Steps++
		if r.Steps > maxSteps {
			overflow = true
			break
		}
		k := choose(ntrans, stateKey())
		if k < 0 {
			r.Aborted = true
			break
		}
		if k >= ntrans {
			k = 0
		}
		perform(trans[k])
	}
	r.RootAlive = !m.done
	r.Panic = panicked
	r.Overflow = overflow
	if r.Deadlock || r.Leak > 0 {
		for i := 0; i < ng; i++ {
			if !gs[i].done {
				r.Blocked += fmt.Sprintf("goroutine %d at %s; ", i, opName[gs[i].op])
			}
		}
	}
	// end what is left
	aborting = true
	for i := 0; i < ng; i++ {
		for !gs[i].done {
			resume(gs[i])
		}
	}
	active = false
	aborting = false
	cur = nil
	raceAcquire(unsafe.Pointer(&endS))
	return r
}

// Schedule describes the steps of the last run
func Schedule() string {
	s := ""
	for i := 0; i < ntrace; i++ {
		t := trace[i]
		s += fmt.Sprintf("%d:%s", t.g, opName[t.op])
		if t.peer >= 0 {
			s += fmt.Sprintf("->%d", t.peer)
		}
		s += " "
		if len(s) > 1500 {
			return s + "..."
		}
	}
	return s
}

// ---- operations -----------------------------------------------------------------------------------------------------

// Yield lets others run
//
//go:norace
func Yield() {
	if g := begin(opYield); g != nil {
		block(g)
	}
}

// note adds an observation that is not part of the steps to the history of the current goroutine
//
//go:norace
func note(x int) {
	if active && cur != nil {
		cur.last = mix(cur.last, uint64(x)+11)
	}
}

// Sleep stands for time.Sleep
func Sleep(d interface{}) { Yield() }

// objOp performs an operation on an object; without a run it is done directly
//
//go:norace
func objOp(op opKind, o *Obj, arg int) int {
	if aborting {
		return 0
	}
	me := begin(op)
	if me == nil {
		return direct(op, o, arg)
	}
	me.obj, me.arg = o, arg
	block(me)
	return me.res
}

// direct performs an operation outside of a run, where nothing is concurrent
//
//go:norace
func direct(op opKind, o *Obj, arg int) int {
	blocked := false
	switch op {
	case opLock:
		blocked = o.writer || o.rd > 0
		if blocked && arg == 1 {
			return -1
		}
		o.writer = true
	case opUnlock:
		if !o.writer {
			return -2
		}
		o.writer = false
	case opRLock:
		blocked = o.writer
		if blocked && arg == 1 {
			return -1
		}
		o.rd++
	case opRUnlock:
		if o.rd <= 0 {
			return -2
		}
		o.rd--
	case opWGAdd:
		o.n += arg
		if o.n < 0 {
			return -2
		}
	case opWGWait:
		blocked = o.n > 0
	case opOnceEnter:
		blocked = o.state == 1
		s := o.state
		if s == 0 {
			o.state = 1
		}
		if !blocked {
			return s
		}
	case opOnceExit:
		o.state = 2
	case opPoolGet:
		if o.n > 0 {
			o.n--
			return 1
		}
		return 0
	case opPoolPut:
		o.n++
	}
	if blocked {
		panic("vsched: " + opName[op] + " blocks outside of a run")
	}
	return 0
}

//go:norace
func fresh(o *Obj) {
	// objects that outlive a run lose what an ended run left in them
	if o.epoch != epoch {
		o.epoch = epoch
		o.hash, o.rhash = 0, 0
		o.writer, o.rd, o.n, o.pend = false, 0, 0, nil
		if o.state == 1 {
			o.state = 0
		}
	}
}

// Lock etc. are the operations behind package vsync
func (o *Obj) Lock() { fresh(o); objOp(opLock, o, 0) }
func (o *Obj) TryLock() bool {
	fresh(o)
	return objOp(opLock, o, 1) == 0
}
func (o *Obj) Unlock() {
	if objOp(opUnlock, o, 0) == -2 {
		panic("sync: unlock of unlocked mutex")
	}
}
func (o *Obj) RLock() { fresh(o); objOp(opRLock, o, 0) }
func (o *Obj) TryRLock() bool {
	fresh(o)
	return objOp(opRLock, o, 1) == 0
}
func (o *Obj) RUnlock() {
	if objOp(opRUnlock, o, 0) == -2 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
}
func (o *Obj) Add(n int) {
	fresh(o)
	if objOp(opWGAdd, o, n) == -2 {
		panic("sync: negative WaitGroup counter")
	}
}
func (o *Obj) Wait() { fresh(o); objOp(opWGWait, o, 0) }

// OnceDo is sync.Once.Do
func (o *Obj) OnceDo(f func()) {
	fresh(o)
	if aborting {
		return
	}
	if objOp(opOnceEnter, o, 0) == 0 {
		defer objOp(opOnceExit, o, 0)
		f()
	}
}

// Atomic is the scheduling point and the ordering of an atomic operation; kind 0 load, 1 store, 2 both
func (o *Obj) Atomic(kind int) { fresh(o); objOp(opAtomic, o, kind) }

// PoolGet tells whether a used object is to be taken
func (o *Obj) PoolGet() bool { return objOp(opPoolGet, o, 0) == 1 }

// PoolPut notes a returned object
func (o *Obj) PoolPut() { objOp(opPoolPut, o, 0) }

// NewRun tells whether the object has not been used in this run; state of pools starts afresh then
//
//go:norace
func (o *Obj) NewRun() bool {
	if o.epoch != epoch {
		o.epoch = epoch
		o.hash, o.n = 0, 0
		return true
	}
	return false
}

// CondWait waits until the ticket is signalled
func CondWait(ticket *Obj) { objOp(opCondWait, ticket, 0) }

// CondSignal signals tickets
//
//go:norace
func CondSignal(ticket *Obj) {
	objOp(opCondSignal, ticket, 0)
	ticket.rd = 1
}

// atomic operations on plain variables share objects by address
var (
	atomAddr  [256]uintptr
	atomObj   [256]*Obj
	natom     int
	atomEpoch int
)

// AtomicAt is the object of the variable at an address
//
//go:norace
func AtomicAt(p unsafe.Pointer) *Obj {
	if atomEpoch != epoch {
		atomEpoch, natom = epoch, 0
	}
	a := uintptr(p)
	for i := 0; i < natom; i++ {
		if atomAddr[i] == a {
			return atomObj[i]
		}
	}
	o := &Obj{}
	if natom < len(atomAddr) {
		atomAddr[natom], atomObj[natom] = a, o
		natom++
	}
	return o
}
