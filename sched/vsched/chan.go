package vsched

import "unsafe"

// Chan stands for chan T
type Chan[T any] struct {
	c   chanCore
	buf []T
}

// NewChan stands for make(chan T, n)
//
//go:norace
func NewChan[T any](n int) *Chan[T] {
	if n < 0 {
		panic("makechan: size out of range")
	}
	c := &Chan[T]{}
	c.c.cap = n
	c.c.slots = make([][8]byte, n)
	c.buf = make([]T, n)
	if active && cur != nil {
		cur.nchild++
		c.c.hash = mix(cur.id, cur.nchild)
	}
	return c
}

//go:norace
func (c *Chan[T]) core() *chanCore {
	if c == nil {
		return nil
	}
	return &c.c
}

// Send stands for c <- v
//
//go:norace
func (c *Chan[T]) Send(v T) {
	if aborting {
		return
	}
	me := begin(opSend)
	if me == nil {
		// outside of a run: only into a free buffer
		if c == nil || c.c.n >= c.c.cap {
			panic("vsched: send blocks outside of a run")
		}
		c.buf[(c.c.head+c.c.n)%c.c.cap] = v
		c.c.n++
		return
	}
	p := new(T)
	*p = v
	me.ch = c.core()
	me.ptr = unsafe.Pointer(p)
	block(me)
	if me.res == -2 {
		panic("send on closed channel")
	}
	if me.res >= 0 {
		c.buf[me.res] = v
	}
}

// Recv2 stands for v, ok := <-c
//
//go:norace
func (c *Chan[T]) Recv2() (v T, ok bool) {
	if aborting {
		return
	}
	me := begin(opRecv)
	if me == nil {
		if c != nil && c.c.n > 0 {
			v = c.buf[c.c.head]
			c.c.head = (c.c.head + 1) % c.c.cap
			c.c.n--
			return v, true
		}
		if c != nil && c.c.closed {
			return
		}
		panic("vsched: receive blocks outside of a run")
	}
	me.ch = c.core()
	block(me)
	return c.value(me, me.res)
}

//go:norace
func (c *Chan[T]) value(me *g, slot int) (v T, ok bool) {
	if me.src != nil {
		return *(*T)(me.src), true
	}
	if me.okRecv {
		var zero T
		v = c.buf[slot]
		c.buf[slot] = zero
		return v, true
	}
	return
}

// Recv stands for <-c
//
//go:norace
func (c *Chan[T]) Recv() T {
	v, _ := c.Recv2()
	return v
}

// Range stands for the start of for v := range c
func Range[T any](c *Chan[T]) (*Chan[T], T, bool) {
	v, ok := c.Recv2()
	return c, v, ok
}

// Close stands for close(c)
//
//go:norace
func (c *Chan[T]) Close() {
	if aborting {
		return
	}
	if c == nil {
		panic("close of nil channel")
	}
	me := begin(opClose)
	if me == nil {
		if c.c.closed {
			panic("close of closed channel")
		}
		c.c.closed = true
		return
	}
	me.ch = c.core()
	block(me)
	if me.res == -2 {
		panic("close of closed channel")
	}
}

// Len stands for len(c)
//
//go:norace
func (c *Chan[T]) Len() int {
	Yield()
	if c == nil {
		return 0
	}
	note(c.c.n)
	return c.c.n
}

// Cap stands for cap(c)
//
//go:norace
func (c *Chan[T]) Cap() int {
	if c == nil {
		return 0
	}
	return c.c.cap
}

// Case is a case of a select statement
type Case interface {
	fill(s *selCase)
	after(me *g, slot int)
}

// SendCase is case c <- v
type SendCase[T any] struct {
	c *Chan[T]
	v T
}

// RecvCase is case <-c
type RecvCase[T any] struct {
	c  *Chan[T]
	v  T
	ok bool
}

// NewSendCase makes a case
//
//go:norace
func NewSendCase[T any](c *Chan[T], v T) *SendCase[T] { return &SendCase[T]{c: c, v: v} }

// NewRecvCase makes a case
//
//go:norace
func NewRecvCase[T any](c *Chan[T]) *RecvCase[T] { return &RecvCase[T]{c: c} }

//go:norace
func (s *SendCase[T]) fill(x *selCase) { x.ch, x.send, x.ptr = s.c.core(), true, unsafe.Pointer(&s.v) }

//go:norace
func (s *SendCase[T]) after(me *g, slot int) {
	if slot == -2 {
		panic("send on closed channel")
	}
	if slot >= 0 {
		s.c.buf[slot] = s.v
	}
}

//go:norace
func (s *RecvCase[T]) fill(x *selCase) { x.ch, x.send, x.ptr = s.c.core(), false, nil }

//go:norace
func (s *RecvCase[T]) after(me *g, slot int) { s.v, s.ok = s.c.value(me, slot) }

// Val is the received value
//
//go:norace
func (s *RecvCase[T]) Val() T { return s.v }

// Val2 is the received value and whether the channel was open
//
//go:norace
func (s *RecvCase[T]) Val2() (T, bool) { return s.v, s.ok }

// Select stands for a select statement and gives the number of the chosen case, -1 for default
//
//go:norace
func Select(dflt bool, cases ...Case) int {
	if aborting {
		return -1
	}
	me := begin(opSelect)
	if me == nil {
		if dflt {
			return -1
		}
		panic("vsched: select outside of a run")
	}
	if len(cases) > maxCases {
		panic("vsched: too many cases")
	}
	me.ncases = len(cases)
	me.dflt = dflt
	me.okRecv = false
	me.arg = -1
	for i := range cases {
		cases[i].fill(&me.cases[i])
	}
	block(me)
	k := me.res
	if k >= 0 {
		cases[k].after(me, me.arg)
	}
	return k
}
