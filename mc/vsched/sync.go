package vsched

// ---------------------------------------------------------------- channels

type waiter struct {
	t      *thread
	val    interface{}
	ok     bool
	closed bool // woken by close
	done   bool
	sel    *waiter // the select this case belongs to (itself otherwise)
	k      int     // case number
	taken  int     // case chosen (on sel)
	hb     byte
	back   byte
}

func (w *waiter) free() bool { return !w.sel.done }

func (w *waiter) finish() {
	w.sel.done = true
	w.sel.taken = w.k
	w.t.run = true
}

type item struct {
	val interface{}
	hb  *byte
}

type core struct {
	cap    int
	buf    []item
	slots  []byte
	sent   int
	closed bool
	hb     byte
	recvq  []*waiter
	sendq  []*waiter
}

func first(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.free() {
			return w
		}
	}
	return nil
}

// ready tells whether an operation would complete now.
func (c *core) ready(send bool) bool {
	if c == nil {
		return false
	}
	if send {
		return c.closed || len(c.buf) < c.cap || anyFree(c.recvq)
	}
	return len(c.buf) > 0 || c.closed || anyFree(c.sendq)
}

func anyFree(q []*waiter) bool {
	for _, w := range q {
		if w.free() {
			return true
		}
	}
	return false
}

func (c *core) push(v interface{}) {
	slot := &c.slots[c.sent%c.cap]
	c.sent++
	acquire(slot)
	release(slot)
	c.buf = append(c.buf, item{v, slot})
}

// trySend completes a send that is ready.
func (c *core) trySend(v interface{}) {
	if c.closed {
		panic("send on closed channel")
	}
	if w := first(&c.recvq); w != nil {
		release(&w.hb) // send before receive completes
		acquire(&w.back)
		w.val, w.ok = v, true
		w.finish()
		return
	}
	c.push(v)
}

func (c *core) tryRecv() (interface{}, bool) {
	if len(c.buf) > 0 {
		it := c.buf[0]
		c.buf = c.buf[1:]
		acquire(it.hb)
		release(it.hb)
		if w := first(&c.sendq); w != nil {
			acquire(&w.hb)
			slot := &c.slots[c.sent%c.cap]
			c.sent++
			release(slot)
			acquire(&w.hb)
			c.buf = append(c.buf, item{w.val, slot})
			w.finish()
		}
		return it.val, true
	}
	if w := first(&c.sendq); w != nil {
		acquire(&w.hb)
		release(&w.back)
		w.finish()
		return w.val, true
	}
	acquire(&c.hb)
	return nil, false
}

func (c *core) send(v interface{}) {
	Point()
	if c == nil {
		s.block("send on nil channel")
	}
	if c.ready(true) {
		c.trySend(v)
		return
	}
	w := &waiter{t: s.cur, val: v}
	w.sel = w
	release(&w.hb)
	c.sendq = append(c.sendq, w)
	s.block("channel send")
	acquire(&w.back)
	if w.closed {
		panic("send on closed channel")
	}
}

func (c *core) recv() (interface{}, bool) {
	Point()
	if c == nil {
		s.block("receive from nil channel")
	}
	if c.ready(false) {
		return c.tryRecv()
	}
	w := &waiter{t: s.cur}
	w.sel = w
	release(&w.back)
	c.recvq = append(c.recvq, w)
	s.block("channel receive")
	acquire(&w.hb)
	return w.val, w.ok
}

func (c *core) close() {
	Point()
	if c == nil {
		panic("close of nil channel")
	}
	if c.closed {
		panic("close of closed channel")
	}
	release(&c.hb)
	c.closed = true
	for w := first(&c.recvq); w != nil; w = first(&c.recvq) {
		release(&w.hb)
		w.val, w.ok = nil, false
		w.finish()
	}
	for w := first(&c.sendq); w != nil; w = first(&c.sendq) {
		release(&w.back)
		w.closed = true
		w.finish()
	}
}

// Chan replaces chan T.
type Chan[T any] struct{ c *core }

func newCore(n int) *core { return &core{cap: n, slots: make([]byte, n)} }

func MakeChan[T any](n ...int) *Chan[T] {
	k := 0
	if len(n) > 0 {
		k = n[0]
	}
	return &Chan[T]{newCore(k)}
}
func (c *Chan[T]) core() *core {
	if c == nil {
		return nil
	}
	return c.c
}
func (c *Chan[T]) Send(v T) { c.core().send(v) }
func (c *Chan[T]) Recv() T {
	v, _ := c.Recv2()
	return v
}
func (c *Chan[T]) Recv2() (T, bool) {
	v, ok := c.core().recv()
	return as[T](v), ok
}
func (c *Chan[T]) Close() { c.core().close() }
func (c *Chan[T]) Len() int {
	if c == nil {
		return 0
	}
	return c.c.len()
}
func (c *core) len() int { Point(); return len(c.buf) }
func (c *Chan[T]) Cap() int {
	if c == nil {
		return 0
	}
	return c.c.cap
}

func as[T any](v interface{}) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

// Case of a select statement.
type Case struct {
	c    *core
	send bool
	val  interface{}
}

func (c *Chan[T]) SendCase(v T) Case { return Case{c.core(), true, v} }
func (c *Chan[T]) RecvCase() Case    { return Case{c.core(), false, nil} }

// Selected is the outcome of a select: case K (-1 default) and the value received.
type Selected struct {
	K   int
	val interface{}
	Ok  bool
}

func Value[T any](x Selected, _ *Chan[T]) T { return as[T](x.val) }

func Select(dflt bool, cases ...Case) Selected {
	Point()
	var ready []int
	for i, k := range cases {
		if k.c.ready(k.send) {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		i := ready[s.choose(len(ready))]
		k := cases[i]
		if k.send {
			k.c.trySend(k.val)
			return Selected{K: i}
		}
		v, ok := k.c.tryRecv()
		return Selected{i, v, ok}
	}
	if dflt {
		return Selected{K: -1}
	}
	sel := &waiter{t: s.cur}
	sel.sel = sel
	var ws []*waiter
	for i, k := range cases {
		w := &waiter{t: s.cur, val: k.val, sel: sel, k: i}
		ws = append(ws, w)
		if k.c == nil {
			continue
		}
		if k.send {
			release(&w.hb)
			k.c.sendq = append(k.c.sendq, w)
		} else {
			release(&w.back)
			k.c.recvq = append(k.c.recvq, w)
		}
	}
	s.block("select")
	w := ws[sel.taken]
	if cases[sel.taken].send {
		acquire(&w.back)
		if w.closed {
			panic("send on closed channel")
		}
		return Selected{K: sel.taken}
	}
	acquire(&w.hb)
	return Selected{sel.taken, w.val, w.ok}
}

// ---------------------------------------------------------------- sync

type WaitGroup struct {
	n    int
	wait []*thread
	hb   byte
}

func (g *WaitGroup) Add(d int) {
	Point()
	g.n += d
	if d < 0 {
		release(&g.hb)
	}
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		for _, t := range g.wait {
			t.run = true
		}
		g.wait = nil
	}
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	Point()
	if g.n > 0 && active() {
		g.wait = append(g.wait, s.cur)
		s.block("WaitGroup.Wait")
	}
	acquire(&g.hb)
}
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	Go(func() { defer g.Done(); f() })
}

type Locker interface {
	Lock()
	Unlock()
}

// RWMutex is also used for Mutex.
type RWMutex struct {
	w    bool
	r    int
	wait []*thread
	hb   byte
	rhb  byte
}
type Mutex struct{ m RWMutex }

func (m *Mutex) Lock()         { m.m.Lock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }
func (m *Mutex) TryLock() bool { return m.m.TryLock() }

func (m *RWMutex) Lock() {
	Point()
	for (m.w || m.r > 0) && active() {
		m.wait = append(m.wait, s.cur)
		s.block("Lock")
	}
	m.w = true
	acquire(&m.hb)
	acquire(&m.rhb)
}
func (m *RWMutex) TryLock() bool {
	Point()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	acquire(&m.hb)
	acquire(&m.rhb)
	return true
}
func (m *RWMutex) free() {
	for _, t := range m.wait {
		t.run = true
	}
	m.wait = nil
}
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: unlock of unlocked mutex")
	}
	m.w = false
	release(&m.hb)
	m.free()
}
func (m *RWMutex) RLock() {
	Point()
	for m.w && active() {
		m.wait = append(m.wait, s.cur)
		s.block("RLock")
	}
	m.r++
	acquire(&m.hb)
}
func (m *RWMutex) RUnlock() {
	if m.r == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	release(&m.rhb)
	m.free()
}
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

type Cond struct {
	L    Locker
	wait []*thread
	hb   byte
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	c.wait = append(c.wait, s.cur)
	c.L.Unlock()
	t := s.cur
	for queued(c.wait, t) {
		s.block("Cond.Wait")
	}
	acquire(&c.hb)
	c.L.Lock()
}
func queued(q []*thread, t *thread) bool {
	for _, x := range q {
		if x == t {
			return true
		}
	}
	return false
}
func (c *Cond) Signal() {
	Point()
	release(&c.hb)
	if len(c.wait) > 0 {
		c.wait[0].run = true
		c.wait = append([]*thread{}, c.wait[1:]...)
	}
}
func (c *Cond) Broadcast() {
	Point()
	release(&c.hb)
	for _, t := range c.wait {
		t.run = true
	}
	c.wait = nil
}
