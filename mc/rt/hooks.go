package verifrt

import (
	"context"
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"
)

// ---------------------------------------------------------------------------
// Channels
// ---------------------------------------------------------------------------

func chanID(c interface{}) uintptr {
	v := reflect.ValueOf(c)
	if v.Kind() != reflect.Chan {
		return 0
	}
	return v.Pointer()
}

// Case is one communication of a select (or a plain send/receive).
type Case interface {
	id() uintptr
	isSend() bool
	capacity() int
	// readyAlone reports whether the case can proceed without a partner.
	readyAlone(s *Sched) bool
	// execAlone performs the real, non-blocking operation.
	execAlone(s *Sched)
	// take moves the value of a parked sender into this receiver.
	transferFrom(sender Case)
	value() interface{}
	real() reflect.SelectCase
	setReal(v reflect.Value, ok bool)
}

// RecvC is a receive case.
type RecvC[T any] struct {
	ch  <-chan T
	Val T
	OK  bool
}

// CaseRecv makes a receive case.
func CaseRecv[T any](ch <-chan T) *RecvC[T] { return &RecvC[T]{ch: ch} }

func (r *RecvC[T]) id() uintptr   { return chanID(r.ch) }
func (r *RecvC[T]) isSend() bool  { return false }
func (r *RecvC[T]) capacity() int { return cap(r.ch) }
func (r *RecvC[T]) readyAlone(s *Sched) bool {
	if r.ch == nil {
		return false
	}
	if len(r.ch) > 0 {
		return true
	}
	select {
	case v, ok := <-r.ch:
		if !ok {
			return true
		}
		panic(fmt.Sprintf("verifrt: unmanaged sender: %v", v))
	default:
		return false
	}
}
func (r *RecvC[T]) execAlone(s *Sched) { r.Val, r.OK = <-r.ch }
func (r *RecvC[T]) transferFrom(sender Case) {
	r.Val, r.OK = sender.(*SendC[T]).val, true
}
func (r *RecvC[T]) value() interface{} { return r.Val }
func (r *RecvC[T]) real() reflect.SelectCase {
	return reflect.SelectCase{
		Dir: reflect.SelectRecv, Chan: reflect.ValueOf(r.ch),
	}
}
func (r *RecvC[T]) setReal(v reflect.Value, ok bool) {
	r.OK = ok
	if ok {
		reflect.ValueOf(&r.Val).Elem().Set(v)
	}
}

// SendC is a send case.
type SendC[T any] struct {
	ch  chan<- T
	val T
}

// CaseSend makes a send case.
func CaseSend[T any](ch chan<- T) func(T) *SendC[T] {
	return func(v T) *SendC[T] { return &SendC[T]{ch: ch, val: v} }
}

func (c *SendC[T]) id() uintptr   { return chanID(c.ch) }
func (c *SendC[T]) isSend() bool  { return true }
func (c *SendC[T]) capacity() int { return cap(c.ch) }
func (c *SendC[T]) readyAlone(s *Sched) bool {
	if c.ch == nil {
		return false
	}
	if s.closed[c.id()] {
		return true
	}
	return cap(c.ch) > 0 && len(c.ch) < cap(c.ch)
}
func (c *SendC[T]) execAlone(s *Sched)          { c.ch <- c.val }
func (c *SendC[T]) transferFrom(sender Case)    {}
func (c *SendC[T]) value() interface{}          { return c.val }
func (c *SendC[T]) setReal(reflect.Value, bool) {}
func (c *SendC[T]) real() reflect.SelectCase {
	return reflect.SelectCase{
		Dir: reflect.SelectSend, Chan: reflect.ValueOf(c.ch),
		Send: reflect.ValueOf(&c.val).Elem(),
	}
}

type selState struct {
	cases []Case
	// chosen is set by a rendezvous partner.
	chosen int
}

func (s *Sched) partners(self *Thread, c Case) []*Thread {
	if c.id() == 0 || c.capacity() > 0 {
		return nil
	}

	var out []*Thread
	for _, t := range s.threads {
		if t == self || t.done || t.op == nil || t.op.sel == nil ||
			t.op.sel.chosen >= 0 {

			continue
		}
		for _, o := range t.op.sel.cases {
			if o.isSend() != c.isSend() && o.id() == c.id() {
				out = append(out, t)
				break
			}
		}
	}

	return out
}

func (s *Sched) caseReady(self *Thread, c Case) bool {
	return c.readyAlone(s) || len(s.partners(self, c)) > 0
}

// Select runs a select statement and returns the index of the chosen case, or
// -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	s := S
	if s == nil {
		return realSelect(hasDefault, cases)
	}
	if s.aborting {
		runtime.Goexit()
	}

	self := s.cur
	st := &selState{cases: cases, chosen: -1}
	if hasDefault {
		// A select with a default never blocks; it is not a partner
		// for others while parked because it might not commit.
		self.op = &op{what: "select-default"}
	} else {
		self.op = &op{
			what: describe(cases), sel: st,
			ready: func() bool {
				if st.chosen >= 0 {
					return true
				}
				for _, c := range cases {
					if s.caseReady(self, c) {
						return true
					}
				}
				return false
			},
		}
	}
	s.points++
	s.schedule(self)

	// A partner completed one of our cases while we were parked.
	if st.chosen >= 0 {
		return st.chosen
	}

	var ready []int
	for i, c := range cases {
		if s.caseReady(self, c) {
			ready = append(ready, i)
		}
	}
	if len(ready) == 0 {
		return -1
	}

	pick := 0
	if len(ready) > 1 {
		costs := make([]int, len(ready))
		for i := 1; i < len(ready); i++ {
			costs[i] = s.opt.SelectCost
		}
		pick = s.pick(costs, "select")
	}
	idx := ready[pick]
	c := cases[idx]

	if c.readyAlone(s) {
		c.execAlone(s)
		return idx
	}

	// Rendezvous with a parked partner. Any of them may be first in the
	// queue; picking one that parked later costs a deviation.
	ps := s.partners(self, c)
	pi := 0
	if len(ps) > 1 {
		costs := make([]int, len(ps))
		for i := 1; i < len(ps); i++ {
			costs[i] = 1
		}
		pi = s.pick(costs, "partner")
	}
	p := ps[pi]

	for i, o := range p.op.sel.cases {
		if o.isSend() == c.isSend() || o.id() != c.id() {
			continue
		}
		if c.isSend() {
			o.transferFrom(c)
		} else {
			c.transferFrom(o)
		}
		p.op.sel.chosen = i
		break
	}

	return idx
}

func describe(cases []Case) string {
	if len(cases) == 1 {
		if cases[0].isSend() {
			return fmt.Sprintf("send %T", cases[0])
		}
		return fmt.Sprintf("recv %T", cases[0])
	}
	w := "select"
	for _, c := range cases {
		w += fmt.Sprintf(" %T", c)
	}
	return w
}

func realSelect(hasDefault bool, cases []Case) int {
	rc := make([]reflect.SelectCase, 0, len(cases)+1)
	for _, c := range cases {
		rc = append(rc, c.real())
	}
	if hasDefault {
		rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	i, v, ok := reflect.Select(rc)
	if i == len(cases) {
		return -1
	}
	cases[i].setReal(v, ok)

	return i
}

// SendTo is `ch <- v`.
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		if S == nil {
			ch <- v
			return
		}
		Select(false, CaseSend(ch)(v))
	}
}

// Recv is `<-ch`.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is `v, ok := <-ch`.
func Recv2[T any](ch <-chan T) (T, bool) {
	if S == nil {
		v, ok := <-ch
		return v, ok
	}
	c := CaseRecv(ch)
	Select(false, c)

	return c.Val, c.OK
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	s := S
	if s == nil {
		close(ch)
		return
	}
	if s.aborting {
		return
	}
	s.block("close", nil)
	s.closed[chanID(ch)] = true
	// Keep the channel alive so that its address is never reused within
	// this execution.
	s.keep = append(s.keep, ch)

	// Parked senders on a closed channel will panic in execAlone, parked
	// receivers see it closed.
	close(ch)
}

// ---------------------------------------------------------------------------
// Maps
// ---------------------------------------------------------------------------

// MapIter walks a map in a controlled order.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	More bool
}

// RangeMap starts a controlled walk over m.
func RangeMap[M ~map[K]V, K comparable, V any](m M) (K, V, *MapIter[K, V]) {
	it := &MapIter[K, V]{m: m, keys: MapKeys(m)}
	k, v := it.Next()

	return k, v, it
}

// Next moves to the next live key.
func (it *MapIter[K, V]) Next() (K, V) {
	for len(it.keys) > 0 {
		k := it.keys[0]
		it.keys = it.keys[1:]
		if v, ok := it.m[k]; ok {
			it.More = true
			return k, v
		}
	}
	it.More = false

	var (
		k K
		v V
	)
	return k, v
}

// MapKeys returns the keys of m in the order this execution walks them.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	s := S
	if s == nil {
		return keys
	}

	sort.Slice(keys, func(i, j int) bool { return less(keys[i], keys[j]) })
	if !s.opt.MapOrders || len(keys) < 2 || s.aborting {
		return keys
	}

	// Up to three keys: every order. More: every rotation of the sorted
	// and of the reversed order, so that every key is once last and once
	// first.
	if len(keys) <= 3 {
		perms := permutations(len(keys))
		p := perms[s.pick(make([]int, len(perms)), "maporder")]
		out := make([]K, len(keys))
		for i, j := range p {
			out[i] = keys[j]
		}
		return out
	}

	n := len(keys)
	c := s.pick(make([]int, 2*n), "maporder")
	if c >= n {
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			keys[i], keys[j] = keys[j], keys[i]
		}
		c -= n
	}

	return append(append([]K{}, keys[c:]...), keys[:c]...)
}

func permutations(n int) [][]int {
	if n == 1 {
		return [][]int{{0}}
	}
	var out [][]int
	for _, p := range permutations(n - 1) {
		for i := len(p); i >= 0; i-- {
			q := append([]int{}, p[:i]...)
			q = append(q, n-1)
			q = append(q, p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

func less(a, b interface{}) bool {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	switch x.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32,
		reflect.Int64:

		return x.Int() < y.Int()

	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32,
		reflect.Uint64, reflect.Uintptr:

		return x.Uint() < y.Uint()

	case reflect.String:
		return x.String() < y.String()
	}

	return fmt.Sprint(a) < fmt.Sprint(b)
}

// ---------------------------------------------------------------------------
// sync
// ---------------------------------------------------------------------------

// Mutex replaces sync.Mutex.
type Mutex struct {
	mu   sync.Mutex
	held bool
}

// Lock locks m.
func (m *Mutex) Lock() {
	s := S
	if s == nil {
		m.mu.Lock()
		return
	}
	if s.aborting {
		return
	}
	s.block("lock", func() bool { return !m.held })
	m.held = true
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	s := S
	if s == nil {
		return m.mu.TryLock()
	}
	Point("trylock")
	if m.held {
		return false
	}
	m.held = true

	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	s := S
	if s == nil {
		m.mu.Unlock()
		return
	}
	if s.aborting {
		return
	}
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	s.block("unlocked", nil)
}

// RWMutex replaces sync.RWMutex.
type RWMutex struct {
	mu      sync.RWMutex
	writer  bool
	readers int
	waiting int
}

// Lock write-locks.
func (m *RWMutex) Lock() {
	s := S
	if s == nil {
		m.mu.Lock()
		return
	}
	if s.aborting {
		return
	}
	m.waiting++
	s.block("wlock", func() bool { return !m.writer && m.readers == 0 })
	m.waiting--
	m.writer = true
}

// Unlock write-unlocks.
func (m *RWMutex) Unlock() {
	s := S
	if s == nil {
		m.mu.Unlock()
		return
	}
	if s.aborting {
		return
	}
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	s.block("wunlocked", nil)
}

// RLock read-locks. As with sync.RWMutex a waiting writer blocks new readers.
func (m *RWMutex) RLock() {
	s := S
	if s == nil {
		m.mu.RLock()
		return
	}
	if s.aborting {
		return
	}
	s.block("rlock", func() bool { return !m.writer && m.waiting == 0 })
	m.readers++
}

// RUnlock read-unlocks.
func (m *RWMutex) RUnlock() {
	s := S
	if s == nil {
		m.mu.RUnlock()
		return
	}
	if s.aborting {
		return
	}
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	s.block("runlocked", nil)
}

// RLocker returns a Locker for the read side.
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Locker is sync.Locker.
type Locker = sync.Locker

// Pool stands in for sync.Pool: it hands out what was put in last, and starts
// every execution empty.
type Pool struct {
	New func() interface{}

	mu    sync.Mutex
	known bool
	items []interface{}
}

var (
	poolsMu sync.Mutex
	pools   []*Pool
)

// Get takes an item.
func (p *Pool) Get() interface{} {
	Point("pool.get")
	p.mu.Lock()
	if n := len(p.items); n > 0 {
		it := p.items[n-1]
		p.items = p.items[:n-1]
		p.mu.Unlock()
		return it
	}
	p.mu.Unlock()
	if p.New == nil {
		return nil
	}
	return p.New()
}

// Put gives an item back.
func (p *Pool) Put(v interface{}) {
	Point("pool.put")
	p.mu.Lock()
	defer p.mu.Unlock()
	p.items = append(p.items, v)
	if !p.known {
		p.known = true
		poolsMu.Lock()
		pools = append(pools, p)
		poolsMu.Unlock()
	}
}

// emptyPools puts every pool back into its first state.
func emptyPools() {
	for _, p := range pools {
		p.items = nil
	}
}

// Map is sync.Map with scheduling points.
type Map struct{ m sync.Map }

// Load loads.
func (m *Map) Load(k interface{}) (interface{}, bool) {
	Point("map.load")
	return m.m.Load(k)
}

// Store stores.
func (m *Map) Store(k, v interface{}) { Point("map.store"); m.m.Store(k, v) }

// Delete deletes.
func (m *Map) Delete(k interface{}) { Point("map.delete"); m.m.Delete(k) }

// LoadOrStore loads or stores.
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	Point("map.loadorstore")
	return m.m.LoadOrStore(k, v)
}

// LoadAndDelete loads and deletes.
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	Point("map.loadanddelete")
	return m.m.LoadAndDelete(k)
}

// Range ranges.
func (m *Map) Range(f func(k, v interface{}) bool) {
	Point("map.range")
	m.m.Range(f)
}

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	wg sync.WaitGroup
	n  int
}

// Add adds.
func (w *WaitGroup) Add(d int) {
	s := S
	if s == nil {
		w.wg.Add(d)
		return
	}
	if s.aborting {
		return
	}
	s.block("wg.add", nil)
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

// Done decrements.
func (w *WaitGroup) Done() {
	if S == nil {
		w.wg.Done()
		return
	}
	w.Add(-1)
}

// Wait waits for zero.
func (w *WaitGroup) Wait() {
	s := S
	if s == nil {
		w.wg.Wait()
		return
	}
	if s.aborting {
		runtime.Goexit()
	}
	s.block("wg.wait", func() bool { return w.n == 0 })
}

// Once replaces sync.Once.
type Once struct {
	once sync.Once
	m    Mutex
	done bool
}

// Do runs f once.
func (o *Once) Do(f func()) {
	s := S
	if s == nil {
		o.once.Do(f)
		return
	}
	if s.aborting {
		return
	}
	s.block("once", nil)
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Cond replaces sync.Cond.
type Cond struct {
	L       sync.Locker
	c       *sync.Cond
	waiters []*bool
}

// NewCond makes a Cond.
func NewCond(l sync.Locker) *Cond { return &Cond{L: l, c: sync.NewCond(l)} }

// Wait waits.
func (c *Cond) Wait() {
	s := S
	if s == nil {
		c.c.Wait()
		return
	}
	if s.aborting {
		runtime.Goexit()
	}
	woken := false
	c.waiters = append(c.waiters, &woken)
	c.L.Unlock()
	s.block("cond.wait", func() bool { return woken })
	c.L.Lock()
}

// Signal wakes one.
func (c *Cond) Signal() {
	if S == nil {
		c.c.Signal()
		return
	}
	Point("cond.signal")
	if len(c.waiters) > 0 {
		*c.waiters[0] = true
		c.waiters = c.waiters[1:]
	}
}

// Broadcast wakes all.
func (c *Cond) Broadcast() {
	if S == nil {
		c.c.Broadcast()
		return
	}
	Point("cond.broadcast")
	for _, w := range c.waiters {
		*w = true
	}
	c.waiters = nil
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var (
		o Once
		v T
	)
	return func() T { o.Do(func() { v = f() }); return v }
}

// ---------------------------------------------------------------------------
// sync/atomic
// ---------------------------------------------------------------------------

func AddInt32(p *int32, d int32) int32     { Point("atomic.add"); return atomic.AddInt32(p, d) }
func AddInt64(p *int64, d int64) int64     { Point("atomic.add"); return atomic.AddInt64(p, d) }
func AddUint32(p *uint32, d uint32) uint32 { Point("atomic.add"); return atomic.AddUint32(p, d) }
func AddUint64(p *uint64, d uint64) uint64 { Point("atomic.add"); return atomic.AddUint64(p, d) }
func LoadInt32(p *int32) int32             { Point("atomic.load"); return atomic.LoadInt32(p) }
func LoadInt64(p *int64) int64             { Point("atomic.load"); return atomic.LoadInt64(p) }
func LoadUint32(p *uint32) uint32          { Point("atomic.load"); return atomic.LoadUint32(p) }
func LoadUint64(p *uint64) uint64          { Point("atomic.load"); return atomic.LoadUint64(p) }
func StoreInt32(p *int32, v int32)         { Point("atomic.store"); atomic.StoreInt32(p, v) }
func StoreInt64(p *int64, v int64)         { Point("atomic.store"); atomic.StoreInt64(p, v) }
func StoreUint32(p *uint32, v uint32)      { Point("atomic.store"); atomic.StoreUint32(p, v) }
func StoreUint64(p *uint64, v uint64)      { Point("atomic.store"); atomic.StoreUint64(p, v) }
func SwapInt32(p *int32, v int32) int32    { Point("atomic.swap"); return atomic.SwapInt32(p, v) }
func SwapInt64(p *int64, v int64) int64    { Point("atomic.swap"); return atomic.SwapInt64(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 {
	Point("atomic.swap")
	return atomic.SwapUint32(p, v)
}
func SwapUint64(p *uint64, v uint64) uint64 {
	Point("atomic.swap")
	return atomic.SwapUint64(p, v)
}
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	Point("atomic.cas")
	return atomic.CompareAndSwapInt32(p, o, n)
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	Point("atomic.cas")
	return atomic.CompareAndSwapInt64(p, o, n)
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	Point("atomic.cas")
	return atomic.CompareAndSwapUint32(p, o, n)
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	Point("atomic.cas")
	return atomic.CompareAndSwapUint64(p, o, n)
}

// Int32 replaces atomic.Int32.
type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32        { Point("atomic.load"); return x.v.Load() }
func (x *Int32) Store(v int32)      { Point("atomic.store"); x.v.Store(v) }
func (x *Int32) Swap(v int32) int32 { Point("atomic.swap"); return x.v.Swap(v) }
func (x *Int32) Add(d int32) int32  { Point("atomic.add"); return x.v.Add(d) }
func (x *Int32) CompareAndSwap(o, n int32) bool {
	Point("atomic.cas")
	return x.v.CompareAndSwap(o, n)
}

// Int64 replaces atomic.Int64.
type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64        { Point("atomic.load"); return x.v.Load() }
func (x *Int64) Store(v int64)      { Point("atomic.store"); x.v.Store(v) }
func (x *Int64) Swap(v int64) int64 { Point("atomic.swap"); return x.v.Swap(v) }
func (x *Int64) Add(d int64) int64  { Point("atomic.add"); return x.v.Add(d) }
func (x *Int64) CompareAndSwap(o, n int64) bool {
	Point("atomic.cas")
	return x.v.CompareAndSwap(o, n)
}

// Uint32 replaces atomic.Uint32.
type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32         { Point("atomic.load"); return x.v.Load() }
func (x *Uint32) Store(v uint32)       { Point("atomic.store"); x.v.Store(v) }
func (x *Uint32) Swap(v uint32) uint32 { Point("atomic.swap"); return x.v.Swap(v) }
func (x *Uint32) Add(d uint32) uint32  { Point("atomic.add"); return x.v.Add(d) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool {
	Point("atomic.cas")
	return x.v.CompareAndSwap(o, n)
}

// Uint64 replaces atomic.Uint64.
type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64         { Point("atomic.load"); return x.v.Load() }
func (x *Uint64) Store(v uint64)       { Point("atomic.store"); x.v.Store(v) }
func (x *Uint64) Swap(v uint64) uint64 { Point("atomic.swap"); return x.v.Swap(v) }
func (x *Uint64) Add(d uint64) uint64  { Point("atomic.add"); return x.v.Add(d) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool {
	Point("atomic.cas")
	return x.v.CompareAndSwap(o, n)
}

// Bool replaces atomic.Bool.
type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool       { Point("atomic.load"); return x.v.Load() }
func (x *Bool) Store(v bool)     { Point("atomic.store"); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool { Point("atomic.swap"); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	Point("atomic.cas")
	return x.v.CompareAndSwap(o, n)
}

// Value replaces atomic.Value.
type Value struct{ v atomic.Value }

func (x *Value) Load() interface{}   { Point("atomic.load"); return x.v.Load() }
func (x *Value) Store(v interface{}) { Point("atomic.store"); x.v.Store(v) }

// Pointer replaces atomic.Pointer.
type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T     { Point("atomic.load"); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)   { Point("atomic.store"); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T { Point("atomic.swap"); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	Point("atomic.cas")
	return x.v.CompareAndSwap(o, n)
}

// ---------------------------------------------------------------------------
// time and context
// ---------------------------------------------------------------------------

// Epoch is the virtual wall clock at the start of an execution.
var Epoch = time.Unix(1700000000, 0)

// Now replaces time.Now.
func Now() time.Time {
	if s := S; s != nil {
		return Epoch.Add(s.now)
	}
	return time.Now()
}

// Since replaces time.Since.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until replaces time.Until.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// After replaces time.After.
func After(d time.Duration) <-chan time.Time {
	s := S
	if s == nil {
		return time.After(d)
	}
	ch := make(chan time.Time, 1)
	if s.aborting {
		return ch
	}
	s.addTimer(d, func() { ch <- Epoch.Add(s.now) })

	return ch
}

// Sleep replaces time.Sleep.
func Sleep(d time.Duration) {
	s := S
	if s == nil {
		time.Sleep(d)
		return
	}
	if s.aborting {
		runtime.Goexit()
	}
	if d <= 0 {
		s.block("sleep0", nil)
		return
	}
	fired := false
	s.addTimer(d, func() { fired = true })
	s.block("sleep", func() bool { return fired })
}

// Timer replaces time.Timer.
type Timer struct {
	C  <-chan time.Time
	ch chan time.Time
	f  func()
	vt *vtimer
	rt *time.Timer
}

// NewTimer replaces time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	s := S
	if s == nil {
		rt := time.NewTimer(d)
		return &Timer{C: rt.C, rt: rt}
	}
	t := &Timer{ch: make(chan time.Time, 1)}
	t.C = t.ch
	t.arm(s, d)

	return t
}

func (t *Timer) arm(s *Sched, d time.Duration) {
	t.vt = s.addTimer(d, func() {
		if t.f != nil {
			s.spawn("afterfunc", t.f)
			return
		}
		select {
		case t.ch <- Epoch.Add(s.now):
		default:
		}
	})
}

// AfterFunc replaces time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	s := S
	if s == nil {
		return &Timer{rt: time.AfterFunc(d, f)}
	}
	t := &Timer{f: f}
	t.arm(s, d)

	return t
}

// Stop stops the timer.
func (t *Timer) Stop() bool {
	if t.rt != nil {
		return t.rt.Stop()
	}
	was := !t.vt.dead
	t.vt.dead = true

	return was
}

// Reset resets the timer.
func (t *Timer) Reset(d time.Duration) bool {
	if t.rt != nil {
		return t.rt.Reset(d)
	}
	was := t.Stop()
	if s := S; s != nil && !s.aborting {
		t.arm(s, d)
	}

	return was
}

// Ticker replaces time.Ticker.
type Ticker struct {
	C  <-chan time.Time
	ch chan time.Time
	vt *vtimer
	d  time.Duration
	rt *time.Ticker
}

// NewTicker replaces time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	s := S
	if s == nil {
		rt := time.NewTicker(d)
		return &Ticker{C: rt.C, rt: rt}
	}
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Ticker{ch: make(chan time.Time, 1), d: d}
	t.C = t.ch
	t.arm(s)

	return t
}

func (t *Ticker) arm(s *Sched) {
	t.vt = s.addTimer(t.d, func() {
		select {
		case t.ch <- Epoch.Add(s.now):
		default:
		}
		t.arm(s)
	})
}

// Stop stops the ticker.
func (t *Ticker) Stop() {
	if t.rt != nil {
		t.rt.Stop()
		return
	}
	t.vt.dead = true
}

// Reset resets the ticker.
func (t *Ticker) Reset(d time.Duration) {
	if t.rt != nil {
		t.rt.Reset(d)
		return
	}
	t.vt.dead = true
	t.d = d
	if s := S; s != nil && !s.aborting {
		t.arm(s)
	}
}

// Tick replaces time.Tick.
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

type vctx struct {
	context.Context
	deadline time.Time
	timedOut bool
}

func (c *vctx) Deadline() (time.Time, bool) { return c.deadline, true }
func (c *vctx) Err() error {
	err := c.Context.Err()
	if err != nil && c.timedOut {
		return context.DeadlineExceeded
	}
	return err
}

// WithTimeout replaces context.WithTimeout.
func WithTimeout(parent context.Context, d time.Duration) (context.Context,
	context.CancelFunc) {

	s := S
	if s == nil {
		return context.WithTimeout(parent, d)
	}

	inner, cancel := context.WithCancel(parent)
	c := &vctx{Context: inner, deadline: Epoch.Add(s.now + d)}
	if pd, ok := parent.Deadline(); ok && pd.Before(c.deadline) {
		c.deadline = pd
	}
	vt := s.addTimer(d, func() {
		if inner.Err() == nil {
			c.timedOut = true
		}
		cancel()
	})

	return c, func() { vt.dead = true; cancel() }
}

// WithDeadline replaces context.WithDeadline.
func WithDeadline(parent context.Context, t time.Time) (context.Context,
	context.CancelFunc) {

	if S == nil {
		return context.WithDeadline(parent, t)
	}
	return WithTimeout(parent, t.Sub(Now()))
}
