package simrt

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
)

// Channels of instrumented code keep their types; their state lives here, keyed by identity.
type chanState struct {
	keep   any
	cap    int
	buf    []any
	closed bool
	recvq  []*cw
	sendq  []*cw
}

// cw is one case of a (possibly multi-way) wait.
type cw struct {
	w   *Waiter
	idx int
	val any
}

func live(q []*cw) []*cw {
	for len(q) > 0 && (q[0].w.fired || q[0].w.Gone()) {
		q = q[1:]
	}
	return q
}

func stateOf(ch any) *chanState {
	s := active
	if s == nil {
		panic("simrt: channel operation outside a simulation")
	}
	v := reflect.ValueOf(ch)
	if v.IsNil() {
		return nil
	}
	p := v.Pointer()
	st := s.chans[p]
	if st == nil {
		st = &chanState{keep: ch, cap: v.Cap()}
		s.chans[p] = st
	}
	return st
}

// trySend / tryRecv complete the operation now if possible.
func (c *chanState) trySend(v any) bool {
	if c.closed {
		panic("send on closed channel")
	}
	c.recvq = live(c.recvq)
	if len(c.recvq) > 0 {
		r := c.recvq[0]
		c.recvq = c.recvq[1:]
		r.w.Val, r.w.OK, r.w.Idx = v, true, r.idx
		r.w.Ready()
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		return true
	}
	return false
}

func (c *chanState) tryRecv() (v any, ok, done bool) {
	c.sendq = live(c.sendq)
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = c.buf[1:]
		if len(c.sendq) > 0 {
			x := c.sendq[0]
			c.sendq = c.sendq[1:]
			c.buf = append(c.buf, x.val)
			x.w.Idx, x.w.OK = x.idx, true
			x.w.Ready()
		}
		return v, true, true
	}
	if len(c.sendq) > 0 {
		x := c.sendq[0]
		c.sendq = c.sendq[1:]
		x.w.Idx, x.w.OK = x.idx, true
		x.w.Ready()
		return x.val, true, true
	}
	if c.closed {
		return nil, false, true
	}
	return nil, false, false
}

func blockForever(why string) {
	s := active
	if s == nil || Dying() {
		runtime.Goexit()
	}
	w := s.NewWaiter(why)
	w.Wait()
	runtime.Goexit()
}

// BlockForever is select{}.
func BlockForever() { blockForever("select{}") }

// Send is ch <- v.
func Send[T any](ch chan<- T, v T) {
	if Dying() {
		return
	}
	Point()
	c := stateOf(ch)
	if c == nil {
		blockForever("send on nil channel")
	}
	if c.trySend(v) {
		return
	}
	w := active.NewWaiter("chan send")
	c.sendq = append(c.sendq, &cw{w: w, val: v})
	w.Wait()
	if !w.OK {
		panic("send on closed channel")
	}
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	var zero T
	if Dying() {
		return zero, false
	}
	Point()
	c := stateOf(ch)
	if c == nil {
		blockForever("receive on nil channel")
	}
	v, ok, done := c.tryRecv()
	if !done {
		w := active.NewWaiter("chan receive")
		c.recvq = append(c.recvq, &cw{w: w})
		w.Wait()
		v, ok = w.Val, w.OK
	}
	if !ok {
		return zero, false
	}
	t, _ := v.(T)
	return t, true
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	if Dying() {
		return
	}
	Point()
	c := stateOf(ch)
	if c == nil {
		panic("close of nil channel")
	}
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	for _, r := range c.recvq {
		if !r.w.fired && !r.w.Gone() {
			r.w.Val, r.w.OK, r.w.Idx = nil, false, r.idx
			r.w.Ready()
		}
	}
	c.recvq = nil
	for _, x := range c.sendq {
		if !x.w.fired && !x.w.Gone() {
			x.w.OK, x.w.Idx = false, x.idx
			x.w.Ready()
		}
	}
	c.sendq = nil
}

// CloseQuiet closes ch from scheduler context if it is open.
func CloseQuiet[T any](ch chan<- T) {
	c := stateOf(ch)
	if c == nil || c.closed {
		return
	}
	c.closed = true
	for _, r := range c.recvq {
		if !r.w.fired && !r.w.Gone() {
			r.w.Val, r.w.OK, r.w.Idx = nil, false, r.idx
			r.w.Ready()
		}
	}
	c.recvq = nil
}

// TrySendQuiet does a non-blocking send from scheduler context.
func TrySendQuiet[T any](ch chan<- T, v T) bool { return stateOf(ch).trySend(v) }

// ChanLen is len(ch).
func ChanLen[T any](ch <-chan T) int {
	if c := stateOf(ch); c != nil {
		return len(c.buf)
	}
	return 0
}

// Case is one case of a select.
type Case interface {
	state() *chanState
	send() (any, bool)
	set(v any, ok bool)
}

// RecvC is a receive case.
type RecvC[T any] struct {
	ch  <-chan T
	Val T
	Ok  bool
}

// SendC is a send case.
type SendC[T any] struct {
	ch chan<- T
	v  T
}

func CaseRecv[T any](ch <-chan T) *RecvC[T]      { return &RecvC[T]{ch: ch} }
func CaseSend[T any](ch chan<- T, v T) *SendC[T] { return &SendC[T]{ch: ch, v: v} }

func (c *RecvC[T]) state() *chanState  { return stateOf(c.ch) }
func (c *RecvC[T]) send() (any, bool)  { return nil, false }
func (c *RecvC[T]) set(v any, ok bool) { c.Val, _ = v.(T); c.Ok = ok }
func (c *SendC[T]) state() *chanState  { return stateOf(c.ch) }
func (c *SendC[T]) send() (any, bool)  { return c.v, true }
func (c *SendC[T]) set(v any, ok bool) {}

// Select is a select statement; -1 is the default case.
func Select(hasDefault bool, cases ...Case) int {
	if Dying() {
		if hasDefault {
			return -1
		}
		runtime.Goexit()
	}
	Point()
	s := active
	// start at a chosen case: which ready case proceeds is nondeterministic
	n := len(cases)
	var ready []int
	for i, c := range cases {
		st := c.state()
		if st == nil {
			continue
		}
		st.recvq, st.sendq = live(st.recvq), live(st.sendq)
		if _, snd := c.send(); snd {
			if st.closed || len(st.recvq) > 0 || len(st.buf) < st.cap {
				ready = append(ready, i)
			}
		} else if st.closed || len(st.buf) > 0 || len(st.sendq) > 0 {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		i := ready[s.Src.S.N(len(ready))]
		c := cases[i]
		st := c.state()
		if v, snd := c.send(); snd {
			st.trySend(v)
		} else {
			v, ok, _ := st.tryRecv()
			c.set(v, ok)
		}
		return i
	}
	if hasDefault {
		return -1
	}
	if n == 0 {
		BlockForever()
	}
	w := s.NewWaiter("select")
	any := false
	for i, c := range cases {
		st := c.state()
		if st == nil {
			continue
		}
		any = true
		if v, snd := c.send(); snd {
			st.sendq = append(st.sendq, &cw{w: w, idx: i, val: v})
		} else {
			st.recvq = append(st.recvq, &cw{w: w, idx: i})
		}
	}
	_ = any
	w.Wait()
	c := cases[w.Idx]
	if _, snd := c.send(); snd {
		if !w.OK {
			panic("send on closed channel")
		}
	} else {
		c.set(w.Val, w.OK)
	}
	return w.Idx
}

// GoCall is the go statement: fn and args are evaluated by the caller.
func GoCall(fn any, args ...any) { goCall(fn, false, args) }

// GoCallV is a go statement whose last argument is spread (f(xs...)).
func GoCallV(fn any, args ...any) { goCall(fn, true, args) }

func goCall(fn any, spread bool, args []any) {
	if Dying() {
		return
	}
	s := active
	fv := reflect.ValueOf(fn)
	name := "func"
	if f := runtime.FuncForPC(fv.Pointer()); f != nil {
		name = f.Name()
		for i := len(name) - 1; i >= 0; i-- {
			if name[i] == '/' {
				name = name[i+1:]
				break
			}
		}
	}
	var run func()
	if f, ok := fn.(func()); ok {
		run = f
	} else {
		ft := fv.Type()
		in := make([]reflect.Value, len(args))
		for i, a := range args {
			var pt reflect.Type
			if ft.IsVariadic() && !spread && i >= ft.NumIn()-1 {
				pt = ft.In(ft.NumIn() - 1).Elem()
			} else {
				pt = ft.In(i)
			}
			if a == nil {
				in[i] = reflect.Zero(pt)
			} else {
				v := reflect.ValueOf(a)
				if !v.Type().AssignableTo(pt) {
					v = v.Convert(pt)
				}
				in[i] = v
			}
		}
		run = func() {
			if spread {
				fv.CallSlice(in)
			} else {
				fv.Call(in)
			}
		}
	}
	g := s.newG(s.cur.Proc, s.cur, name, run)
	s.Event("go", name, g.ID)
	Point()
}

// SendTo is Send with the value passed separately (so that it converts by assignment).
func SendTo[T any](ch chan<- T) func(T) { return func(v T) { Send(ch, v) } }

// CaseSendTo is CaseSend with the value passed separately.
func CaseSendTo[T any](ch chan<- T) func(T) *SendC[T] {
	return func(v T) *SendC[T] { return CaseSend(ch, v) }
}

// ChanIt iterates over a channel.
type ChanIt[T any] struct{ ch <-chan T }

func ChanStart[T any](ch <-chan T) (T, *ChanIt[T]) { var z T; return z, &ChanIt[T]{ch} }
func ChanIter[T any](ch <-chan T) *ChanIt[T]       { return &ChanIt[T]{ch} }
func (it *ChanIt[T]) Next(v *T) bool {
	x, ok := Recv2(it.ch)
	if ok && v != nil {
		*v = x
	}
	return ok
}

// MapIt iterates over a map in an order chosen by the schedule.
type MapIt[K comparable, V any] struct {
	m    map[K]V
	keys []K
}

func MapStart[M ~map[K]V, K comparable, V any](m M) (K, V, *MapIt[K, V]) {
	var k K
	var v V
	return k, v, MapIter(m)
}
func MapStartK[M ~map[K]V, K comparable, V any](m M) (K, *MapIt[K, V]) {
	var k K
	return k, MapIter(m)
}
func MapStartV[M ~map[K]V, K comparable, V any](m M) (V, *MapIt[K, V]) {
	var v V
	return v, MapIter(m)
}
func MapIter[M ~map[K]V, K comparable, V any](m M) *MapIt[K, V] {
	return &MapIt[K, V]{m: m, keys: MapKeys(m)}
}
func (it *MapIt[K, V]) Next(k *K, v *V) bool {
	for len(it.keys) > 0 {
		key := it.keys[0]
		it.keys = it.keys[1:]
		val, ok := it.m[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

// MapKeys returns the keys of m in an order chosen by the schedule.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
	if active != nil && !Dying() {
		for i := 0; i < len(keys)-1; i++ {
			j := i + active.Src.S.N(len(keys)-i)
			keys[i], keys[j] = keys[j], keys[i]
		}
	}
	return keys
}
