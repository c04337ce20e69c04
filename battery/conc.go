package main

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/wI2L/jettison"
)

// concurrent is set while several goroutines encode values.
var concurrent bool

type concCall struct {
	x    interface{}
	o    O
	l    []jettison.Option
	want *N
	es   errs
	dst  []byte
	how  int
}

// genConcurrent encodes the same values, of types that were never used
// before, in several goroutines at the same time. The binary is built
// with the race detector.
func genConcurrent(h *H) {
	var ts []reflect.Type
	if h.iter < len(concTypes) && h.iter%3 != 2 {
		ts = concTypes[(h.iter*7+h.part*61)%len(concTypes)]
	}
	errorsOn = h.p(20)
	if h.p(20) {
		h.bad = 5
	}
	var cs []*concCall
	for i := 0; i < 6; i++ {
		var t reflect.Type
		if ts != nil && i < 4 {
			t = ts[h.Intn(len(ts))]
			switch h.Intn(4) {
			case 0:
				t = reflect.PointerTo(t)
			case 1:
				t = reflect.StructOf([]reflect.StructField{{Name: "A", Type: t}, {Name: "B", Type: h.leaf(), Tag: `json:"b,omitempty"`}})
			}
		} else {
			t = h.typ(3)
		}
		v := h.val(t, 4)
		o, l := h.opts(t, 8)
		x := v
		if h.p(40) {
			x = v.Addr()
		}
		if x.Kind() == reflect.Interface {
			continue
		}
		r := &R{o: &o}
		c := &concCall{x: x.Interface(), o: o, l: l, how: h.Intn(2)}
		c.want, c.es = r.top(c.x)
		cs = append(cs, c)
	}
	if len(cs) == 0 {
		return
	}
	concurrent = true
	defer func() { concurrent = false }()
	n := 2 + h.Intn(5)
	type outcome struct {
		c   *concCall
		b   []byte
		err error
		p   interface{}
	}
	res := make([][]outcome, n)
	var wg sync.WaitGroup
	var ready int32
	for i := 0; i < n; i++ {
		order := h.Perm(len(cs))
		if h.p(50) {
			order = append(order[:1:1], order...) // the first again
		}
		if h.p(60) {
			order[0] = 0
		}
		spin := h.Intn(200)
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			atomic.AddInt32(&ready, 1)
			for atomic.LoadInt32(&ready) < int32(n) {
				runtime.Gosched()
			}
			for j := 0; j < spin; j++ {
				atomic.LoadInt32(&ready)
			}
			for _, j := range order {
				c := cs[j]
				func() {
					var b []byte
					var err error
					defer func() { res[i] = append(res[i], outcome{c, b, err, recover()}) }()
					if c.how == 0 {
						b, err = jettison.MarshalOpts(c.x, c.l...)
					} else {
						b, err = jettison.AppendOpts([]byte("p"), c.x, c.l...)
						b = bytes.TrimPrefix(b, []byte("p"))
					}
				}()
			}
		}(i)
	}
	wg.Wait()
	for i := range res {
		for _, r := range res[i] {
			h.cur = &Failure{Prop: h.rep.Prop, Gen: h.gen, Seed: h.seed, Part: h.part, Iter: h.iter, Type: clip(fmt.Sprintf("%T", r.c.x), 1500), Value: dump(r.c.x), Options: r.c.o.String()}
			h.note(r.b)
			if r.p != nil {
				h.fail(fmt.Sprint("panic: ", r.p), "", "")
			}
			h.compare(fmt.Sprintf("MarshalOpts in %d goroutines", n), r.c.want, r.c.es, r.b, r.err)
		}
	}
	for i := range res {
		for _, r := range res[i] {
			for k := range r.b {
				r.b[k] = '#' // the result belongs to the caller
			}
		}
	}
}
