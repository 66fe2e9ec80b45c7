package iproto

import (
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

func within(t *testing.T, f func()) {
	ch := make(chan bool)
	go func() { f(); close(ch) }()
	select {
	case <-ch:
	case <-time.After(2 * time.Second):
		t.Fatal("does not end")
	}
}

type noLoop struct{ SimplePoint }

func (n *noLoop) Loop() {}
func TestF_Stop(t *testing.T) {
	n := &noLoop{}
	n.Init(n)
	Run(n)
	within(t, n.Stop)
}
func TestF_StopAnswers(t *testing.T) {
	s := BF{N: 1}.New(func(*Context, *Request) (RetCode, interface{}) { return 0, nil })
	s.Stop()
	time.Sleep(50 * time.Millisecond)
	ch := make(Chan, 1)
	s.Send(&Request{Responder: ch})
	within(t, func() { <-ch })
}
func TestF_SendAfterStop(t *testing.T) {
	n := &noLoop{}
	n.Init(n)
	Run(n)
	n.b.close()
	time.Sleep(50 * time.Millisecond)
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	ch := make(Chan, 1)
	for i := 0; i <= 16*1024; i++ {
		n.Send(&Request{Responder: ch})
	}
	within(t, func() { <-ch })
}

type stopB struct{ BalancerPoint }

func TestF_BalancerStop(t *testing.T) {
	b := &BalancerPoint{}
	b.Init()
	Run(b)
	ch := make(Chan, 1)
	b.Send(&Request{Responder: ch})
	b.Stop()
	within(t, func() { <-ch })
}
func TestF_Child(t *testing.T) {
	c := &Context{}
	ran := make(chan bool, 1)
	c.Go(func(*Context) { ran <- true })
	within(t, func() { <-ran; c.WaitAll() })
}

type cn struct{ n int }

func (c *cn) Cancel() { c.n++ }
func TestF_LostCancel(t *testing.T) {
	/* history: AddCanceler has seen State == 0 and holds the lock, Cancel comes, AddCanceler registers */
	c := &Context{}
	x := &cn{}
	c.m.Lock()
	done := make(chan bool)
	go func() { c.Cancel(); close(done) }()
	time.Sleep(100 * time.Millisecond)
	c.cancels[0] = x
	c.cancelsn++
	c.m.Unlock()
	time.Sleep(100 * time.Millisecond)
	c.RemoveCanceler(x)
	<-done
	if x.n == 0 {
		t.Fatal("canceler was not canceled")
	}
}
func TestF_EachRace(t *testing.T) {
	for i := 0; i < 20000; i++ {
		m := &MultiRequest{}
		rs := []*Request{}
		for j := 0; j < 12; j++ {
			r := m.Request(1, nil)
			r.SetPending()
			r.SetInFly(nil)
			rs = append(rs, r)
		}
		for _, r := range rs[:10] {
			r.RespondBytes(0, nil)
		}
		start := make(chan bool)
		go func() {
			defer func() {
				if e := recover(); e != nil {
					t.Error(e)
				}
			}()
			<-start
			rs[10].RespondBytes(0, nil)
			rs[11].RespondBytes(0, nil)
		}()
		func() {
			defer func() {
				if e := recover(); e != nil {
					t.Error(e)
				}
			}()
			close(start)
			for range m.Each() {
			}
		}()
		if t.Failed() {
			return
		}
	}
}
func TestF_EachRegistered(t *testing.T) {
	c := &Context{}
	m := c.NewMulti()
	r := m.Request(1, nil)
	r.SetPending()
	r.SetInFly(nil)
	r.RespondBytes(0, nil)
	for range m.Each() {
	}
	within(t, c.Cancel)
}
func TestF_TimerWakeup(t *testing.T) {
	/* the timer callback must not signal while the loop is between arming the timer and Wait */
	h := &tHeap{i: 99}
	h.c.L = &h.m
	h.h = make([]tItem, 1, 256)
	go h.loop()
	time.Sleep(50 * time.Millisecond)
	n := 0
	for i := 0; i < 200000; i++ {
		r := &exp{ch: make(chan bool, 1)}
		r.t.h = 1
		h.m.Lock()
		top := h.push(r, NowEpoch().Add(time.Microsecond))
		if top {
			h.c.Signal()
		}
		h.m.Unlock()
		select {
		case <-r.ch:
		case <-time.After(500 * time.Millisecond):
			n++
		}
		if n > 0 {
			t.Fatal("lost wakeup at ", i)
		}
	}
}

type exp struct {
	t  Timer
	ch chan bool
}

func (e *exp) Timer() *Timer { return &e.t }
func (e *exp) Expire()       { e.ch <- true }
func TestF_FailAll(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	for i := 0; i < 20000; i++ {
		m := &MultiRequest{}
		rs := []*Request{}
		for j := 0; j < 12; j++ {
			r := m.Request(1, nil)
			r.SetPending()
			r.SetInFly(nil)
			rs = append(rs, r)
		}
		go func() {
			for _, r := range rs {
				r.RespondBytes(0, nil)
			}
		}()
		m.Cancel()
	}
}
func TestF_MultiTimerLeft(t *testing.T) {
	for k := 0; k < 2; k++ {
		m := &MultiRequest{}
		m.SetTimeout(time.Hour)
		r := m.Request(1, Body{1})
		r.SetPending()
		r.SetInFly(nil)
		r.Respond(RcOK, Body{})
		if k == 0 {
			for range m.Each() {
			}
		} else {
			m.Results()
		}
		if m.timer.i != 0 {
			t.Fatal("timer of a completed multi request is still armed", k)
		}
	}
}

func TestF_TakenTwice(t *testing.T) {
	for i := 0; i < 300000; i++ {
		r := &Request{Responder: Callback(func(*Response) {})}
		r.SetPending()
		var n int32
		var wg, go_ sync.WaitGroup
		wg.Add(2)
		go_.Add(1)
		take := func(m RequestBookmark) {
			go_.Wait()
			if r.SetInFly(m) {
				atomic.AddInt32(&n, 1)
			}
			wg.Done()
		}
		go take(nil)
		go take(&Bookmark{})
		go_.Done()
		wg.Wait()
		if n != 1 {
			t.Fatal("taken", n, "times")
		}
	}
}

// Two goroutines wait for the same context; both must be woken.
func TestF_WaitAllTwice(t *testing.T) {
	c := &Context{}
	child, _ := c.Child()
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() { c.WaitAll(); wg.Done() }()
	}
	time.Sleep(50 * time.Millisecond)
	child.Done()
	within(t, wg.Wait)
}
