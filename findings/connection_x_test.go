package connection

import (
	"net"
	"testing"
	"time"

	"github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
)

func noPanic(t *testing.T, f func()) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatalf("panic: %v", e)
		}
	}()
	f()
}
func TestF_UnknownId(t *testing.T) {
	noPanic(t, func() {
		var h RequestHolder
		h.init()
		r := h.getNext(nil)
		h.remove(777777)
		h.remove(r.fakeId)
		h.remove(1)
		if h.put != 1 {
			t.Fatal(h.put)
		}
	})
}
func TestF_RunWithConn(t *testing.T) {
	l, _ := net.Listen("tcp", "127.0.0.1:0")
	defer l.Close()
	c, _ := net.Dial("tcp", l.Addr().String())
	s, _ := l.Accept()
	errs := make(chan Error, 10)
	conn := NewConnection(&CConf{ConnErr: errs, RetCodeType: nt.RC4byte}, 1)
	ch := make(chan *iproto.Request, 10)
	defer close(ch)
	bal := &iproto.BalancerPoint{}
	bal.Init()
	_ = bal
	defer s.Close()
	done := make(chan string, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				done <- "panic"
			}
		}()
		conn.conn = c.(nt.NetConn)
		conn.RunWithConn(c)
	}()
	select {
	case m := <-done:
		t.Fatal(m)
	case <-time.After(200 * time.Millisecond):
	}
}
func TestF_DialTimeout(t *testing.T) {
	errs := make(chan Error, 10)
	conn := NewConnection(&CConf{ConnErr: errs, Network: "tcp", Address: "127.0.0.1:1", DialTimeout: time.Nanosecond}, 1)
	conn.Loop()
	e := <-errs
	if ne, ok := e.Error.(net.Error); !ok || !ne.Timeout() {
		t.Fatal(e.Error)
	}
}
func TestF_SpareSlot(t *testing.T) {
	l, _ := net.Listen("tcp", "127.0.0.1:0")
	defer l.Close()
	errs := make(chan Error, 10)
	go func() {
		s, _ := l.Accept()
		var r nt.HeaderReader
		r.Init(s, 0, nt.RC4byte)
		var w nt.HeaderWriter
		w.Init(s, 0, nt.RC4byte)
		r.ReadPing()
		w.Ping()
		w.Flush()
		select {}
	}()
	conn := NewConnection(&CConf{ConnErr: errs, Network: "tcp", Address: l.Addr().String(), PingInterval: -1, DialTimeout: time.Second}, 1)
	ch := make(chan *iproto.Request, 10)
	conn.Run(ch)
	<-errs
	ch <- &iproto.Request{} /* not pending: can not be taken */
	time.Sleep(50 * time.Millisecond)
	conn.Stop()
	n := 0
	for n < 2 {
		select {
		case <-errs:
			n++
		case <-time.After(time.Second):
			t.Fatal("not closed", n)
		}
	}
}
