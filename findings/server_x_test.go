package server

import (
	"net"
	"testing"
	"time"

	"github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
)

func within(t *testing.T, f func()) {
	ch := make(chan bool)
	go func() { f(); close(ch) }()
	select {
	case <-ch:
	case <-time.After(2 * time.Second):
		t.Fatal("does not end")
	}
}
func pipe(t *testing.T) (nt.NetConn, *net.TCPConn) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	c, _ := net.Dial("tcp", l.Addr().String())
	s, _ := l.Accept()
	return s.(nt.NetConn), c.(*net.TCPConn)
}
func mk(t *testing.T) (*Server, *Connection, *net.TCPConn) {
	cfg := &Config{EndPoint: iproto.SF(func(r *iproto.Request) {})}
	s := cfg.NewServer()
	a, b := pipe(t)
	return s, NewConnection(s, a, 1), b
}
func TestF_RespondBlocks(t *testing.T) {
	_, c, _ := mk(t)
	within(t, func() {
		for i := uint32(1); i < 200; i++ {
			c.inFly[i] = &iproto.Request{}
			c.Respond(&iproto.Response{Id: i})
		}
	})
}
func TestF_DoubleClose(t *testing.T) {
	_, c, _ := mk(t)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				t.Error(e)
			}
		}()
		c.controlLoop()
	}()
	c.loopNotify <- readClosed
	c.loopNotify <- inFlyEmpty
	time.Sleep(100 * time.Millisecond)
}
func TestF_ClosedTwice(t *testing.T) {
	s, c, _ := mk(t)
	n := 0
	go c.controlLoop()
	go func() { c.loopNotify <- writeClosed; c.loopNotify <- readClosed }()
	for {
		select {
		case <-s.connClosed:
			n++
			continue
		case <-time.After(200 * time.Millisecond):
		}
		break
	}
	if n != 1 {
		t.Fatal(n)
	}
}
func TestF_PingAfterWriter(t *testing.T) {
	_, c, b := mk(t)
	done := make(chan bool)
	go func() { c.readLoop(); close(done) }()
	var w nt.HeaderWriter
	w.Init(b, 0, nt.RC4byte)
	for i := 0; i < 200; i++ {
		w.Ping()
	}
	w.Flush()
	b.CloseWrite()
	select {
	case <-done:
	case <-time.After(2 * time.Second):
		t.Fatal("readLoop stuck")
	}
}
func TestF_StopAgain(t *testing.T) {
	cfg := &Config{Network: "tcp", Address: "127.0.0.1:0", EndPoint: iproto.SF(func(r *iproto.Request) {})}
	s := cfg.NewServer()
	if err := s.Run(); err != nil {
		t.Fatal(err)
	}
	within(t, func() {
		for i := 0; i < 3; i++ {
			s.Stop()
			time.Sleep(10 * time.Millisecond)
		}
	})
}
