package client

import (
	"net"
	"testing"
	"time"

	"github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
	"github.com/funny-falcon/go-iproto/net/client/connection"
)

func mkserv() *Server { return ServerConfig{Address: "127.0.0.1:1"}.NewServer() }
func TestF_Accounting(t *testing.T) {
	s := mkserv()
	c := connection.NewConnection(&s.CConf, 1)
	c.State = connection.CsDialing
	s.connections[1] = c
	s.dialing = 1
	s.needConns = 0
	s.fixConnections()
	s.onConnError(connection.Error{c, connection.Dial, net.ErrClosed})
	if s.dialing != 0 || s.established != 0 || s.dying != 0 {
		t.Fatal(s.dialing, s.established, s.dying)
	}
}
func TestF_Revive(t *testing.T) {
	s := mkserv()
	s.exiting = true
	s.onAction(action{kind: setServ, servs: 5})
	if s.needConns != 0 {
		t.Fatal()
	}
}
func TestF_QueuedOnStop(t *testing.T) {
	s := mkserv()
	iproto.Run(s)
	time.Sleep(50 * time.Millisecond)
	ch := make(iproto.Chan, 1)
	s.Stop()
	time.Sleep(500 * time.Millisecond)
	s.Send(&iproto.Request{Responder: ch})
	select {
	case <-ch:
	case <-time.After(time.Second):
		t.Fatal("no answer")
	}
}
func TestF_DyingInFly(t *testing.T) {
	l, _ := net.Listen("tcp", "127.0.0.1:0")
	defer l.Close()
	go func() {
		for {
			s, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				var r nt.HeaderReader
				r.Init(s, 0, nt.RC4byte)
				var w nt.HeaderWriter
				w.Init(s, 0, nt.RC4byte)
				r.ReadPing()
				w.Ping()
				w.Flush()
				time.Sleep(time.Second)
				s.Close()
			}()
		}
	}()
	s := ServerConfig{Address: l.Addr().String(), PingInterval: -1, Connections: 8}.NewServer()
	iproto.Run(s)
	time.Sleep(200 * time.Millisecond)
	chs := []iproto.Chan{}
	for i := 0; i < 200; i++ {
		ch := make(iproto.Chan, 1)
		chs = append(chs, ch)
		s.Send(&iproto.Request{Msg: 1, Responder: ch})
	}
	time.Sleep(50 * time.Millisecond)
	s.Stop()
	tm := time.After(4 * time.Second)
	for i, ch := range chs {
		select {
		case <-ch:
		case <-tm:
			t.Fatal("not answered", i)
		}
	}
}
