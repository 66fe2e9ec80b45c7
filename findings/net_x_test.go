package net

import (
	"bytes"
	"testing"
	"testing/iotest"

	"github.com/funny-falcon/go-iproto"
)

func TestF_WriteByte(t *testing.T) {
	var b bytes.Buffer
	var w HeaderWriter
	w.Init(&b, 0, RC1byte)
	w.WriteResponse(Response{Msg: 1, Id: 2, Code: 3, Body: []byte("abc")})
	w.Flush()
	if b.Len() != 12+4 || b.Bytes()[4] != 4 {
		t.Fatal(b.Bytes())
	}
}
func TestF_PingResponse(t *testing.T) {
	var b bytes.Buffer
	var w HeaderWriter
	w.Init(&b, 0, RC4byte)
	w.WriteResponse(Response{Msg: iproto.Ping, Id: 2})
	w.Flush()
	if b.Len() != 12 {
		t.Fatal(b.Bytes())
	}
}
func TestF_ReadByte(t *testing.T) {
	b := bytes.NewBuffer([]byte{1, 0, 0, 0, 2, 0, 0, 0, 9, 0, 0, 0, 7, 5})
	var r HeaderReader
	r.Init(iotest.OneByteReader(b), 0, RC1byte)
	res, err := r.ReadResponse()
	if err != nil || res.Code != 7 || res.Body[0] != 5 {
		t.Fatal(res, err)
	}
}
func TestF_Append(t *testing.T) {
	b := bytes.NewBuffer([]byte{1, 0, 0, 0, 1, 0, 0, 0, 9, 0, 0, 0, 7, 1, 0, 0, 0, 1, 0, 0, 0, 8, 0, 0, 0, 7})
	var r HeaderReader
	r.Init(b, 0, RC1byte)
	q, _ := r.ReadRequest()
	_ = append(q.Body, 0xff, 0xff)
	q, _ = r.ReadRequest()
	if q.Msg != 1 {
		t.Fatal(q)
	}
}
