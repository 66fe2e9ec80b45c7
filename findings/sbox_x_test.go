package sbox

import (
	"reflect"
	"testing"

	"github.com/funny-falcon/go-iproto/marshal"
)

func noPanic(t *testing.T, f func()) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatalf("panic: %v", e)
		}
	}()
	f()
}
func TestF_FirstTruncated(t *testing.T) {
	var u uint32
	if _, _, err := ReadFirst([]byte{1}, &u); err == nil {
		t.Fatal("no error")
	}
	r := marshal.Reader{Body: []byte{9, 0, 0, 0}}
	if ReadSizedTuple(&r, nil) == nil {
		t.Fatal("no error")
	}
}
func TestF_ManyAfterBad(t *testing.T) {
	var u []uint32
	ReadMany([]byte{2, 0, 0, 0, 2, 0, 0, 0, 1, 0, 0, 0, 1, 7, 5, 0, 0, 0, 1, 0, 0, 0, 4, 9, 0, 0, 0}, &u)
	if len(u) != 2 || u[1] != 9 {
		t.Fatal(u)
	}
}
func TestF_TooManyFields(t *testing.T) {
	noPanic(t, func() {
		var a [1]uint32
		r := marshal.Reader{Body: []byte{2, 0, 0, 0, 4, 1, 0, 0, 0, 4, 2, 0, 0, 0}}
		ReadRawTuple(&r, &a)
	})
}
func TestF_Alloc(t *testing.T) {
	var a []uint32
	r := marshal.Reader{Body: []byte{0xff, 0xff, 0xff, 0x0f}}
	if ReadRawTuple(&r, &a) == nil || len(a) != 0 {
		t.Fatal(len(a))
	}
}

type tl struct {
	A uint8
	h int
	T []uint16 `sbox:"tail"`
}
type pr struct {
	h int
	X uint8
	Y uint16
}
type ts struct {
	A uint8
	T []pr `sbox:"tailsplit"`
}

func TestF_Tail(t *testing.T) {
	noPanic(t, func() {
		for _, v := range []interface{}{tl{A: 1, T: []uint16{1, 2, 3}}, ts{1, []pr{{X: 1, Y: 2}, {X: 3, Y: 4}}}} {
			w := &marshal.Writer{}
			WriteTuple(w, v)
			b := w.Written()
			p := reflect.New(reflect.TypeOf(v))
			r := marshal.Reader{Body: b}
			if err := ReadRawTuple(&r, p.Interface()); err != nil || len(r.Body) != 0 || !reflect.DeepEqual(p.Elem().Interface(), v) {
				t.Fatal(err, b, p.Elem().Interface())
			}
		}
	})
}
func TestF_KeyCount(t *testing.T) {
	if CountKeys([]interface{}{[]int32{1, 2}, int32(1)}) != 2 {
		t.Fatal()
	}
}
func TestF_NilOp(t *testing.T) {
	noPanic(t, func() { marshal.Write(Op{Field: 1, Op: OpDelete}) })
}
