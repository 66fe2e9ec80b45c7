package marshal

import (
	"bytes"
	"reflect"
	"testing"
	"time"
)

func noPanic(t *testing.T, f func()) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatalf("panic: %v", e)
		}
	}()
	f()
}
func within(t *testing.T, f func()) {
	ch := make(chan bool)
	go func() { f(); close(ch) }()
	select {
	case <-ch:
	case <-time.After(2 * time.Second):
		t.Fatal("does not end")
	}
}
func roundtrip(t *testing.T, v interface{}) {
	noPanic(t, func() {
		b := Write(v)
		p := reflect.New(reflect.TypeOf(v))
		r := Reader{Body: b}
		if err := r.Read(p.Interface()); err != nil {
			t.Fatalf("%+v % x: %v", v, b, err)
		}
		if len(r.Body) != 0 || !reflect.DeepEqual(p.Elem().Interface(), v) {
			t.Fatalf("%+v % x -> %+v rest % x", v, b, p.Elem().Interface(), r.Body)
		}
	})
}
func TestF_Float64sl(t *testing.T) { roundtrip(t, []float64{1.5, 2.25, -3}) }
func TestF_IntUint64(t *testing.T) {
	roundtrip(t, struct {
		S string `iproto:"size(i64)"`
	}{"abc"})
}
func TestF_Varsize128(t *testing.T) {
	v := struct {
		S struct {
			A uint64 `iproto:"ber"`
		} `iproto:"size(ber)"`
	}{}
	v.S.A = 128
	if varu64size(128) != 2 || Varsize(128) != 2 {
		t.Fatal(varu64size(128), Varsize(128))
	}
	type T struct {
		A uint64 `iproto:"ber,size(i8)"`
	}
	roundtrip(t, T{128})
}
func TestF_NegativeSize(t *testing.T) {
	noPanic(t, func() {
		var s string
		r := Reader{Body: bytes.Repeat([]byte{0xff}, 9)}
		r.Body = append(r.Body, 0x7f)
		r.Body = []byte{0x81, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}
		if err := r.ReadWithSize(&s, (*Reader).Intvar); err == nil {
			t.Fatal("no error")
		}
		var v struct {
			A []uint16 `iproto:"cnt(ber)"`
		}
		if err := Read([]byte{0x81, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}, &v); err == nil {
			t.Fatal("no error")
		}
	})
}

type myBytes []byte
type myU16 []uint16

func TestF_SliceTail(t *testing.T) {
	noPanic(t, func() {
		var v struct {
			A uint8
			B []uint16 `iproto:"size(no)"`
		}
		if err := ReadTail([]byte{1, 2, 0, 3, 0}, &v); err != nil || len(v.B) != 2 {
			t.Fatal(err, v)
		}
		var w struct {
			A uint8
			B myBytes `iproto:"size(no)"`
		}
		if err := ReadTail([]byte{1, 2, 0, 3, 0}, &w); err != nil || len(w.B) != 4 {
			t.Fatal(err, w)
		}
	})
}
func TestF_PtrTail(t *testing.T) {
	var v struct {
		A uint8
		B *[]uint16 `iproto:"size(no)"`
	}
	if err := ReadTail([]byte{1, 2, 0, 3, 0}, &v); err != nil || v.B == nil || len(*v.B) != 2 {
		t.Fatal(err, v)
	}
}
func TestF_PtrAuto(t *testing.T) {
	s := "abc"
	l := []uint16{1, 2}
	var s1 string
	var l1 []uint16
	type T struct {
		S *string
		L *[]uint16
		I interface{}
	}
	b := Write(T{&s, &l, &l})
	v := T{&s1, &l1, &[]uint16{}}
	if err := Read(b, &v); err != nil || s1 != s || len(l1) != 2 || len(*v.I.(*[]uint16)) != 2 {
		t.Fatal(err, s1, l1)
	}
}
func TestF_NilPtrWrite(t *testing.T) {
	noPanic(t, func() {
		Write(struct {
			A uint8
			P *uint32
		}{})
	})
}

type cnter struct{ n int }

func (c *cnter) IRead(self interface{}, r *Reader) {
	for i := 0; i < c.n; i++ {
		r.Uint8()
	}
}
func (c *cnter) ISetCount(self interface{}, n int) error { c.n = n; return nil }
func TestF_PtrSetCounter(t *testing.T) {
	noPanic(t, func() {
		var v struct {
			A cnter `iproto:"cnt(i8)"`
		}
		r := Reader{Body: []byte{2, 1, 1}}
		if err := r.Read(&v); err != nil || len(r.Body) != 0 {
			t.Fatal(err)
		}
	})
}
func TestF_StructSize(t *testing.T) {
	type In struct {
		A uint8
		B string
	}
	roundtrip(t, In{1, "abc"})
	roundtrip(t, struct{ X In }{In{1, "abc"}})
	roundtrip(t, struct {
		X In `iproto:"size(i8)"`
	}{In{1, "abc"}})
	roundtrip(t, struct {
		X struct {
			A uint32 `iproto:"cnt(i8)"`
		} `iproto:"size(i8)"`
	}{})
}
func TestF_BerArray(t *testing.T) {
	roundtrip(t, struct {
		A [2]uint32 `iproto:"ber"`
		B uint8
	}{[2]uint32{1, 300}, 7})
}
func TestF_BerPtr(t *testing.T) {
	u := uint32(300)
	roundtrip(t, struct {
		A *uint32 `iproto:"ber,size(i8)"`
		B uint8
	}{&u, 7})
}
func TestF_ReadWithSize(t *testing.T) {
	var u uint32
	r := Reader{Body: []byte{2, 1, 1, 1, 1}}
	if r.ReadWithSize(&u, (*Reader).Intvar) == nil {
		t.Fatal("no error")
	}
	var v struct{ A, B uint8 }
	r = Reader{Body: []byte{2, 1, 1}}
	if err := r.ReadWithSize(&v, (*Reader).Intvar); err != nil || len(r.Body) != 0 {
		t.Fatal(err, r.Body)
	}
}
func TestF_ReadValue(t *testing.T) {
	noPanic(t, func() {
		var u uint32
		r := Reader{Body: []byte{2, 0, 0, 0}}
		if err := r.Read(reflect.ValueOf(&u)); err != nil || u != 2 {
			t.Fatal(err, u)
		}
	})
}
func TestF_SizedInterface(t *testing.T) {
	noPanic(t, func() {
		var v struct {
			A interface{} `iproto:"size(i8)"`
		}
		v.A = new(uint8)
		if err := Read([]byte{0}, &v); err != nil {
			t.Fatal(err)
		}
		var c struct {
			A interface{} `iproto:"cnt(i8)"`
		}
		if err := Read([]byte{0}, &c); err != nil {
			t.Fatal(err)
		}
		if err := Read([]byte{1, 1}, &c); err == nil {
			t.Fatal("no error")
		}
	})
}
func TestF_WriteNilWithSize(t *testing.T) {
	w := &Writer{}
	w.WriteWithSize(nil, (*Writer).Intvar)
	if len(w.Written()) != 1 {
		t.Fatal()
	}
}
func TestF_CountAlloc(t *testing.T) {
	var l []int64
	n := testing.AllocsPerRun(1, func() {
		Read([]byte{0xff, 0xff, 0xff, 0x0f}, &l)
	})
	_ = n
	if len(l) != 0 {
		t.Fatal(len(l))
	}
}
func TestF_SizeMultiple(t *testing.T) {
	var v struct {
		A []uint16 `iproto:"size(i8)"`
		B uint8
	}
	r := Reader{Body: []byte{3, 1, 0, 9, 7}}
	if r.Read(&v) == nil {
		t.Fatal("no error", v)
	}
}
func TestF_TailNilPtr(t *testing.T) {
	within(t, func() {
		var v struct {
			A []*uint16 `iproto:"size(no)"`
		}
		r := Reader{Body: []byte{3, 1, 0, 9, 7}}
		done := make(chan bool)
		go func() {
			select {
			case <-done:
			case <-time.After(time.Second):
				panic("does not end")
			}
		}()
		r.ReadTail(&v)
		close(done)
	})
}
func TestF_EmptyElems(t *testing.T) {
	roundtrip(t, struct {
		A []struct{}
		B uint8
	}{make([]struct{}, 2), 7})
}
func TestF_Tag(t *testing.T) {
	type T struct {
		A uint8 `sbox:"x"`
	}
	if ReaderFor(reflect.TypeOf(T{})).Flds[0].Tag.Get("sbox") != "x" {
		t.Fatal()
	}
}
func TestF_StringPtrCount(t *testing.T) {
	s := "abc"
	roundtrip(t, struct {
		A *string `iproto:"cnt(i8)"`
	}{&s})
}
