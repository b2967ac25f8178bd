package main

// What a user does to the values he holds: editing them in place, copying
// them, writing into the byte strings the library returned.

import (
	"reflect"
	"time"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

var timeType = reflect.TypeOf(time.Time{})

// bookkeeping of the library, not content
func internal(f reflect.StructField) bool {
	return f.PkgPath != "" || f.Name == "XMLName" || f.Name == "JSONType"
}

// assign makes dst hold the content of src, in place where possible.
func assign(dst, src reflect.Value) {
	switch dst.Kind() {
	case reflect.Struct:
		if dst.Type() == timeType {
			dst.Set(src)
			return
		}
		for i := 0; i < dst.NumField(); i++ {
			if !internal(dst.Type().Field(i)) {
				assign(dst.Field(i), src.Field(i))
			}
		}
	case reflect.Pointer:
		if dst.IsNil() || src.IsNil() {
			dst.Set(src)
			return
		}
		assign(dst.Elem(), src.Elem())
	case reflect.Interface:
		if dst.IsNil() || src.IsNil() || dst.Elem().Type() != src.Elem().Type() {
			dst.Set(src)
			return
		}
		assign(dst.Elem().Elem(), src.Elem().Elem())
	case reflect.Slice:
		old, n := dst.Len(), src.Len()
		if n > dst.Cap() || old == 0 {
			dst.Set(src)
			return
		}
		dst.SetLen(n)
		for i := 0; i < n; i++ {
			if i < old {
				assign(dst.Index(i), src.Index(i))
			} else {
				dst.Index(i).Set(src.Index(i))
			}
		}
	default:
		dst.Set(src)
	}
}

// smash changes everything that can be reached from v.
func smash(v reflect.Value) {
	switch v.Kind() {
	case reflect.Struct:
		if v.Type() == timeType {
			v.Set(reflect.ValueOf(v.Interface().(time.Time).Add(time.Second)))
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); !internal(f) && f.Name != "Type" && f.Name != "SegmentationTypeID" {
				smash(v.Field(i))
			}
		}
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			e := v.Elem()
			if e.Kind() == reflect.Pointer {
				e = e.Elem()
			}
			smash(e)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			smash(v.Index(i))
		}
	case reflect.Uint8, reflect.Uint32, reflect.Uint64:
		v.SetUint(v.Uint() ^ 1)
	case reflect.Bool:
		v.SetBool(!v.Bool())
	}
}

// junk sets the bookkeeping fields of a command or descriptor, which a user
// may have copied from elsewhere.
func junk(x any, n int) {
	v := reflect.ValueOf(x)
	if v.Kind() != reflect.Pointer || v.IsNil() {
		return
	}
	if f := v.Elem().FieldByName("JSONType"); f.IsValid() && f.CanSet() {
		f.SetUint(uint64(n))
	}
}

// edit makes slot i hold v by changing the value it already holds.
func (x *session) edit(i int, v Val) {
	if x.slots[i] == nil || x.linked(i) {
		x.put(i, v)
		return
	}
	x.call("edit", i, "", func(e event) {
		assign(reflect.ValueOf(x.slots[i]).Elem(), reflect.ValueOf(build(v)).Elem())
	})
}

// smash slot i.
func (x *session) smash(i int) {
	if x.slots[i] != nil && !x.linked(i) {
		x.call("edit", i, "", func(e event) { smash(reflect.ValueOf(x.slots[i]).Elem()) })
	}
}

// junk puts arbitrary values into the bookkeeping fields of slot i.
func (x *session) junk(i, n int) {
	if x.slots[i] == nil {
		return
	}
	x.call("look", i, "", func(e event) {
		if x.slots[i].SpliceCommand != nil {
			junk(x.slots[i].SpliceCommand, n)
		}
		for _, d := range x.slots[i].SpliceDescriptors {
			junk(d, n)
		}
	})
}

// copy the value of slot i to slot j, as an assignment in Go does.
func (x *session) copy(i, j int) {
	if x.slots[i] == nil || i == j {
		return
	}
	x.call("copy", j, "", func(e event) {
		e["from"] = i + 1
		c := *x.slots[i]
		x.slots[j] = &c
	})
	x.in[j] = nil
	x.links++
	x.link[i], x.link[j] = x.links, x.links
}

// linked says whether another slot is a copy of slot i, so that they share what
// they point to.
func (x *session) linked(i int) bool {
	for j := range x.slots {
		if j != i && x.link[i] != 0 && x.link[j] == x.link[i] {
			return true
		}
	}
	return false
}

// scribbleOut overwrites what the last encode or marshal of slot i returned.
func (x *session) scribbleOut() {
	if len(x.held) == 0 {
		return
	}
	x.call("look", 0, "", func(e event) {
		h := x.held[len(x.held)-1]
		x.held = x.held[:len(x.held)-1]
		for k := range h.b {
			h.b[k] ^= 0x5a
		}
	})
}

// bytes converts between private bytes and their text, into a value that
// somebody still looks at.
func (x *session) bytes(first, b []byte, text string) {
	x.call("bytes", 0, text, func(e event) {
		e["b"], e["out"], e["in"], e["got"], e["err"], e["same"] = x.buf(b), 0, x.buf([]byte(text)), 0, "", false
		v := scte35.Bytes(append([]byte{}, first...))
		held := v
		t, err := scte35.Bytes(b).MarshalText()
		if err != nil {
			panic(err)
		}
		e["out"] = x.buf(t)
		err = v.UnmarshalText([]byte(text))
		e["err"] = errName(err)
		if err == nil {
			e["got"] = x.buf(v)
		}
		e["same"] = string(held) == string(first)
	})
}
