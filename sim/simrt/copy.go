package simrt

import (
	"reflect"
	"unsafe"
)

// A copy of a struct is not one step: other tasks may run between its fields.

type part struct {
	off uintptr
	typ reflect.Type
}

var partsOf = map[reflect.Type][]part{}

func parts(t reflect.Type) []part {
	if ps, ok := partsOf[t]; ok {
		return ps
	}
	var ps []part
	var add func(t reflect.Type, off uintptr)
	add = func(t reflect.Type, off uintptr) {
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.Type.Kind() == reflect.Struct && f.Anonymous {
				add(f.Type, off+f.Offset)
				continue
			}
			ps = append(ps, part{off + f.Offset, f.Type})
		}
	}
	add(t, 0)
	partsOf[t] = ps
	return ps
}

func copyParts(id int, dst, src unsafe.Pointer, t reflect.Type) {
	for _, p := range parts(t) {
		Y(id)
		reflect.NewAt(p.typ, unsafe.Add(dst, p.off)).Elem().Set(reflect.NewAt(p.typ, unsafe.Add(src, p.off)).Elem())
	}
}

// Load is *p, field by field.
func Load[T any](id int, p *T) T {
	if !active || aborting || p == nil {
		return *p
	}
	var v T
	copyParts(id, unsafe.Pointer(&v), unsafe.Pointer(p), reflect.TypeOf(v))
	return v
}

// Store is *p = v, field by field.
func Store[T any](id int, p *T, v T) {
	if !active || aborting || p == nil {
		*p = v
		return
	}
	copyParts(id, unsafe.Pointer(p), unsafe.Pointer(&v), reflect.TypeOf(v))
}
