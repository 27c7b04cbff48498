//go:build sched

package sched

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

//go:linkname findObject runtime.findObject
func findObject(p, refBase, refOff uintptr) (base uintptr, s unsafe.Pointer, objIndex uintptr)

// region is a piece of memory a message owns (writable) or refers to (strings).
type region struct {
	lo, hi uintptr
	w      bool
	path   string
}

type regions []region

func (r *regions) add(p unsafe.Pointer, n uintptr, w bool, path string) {
	if n > 0 {
		*r = append(*r, region{uintptr(p), uintptr(p) + n, w, path})
	}
}

// walk collects the memory a value refers to, other than the memory of the value itself.
func (r *regions) walk(v reflect.Value, path string) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		r.add(v.UnsafePointer(), v.Type().Elem().Size(), true, path)
		r.walk(v.Elem(), path)
	case reflect.Interface:
		if !v.IsNil() {
			r.walk(v.Elem(), path)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			r.walk(v.Field(i), path+"."+v.Type().Field(i).Name)
		}
	case reflect.String:
		s := v.String()
		r.add(unsafe.Pointer(unsafe.StringData(s)), uintptr(len(s)), false, path)
	case reflect.Slice:
		r.add(v.UnsafePointer(), uintptr(v.Cap())*v.Type().Elem().Size(), true, path+"[]")
		if flat(v.Type().Elem()) {
			return
		}
		for i := 0; i < v.Len(); i++ {
			r.walk(v.Index(i), fmt.Sprintf("%s[%d]", path, i))
		}
	case reflect.Map:
		if flat(v.Type().Key()) && flat(v.Type().Elem()) {
			return
		}
		it := v.MapRange()
		for it.Next() {
			k := it.Key()
			r.walk(k, fmt.Sprintf("%s key %v", path, k))
			r.walk(it.Value(), fmt.Sprintf("%s[%v]", path, k))
		}
	}
}

func flat(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Pointer, reflect.Interface, reflect.Struct, reflect.String, reflect.Slice, reflect.Map:
		return false
	}
	return true
}

// check returns a description of two regions which overlap although one can be
// written, or of one that is not inside one object of the heap.
func (r regions) check(heap bool) string {
	sort.Slice(r, func(i, j int) bool { return r[i].lo < r[j].lo })
	var top region  // reaches furthest among all so far
	var topW region // furthest writable
	for _, x := range r {
		if x.lo < topW.hi {
			return fmt.Sprintf("%s %s overlaps %s by %d bytes", kind(x), x.path, topW.path, topW.hi-x.lo)
		}
		if x.w && x.lo < top.hi {
			return fmt.Sprintf("%s overlaps %s %s by %d bytes", x.path, kind(top), top.path, top.hi-x.lo)
		}
		if x.hi > top.hi {
			top = x
		}
		if x.w && x.hi > topW.hi {
			topW = x
		}
		if heap {
			a, _, _ := findObject(x.lo, 0, 0)
			b, _, _ := findObject(x.hi-1, 0, 0)
			if a != b {
				return fmt.Sprintf("%s (%d bytes) reaches over the end of the heap object it is in", x.path, x.hi-x.lo)
			}
		}
	}
	return ""
}

func kind(x region) string {
	if x.w {
		return "memory of"
	}
	return "string"
}

// scribble overwrites everything the owner of a message may overwrite: bytes and
// lists up to their capacity, what pointers point to, map entries.
func scribble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			scribble(v.Elem())
		}
	case reflect.Interface:
		if !v.IsNil() {
			scribble(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if !f.CanSet() { // unknown fields
				f = reflect.NewAt(f.Type(), f.Addr().UnsafePointer()).Elem()
			}
			scribble(f)
		}
	case reflect.Slice:
		if v.Cap() == 0 {
			return
		}
		n := v.Len()
		all := v.Slice(0, v.Cap())
		if flat(v.Type().Elem()) {
			sz := uintptr(v.Cap()) * v.Type().Elem().Size()
			b := unsafe.Slice((*byte)(v.UnsafePointer()), sz)
			for i := range b {
				b[i] = 0xEE
			}
			return
		}
		for i := 0; i < n; i++ {
			scribble(all.Index(i))
		}
		for i := 0; i < v.Cap(); i++ {
			all.Index(i).SetZero()
		}
	case reflect.Map:
		it := v.MapRange()
		for it.Next() {
			if e := it.Value(); e.Kind() == reflect.Pointer || e.Kind() == reflect.Slice {
				scribble(e)
			}
		}
		v.Clear()
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Int32, reflect.Int64:
		v.SetInt(-0x11111112)
	case reflect.Uint32, reflect.Uint64:
		v.SetUint(0xEEEEEEEE)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(-1)
	case reflect.String:
		v.SetString("\xEE")
	}
}
