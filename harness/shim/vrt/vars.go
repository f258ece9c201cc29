package vrt

import (
	"reflect"
	"strings"
	"unsafe"
)

// The variables of the packages are what they were at the start of the process whenever an execution begins.

var restores []func()

// SimVars takes note of the values of variables, given by their addresses.
func SimVars(ps ...interface{}) {
	for _, p := range ps {
		restores = append(restores, remember(reflect.ValueOf(p).Elem(), map[unsafe.Pointer]bool{}))
	}
}

// SimRestore gives the variables the values they had.
func SimRestore() {
	for _, f := range restores {
		f()
	}
}

// ours tells whether values of a type are made of what the packages declare.
func ours(t reflect.Type) bool {
	p := t.PkgPath()
	return p == "" || strings.Contains(p, "/ouro/")
}

// remember returns a function that restores a value that can be addressed, and what it leads to.
func remember(v reflect.Value, seen map[unsafe.Pointer]bool) func() {
	v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	was := reflect.New(v.Type()).Elem()
	was.Set(v)
	fs := []func(){}
	switch v.Kind() {
	case reflect.Struct:
		if ours(v.Type()) {
			for i := 0; i < v.NumField(); i++ {
				fs = append(fs, remember(v.Field(i), seen))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len() && i < 64; i++ {
			fs = append(fs, remember(v.Index(i), seen))
		}
	case reflect.Slice:
		l := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		reflect.Copy(l, v)
		fs = append(fs, func() { reflect.Copy(was, l) })
		for i := 0; i < v.Len() && i < 64; i++ {
			fs = append(fs, remember(v.Index(i), seen))
		}
	case reflect.Map:
		if v.IsNil() {
			break
		}
		type entry struct{ k, v reflect.Value }
		l := []entry{}
		for it := v.MapRange(); it.Next(); {
			l = append(l, entry{it.Key(), it.Value()})
		}
		fs = append(fs, func() {
			for _, k := range was.MapKeys() {
				was.SetMapIndex(k, reflect.Value{})
			}
			for _, e := range l {
				was.SetMapIndex(e.k, e.v)
			}
		})
	case reflect.Ptr:
		if p := unsafe.Pointer(v.Pointer()); !v.IsNil() && ours(v.Type().Elem()) && !seen[p] {
			seen[p] = true
			fs = append(fs, remember(v.Elem(), seen))
		}
	}
	return func() {
		v.Set(was)
		for _, f := range fs {
			f()
		}
	}
}
