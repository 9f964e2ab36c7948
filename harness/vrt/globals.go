package vrt

import (
	"reflect"
	"strings"
	"unsafe"
)

// The package-level variables of the instrumented copy and what is reachable
// from them are put back, in place, to what they were when main started, so
// that each execution begins like a new program.

var globals []reflect.Value

// Global registers a package-level variable; p is its address.
func Global(p any) { globals = append(globals, reflect.ValueOf(p)) }

type block struct {
	live  reflect.Value // addressable
	saved reflect.Value // a copy
}

type mapblock struct {
	m      reflect.Value
	keys   []reflect.Value
	values []reflect.Value
}

var (
	blocks []block
	maps   []mapblock
)

type blockKey struct {
	p unsafe.Pointer
	t reflect.Type
}

// SaveGlobals records the present state.
func SaveGlobals() {
	seen := map[blockKey]bool{}
	seenMap := map[unsafe.Pointer]bool{}
	var visit func(p unsafe.Pointer, t reflect.Type)
	save := func(p unsafe.Pointer, t reflect.Type) {
		k := blockKey{p, t}
		if p == nil || t.Size() == 0 || seen[k] {
			return
		}
		seen[k] = true
		v := reflect.NewAt(t, p).Elem()
		c := reflect.New(t).Elem()
		c.Set(v)
		blocks = append(blocks, block{v, c})
		visit(p, t)
	}
	visit = func(p unsafe.Pointer, t reflect.Type) {
		v := reflect.NewAt(t, p).Elem()
		switch t.Kind() {
		case reflect.Struct:
			if foreign(t) {
				return
			}
			for i := 0; i < t.NumField(); i++ {
				visit(unsafe.Add(p, t.Field(i).Offset), t.Field(i).Type)
			}
		case reflect.Array:
			for i := 0; i < t.Len(); i++ {
				visit(unsafe.Add(p, uintptr(i)*t.Elem().Size()), t.Elem())
			}
		case reflect.Pointer:
			if !v.IsNil() && (!foreign(t.Elem()) || data[t.Elem().PkgPath()]) {
				save(v.UnsafePointer(), t.Elem())
			}
		case reflect.Slice:
			if v.Cap() > 0 && !foreign(t.Elem()) {
				save(v.UnsafePointer(), reflect.ArrayOf(v.Cap(), t.Elem()))
			}
		case reflect.Interface:
			if !v.IsNil() {
				if e := v.Elem(); e.Kind() == reflect.Pointer && !e.IsNil() && !foreign(e.Type().Elem()) {
					save(e.UnsafePointer(), e.Type().Elem())
				}
			}
		case reflect.Map:
			if v.IsNil() || seenMap[v.UnsafePointer()] {
				return
			}
			seenMap[v.UnsafePointer()] = true
			mb := mapblock{m: reflect.New(t).Elem()}
			mb.m.Set(v)
			for it := v.MapRange(); it.Next(); {
				// copies, from which pointers are followed
				k, e := reflect.New(t.Key()), reflect.New(t.Elem())
				k.Elem().Set(it.Key())
				e.Elem().Set(it.Value())
				mb.keys = append(mb.keys, k.Elem())
				mb.values = append(mb.values, e.Elem())
				visit(k.UnsafePointer(), t.Key())
				visit(e.UnsafePointer(), t.Elem())
			}
			maps = append(maps, mb)
		}
	}
	for _, g := range globals {
		save(g.UnsafePointer(), g.Type().Elem())
	}
}

// data lists packages whose objects can be overwritten.
var data = map[string]bool{"bytes": true, "sync": true, "sync/atomic": true, "math/rand": true, "container/list": true}

// foreign tells if t belongs to the standard library; such objects are copied
// but not entered.
func foreign(t reflect.Type) bool {
	p := t.PkgPath()
	return p != "" && p != "math/big" && !strings.Contains(p, "rudd") && !strings.HasPrefix(p, "verif/")
}

// ResetGlobals puts everything back to what SaveGlobals recorded.
func ResetGlobals() {
	for _, b := range blocks {
		b.live.Set(b.saved)
	}
	for _, m := range maps {
		m.m.Clear()
		for i := range m.keys {
			m.m.SetMapIndex(m.keys[i], m.values[i])
		}
	}
}
