package main

import (
	"reflect"
)

// hashing of the whole state of a BDD, by reflection: everything that is
// reachable from it except functions, channels and the counters that only feed
// the statistics.

var statFields = map[string]bool{
	"produced": true, "uniqueAccess": true, "uniqueHit": true, "uniqueMiss": true, "uniqueChain": true,
	"opHit": true, "opMiss": true, "setfinalizers": true, "calledfinalizers": true, "hbuff": true, "freenodes": true,
}

type hasher struct {
	h    uint64
	seen map[uintptr]uint64
}

func mix(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 32
	return h
}

func hashOf(x any) uint64 {
	h := &hasher{seen: map[uintptr]uint64{}}
	return h.value(reflect.ValueOf(x), 0)
}

func (h *hasher) value(v reflect.Value, d int) uint64 {
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return 3
		}
		return 5
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return uint64(v.Int()) + 7
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return v.Uint() + 11
	case reflect.String:
		r := uint64(13)
		for _, c := range []byte(v.String()) {
			r = mix(r, uint64(c))
		}
		return r
	case reflect.Pointer:
		if v.IsNil() {
			return 17
		}
		p := v.Pointer()
		if r, ok := h.seen[p]; ok {
			return r
		}
		h.seen[p] = uint64(len(h.seen)) + 19
		return h.value(v.Elem(), d+1)
	case reflect.Interface:
		if v.IsNil() {
			return 23
		}
		return mix(29, h.value(v.Elem(), d+1))
	case reflect.Struct:
		r := uint64(31)
		t := v.Type()
		for i := 0; i < v.NumField(); i++ {
			if statFields[t.Field(i).Name] {
				continue
			}
			r = mix(r, h.value(v.Field(i), d+1))
		}
		return r
	case reflect.Slice, reflect.Array:
		r := mix(37, uint64(v.Len()))
		for i := 0; i < v.Len(); i++ {
			r = mix(r, h.value(v.Index(i), d+1))
		}
		return r
	case reflect.Map:
		var r uint64 = 41
		it := v.MapRange()
		for it.Next() {
			r += mix(h.value(it.Key(), d+1), h.value(it.Value(), d+1))
		}
		return r
	}
	return 43
}
