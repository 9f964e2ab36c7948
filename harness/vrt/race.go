package vrt

import (
	"fmt"
	"reflect"
	"unsafe"
)

// Data races between the threads of a scheduled execution, found with vector
// clocks. Only the accesses that the instrumented code reports are looked at:
// those to package-level variables and to maps (mode schedg).

const maxThreads = 4

type clock [maxThreads]uint32

func (c *clock) join(d *clock) {
	for i := range c {
		if d[i] > c[i] {
			c[i] = d[i]
		}
	}
}

func acquire(c *clock) {
	if S != nil && S.cur.id < maxThreads {
		S.clocks[S.cur.id].join(c)
	}
}

func release(c *clock) {
	if S != nil && S.cur.id < maxThreads {
		t := S.cur.id
		c.join(&S.clocks[t])
		S.clocks[t][t]++
	}
}

// Sync is called before a statement with an atomic operation; all of them are
// taken to be ordered.
func Sync() {
	if S != nil {
		acquire(&S.synced)
		release(&S.synced)
	}
}

var strange bool

// Strange is called when the code synchronizes in ways that are not modelled:
// no data races are reported.
func Strange() { strange = true }

type shadow struct {
	w, r         clock
	wwhat, rwhat [maxThreads]string
}

func (s *Sched) access(p unsafe.Pointer, write bool, what string) {
	t := s.cur.id
	if strange || p == nil || t >= maxThreads || s.Race != "" {
		return
	}
	sh := s.shadows[p]
	if sh == nil {
		sh = &shadow{}
		s.shadows[p] = sh
	}
	for u := range sh.w {
		if u == t {
			continue
		}
		now := s.clocks[t][u]
		if sh.w[u] > now {
			s.Race = fmt.Sprintf("data race: T%d writes %s and T%d uses %s without any order between them", u, sh.wwhat[u], t, what)
		} else if write && sh.r[u] > now {
			s.Race = fmt.Sprintf("data race: T%d reads %s and T%d writes %s without any order between them", u, sh.rwhat[u], t, what)
		}
	}
	if write {
		sh.w[t], sh.wwhat[t] = s.clocks[t][t], what
	} else {
		sh.r[t], sh.rwhat[t] = s.clocks[t][t], what
	}
}

// Acc reports an access to *p.
func Acc[T any](p *T, write bool, what string) {
	if S != nil && unsafe.Sizeof(*p) > 0 {
		S.access(unsafe.Pointer(p), write, what)
	}
}

// AccElem reports an access to s[i].
func AccElem[E any, I ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64](s []E, i I, write bool, what string) {
	if S != nil && i >= 0 && uint64(i) < uint64(len(s)) && unsafe.Sizeof(s[i]) > 0 {
		S.access(unsafe.Pointer(&s[i]), write, what)
	}
}

// AccMap reports an access to the elements of a map.
func AccMap(m func() any, write bool, what string) {
	if S == nil {
		return
	}
	defer func() { recover() }()
	if v := reflect.ValueOf(m()); v.Kind() == reflect.Map && !v.IsNil() {
		S.access(unsafe.Add(v.UnsafePointer(), 1), write, what)
	}
}
