package main

import (
	"bytes"
	"errors"
	"fmt"
	"sort"

	"github.com/dalzilio/rudd"
)

// reclaimed drops everything but the nodes in keep, and checks that a
// collection leaves exactly what is needed. It does it twice: the second time
// nothing is kept.
func (e *Env) reclaimed(fl *filler, keep []rudd.Node, what string) {
	for _, n := range keep {
		e.own[n]++
	}
	e.releaseTemps()
	for n := range e.own {
		if !in(n, keep) {
			e.drop(n)
		}
	}
	for _, n := range keep {
		e.own[n]--
	}
	fl.gc()
	e.exactlyHeld(1, what)
	s := e.Snapshot()
	e.accounting(s)
	if len(keep) > 0 {
		e.reclaimed(fl, nil, what+", nothing held")
	}
}

func in(n rudd.Node, l []rudd.Node) bool {
	for _, x := range l {
		if x == n {
			return true
		}
	}
	return false
}

func c04more(c *Ctx) {
	// R: every number of references below the maximum of the counter (1023), all
	// dropped
	const blk = 16
	for lo := 1; lo <= 1022; lo += blk {
		lo := lo
		c.Unit(fmt.Sprintf("R.%d", lo), func(u *U) {
			for r := lo; r < lo+blk && r <= 1022; r++ {
				for order := 0; order < 3; order++ {
					allrefs(u, r, order)
				}
			}
		})
	}
	// K: every call, what it leaves behind
	fs := sampleOf(12)
	if c.Thorough() {
		fs = sampleOf(40)
	}
	cs := callsOver(3, fs, fs[:7], []uint{1, 2, 4, 3, 5, 6, 7}, renamings(3))
	cs = append(cs, moreCalls(3, fs[:9])...)
	for _, p := range pressures() {
		for i := 0; i < len(cs); i += 100 {
			i, p := i, p
			c.Unit(fmt.Sprintf("K.%s.%d", p.name, i), func(u *U) {
				for k := i; k < i+100 && k < len(cs); k++ {
					for _, free := range []int{0, 1, 3, 1000} {
						leaves(u, p, cs[k], free, k)
					}
				}
			})
		}
	}
	// O: the other entry points
	var names []string
	for name := range observers {
		names = append(names, name)
	}
	sort.Strings(names)
	for _, name := range names {
		name, f := name, observers[name]
		c.Unit("O."+name, func(u *U) {
			for _, p := range pressures() {
				for t := T(0); t < 256; t++ {
					u.Reset()
					e := u.NewEnv(9, []int{1, 2, 4}, p.cfg)
					fl := e.newFiller(0)
					n, o := e.mk(t), e.mk(t*7&0xff^0x3c)
					u.T("%s on %02x (%s)", name, t, p.name)
					for k := 0; k < 3; k++ {
						f(e, n, o)
					}
					u.Eval()
					u.Nontrivial()
					e.reclaimed(fl, []rudd.Node{n}, name)
				}
			}
		})
	}
	// X: calls that fail
	ms := misuses(9)
	for i := 0; i < len(ms); i += 8 {
		i := i
		c.Unit(fmt.Sprintf("X.%d", i), func(u *U) {
			for j := i; j < i+8 && j < len(ms); j++ {
				u.Reset()
				e := u.newFull(9, []int{1, 2}, Cfg{Nodesize: 61, Cache: 31, Minfree: 1})
				fl := e.newFiller(0)
				u.T("%s, twice", ms[j].name)
				ms[j].f(e)
				ms[j].f(e)
				u.Eval()
				u.Nontrivial()
				e.reclaimed(fl, []rudd.Node{e.node[6]}, ms[j].name)
			}
		})
	}
	// L: operations that fail at the limit of nodes
	for i := 0; i < len(cs); i += 200 {
		i := i
		c.Unit(fmt.Sprintf("L.%d", i), func(u *U) {
			for k := i; k < i+200 && k < len(cs); k++ {
				for spare := 0; spare < 8; spare++ {
					if !fails(u, cs[k], spare) {
						break
					}
				}
			}
		})
	}
}

// allrefs takes r references to a node, drops them all, and expects the node
// to be reclaimed.
func allrefs(u *U, r int, order int) {
	u.Reset()
	e, fl := refEnv(u)
	refs := []rudd.Node{e.mk(0x96)}
	keep := e.mk(0xe8)
	for len(refs) < r {
		switch len(refs) % 3 {
		case 0:
			refs = append(refs, e.take(e.Retnode(*refs[0])))
		case 1:
			refs = append(refs, e.take(e.And(refs[0], e.True())))
		case 2:
			refs = append(refs, e.take(e.Or(e.False(), refs[0])))
		}
	}
	u.T("take %d references to 96, drop all, collection", r)
	switch order {
	case 0:
		for _, n := range refs {
			e.drop(n)
		}
	case 1:
		for i := range refs {
			e.drop(refs[len(refs)-1-i])
		}
	case 2:
		for i := range refs {
			if i == r/2 {
				e.releaseTemps()
				fl.gc() // a collection in between
			}
			e.drop(refs[i])
		}
	}
	u.Eval()
	u.Trans(r)
	u.Done()
	u.Nontrivial()
	u.State(mix(uint64(r), uint64(order)))
	e.reclaimed(fl, []rudd.Node{keep}, fmt.Sprintf("after %d references to a node were taken and dropped", r))
}

// leaves performs a call, and checks what is left when its operands are
// dropped, and then its result.
func leaves(u *U, p pressure, c Call, free, k int) {
	u.Reset()
	e := u.NewEnv(9, []int{1, 2, 4}, p.cfg)
	fl := e.newFiller(0)
	a := e.prepare(c)
	if free < 1000 {
		fl.fillTo(free)
	}
	u.T("%s (%s, %d free)", c.show(e), p.name, free)
	var keep []rudd.Node
	for i := 0; i < 2; i++ {
		r := e.take(e.exec(c, a))
		if r == nil {
			u.Fail("%s fails: %s", c.show(e), clip(e.Error()))
		}
		keep = append(keep, r)
	}
	u.Eval()
	u.Trans(1)
	u.Done()
	if *keep[0] > 1 {
		u.Nontrivial()
	}
	if k%2 == 0 {
		keep = keep[:1]
	} else {
		keep = append(keep, a.F...)
	}
	e.reclaimed(fl, keep, c.show(e))
}

// fails performs a call in a table that has a limit and where spare slots are
// left; it tells if the call fails.
func fails(u *U, c Call, spare int) bool {
	u.Reset()
	e := u.NewEnv(9, []int{1, 2, 4}, Cfg{Nodesize: 67, Maxnodesize: 67, Cache: 7})
	fl := e.newFiller(0)
	a := e.prepare(c)
	for k := e.stat().Free; k > spare; k-- {
		e.take(e.Retnode(fl.add()))
	}
	u.T("%s with a limit of nodes, %d free", c.show(e), spare)
	r := e.take(e.exec(c, a))
	u.Eval()
	keep := a.F
	if r != nil {
		keep = nil
	} else {
		u.Nontrivial()
	}
	e.reclaimed(fl, keep, c.show(e)+" with a limit of nodes")
	return r == nil
}

var observers = map[string]func(e *Env, n, o rudd.Node){
	"LowHigh": func(e *Env, n, o rudd.Node) {
		for k := 0; k < 3 && *n > 1; k++ {
			lo, hi := e.Low(n), e.High(n)
			e.drop(e.take(lo))
			e.take(hi)
			n = hi
		}
	},
	"Label":  func(e *Env, n, o rudd.Node) { e.Label(n); e.Label(o) },
	"Equal":  func(e *Env, n, o rudd.Node) { e.Equal(n, o); e.Equal(n, nil) },
	"Scan":   func(e *Env, n, o rudd.Node) { e.Scanset(n) },
	"Count":  func(e *Env, n, o rudd.Node) { e.Satcount(n); e.Satcount(o) },
	"Stats":  func(e *Env, n, o rudd.Node) { e.Stats(); e.Varnum() },
	"Allsat": func(e *Env, n, o rudd.Node) { e.Allsat(func([]int) error { return nil }, n) },
	"AllsatStop": func(e *Env, n, o rudd.Node) {
		e.Allsat(func([]int) error { return errors.New("stop") }, n)
	},
	"AllsatCompute": func(e *Env, n, o rudd.Node) {
		e.Allsat(func([]int) error { e.take(e.Apply(n, o, rudd.OPxor)); return nil }, n)
	},
	"Allnodes": func(e *Env, n, o rudd.Node) { e.Allnodes(func(a, b, c, d int) error { return nil }, n, o) },
	"AllnodesStop": func(e *Env, n, o rudd.Node) {
		e.Allnodes(func(a, b, c, d int) error { return errors.New("stop") }, n, o)
	},
	"AllnodesAll": func(e *Env, n, o rudd.Node) { e.Allnodes(func(a, b, c, d int) error { return nil }) },
	"AllnodesStop0": func(e *Env, n, o rudd.Node) {
		e.Allnodes(func(a, b, c, d int) error { return errors.New("stop") })
	},
	"AllnodesCompute": func(e *Env, n, o rudd.Node) {
		e.Allnodes(func(a, b, c, d int) error { e.take(e.Apply(n, o, rudd.OPnand)); return nil }, n)
	},
	"Print":    func(e *Env, n, o rudd.Node) { e.Print(new(bytes.Buffer), n, o) },
	"PrintAll": func(e *Env, n, o rudd.Node) { e.Print(new(bytes.Buffer)) },
	"Dot":      func(e *Env, n, o rudd.Node) { e.Dot(new(bytes.Buffer), n, o) },
	"DotAll":   func(e *Env, n, o rudd.Node) { e.Dot(new(bytes.Buffer)) },
	"Vars": func(e *Env, n, o rudd.Node) {
		for i := 0; i < e.varnum; i++ {
			e.Ithvar(i)
			e.NIthvar(i)
		}
		e.True()
		e.False()
		e.From(true)
		e.From(false)
	},
	"Replacer": func(e *Env, n, o rudd.Node) { e.replacer([]int{1, 1, 2}); e.NewReplacer([]int{1, 1}, []int{0, 2}) },
	"Kernel": func(e *Env, n, o rudd.Node) {
		e.Initref()
		e.Pushref(*n)
		e.Pushref(*o)
		r := e.Makenode(0, *n, *o)
		e.Pushref(r)
		e.Popref(2)
		e.Popref(1)
	},
}
