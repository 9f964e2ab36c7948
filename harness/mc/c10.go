package main

import (
	"bytes"
	"errors"
	"fmt"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/dalzilio/rudd"

	"verif/vrt"
)

func init() {
	checks["C10"] = c10
	checks["C11"] = c11
	checks["C16"] = c16
}

// cube is a partial assignment given by Allsat.
type cube []int8

// enumerated checks that the cubes are an exact partition of the satisfying
// assignments of t.
func (e *Env) enumerated(cs []cube, t T, what string) {
	total := 0
	unit := 1
	for i := range cs {
		in := e.mask()
		free := 0
		for l, v := range cs[i] {
			lg, ok := e.logic[l]
			switch v {
			case -1:
				free++
			case 0:
				if ok {
					in &^= varTT[lg]
				}
			case 1:
				if ok {
					in &= varTT[lg]
				}
			}
		}
		if in&^t != 0 {
			e.u.Fail("%s: Allsat gives %v, which does not satisfy %s at levels %v", what, cs[i], e.show(t), e.lv)
		}
		total += unit << uint(free)
		for j := 0; j < i; j++ {
			dis := false
			for l := range cs[i] {
				if cs[i][l] >= 0 && cs[j][l] >= 0 && cs[i][l] != cs[j][l] {
					dis = true
				}
			}
			if !dis {
				e.u.Fail("%s: Allsat gives %v and %v, which overlap (%s at levels %v)", what, cs[j], cs[i], e.show(t), e.lv)
			}
		}
	}
	if want := popcount64(uint64(t&e.mask())) << uint(e.varnum-e.n); total != want {
		e.u.Fail("%s: the assignments given by Allsat are %d, expected %d (%s at levels %v: %v)", what, total, want, e.show(t), e.lv, cs)
	}
}

func popcount64(x uint64) int {
	n := 0
	for ; x != 0; x &= x - 1 {
		n++
	}
	return n
}

// collect gives the function passed to Allsat; hook is called with the number
// of the call.
func (e *Env) collect(cs *[]cube, hook func(k int) error) func([]int) error {
	return func(p []int) error {
		if len(p) != e.varnum {
			e.u.Fail("Allsat gives a slice of length %d, Varnum is %d", len(p), e.varnum)
		}
		c := make(cube, len(p))
		for i, v := range p {
			if v < -1 || v > 1 {
				e.u.Fail("Allsat gives the value %d for variable %d", v, i)
			}
			c[i] = int8(v)
		}
		*cs = append(*cs, c)
		if len(*cs) > 100000 {
			e.u.Fail("Allsat does not end")
		}
		if hook != nil {
			return hook(len(*cs) - 1)
		}
		return nil
	}
}

// disturb are the things that a callback may do with the BDD.
var disturbs = []string{"collection", "collection with resize", "operations", "nested", "misuse"}

func (e *Env) disturb(what string, fl *filler, node, other rudd.Node) {
	switch what {
	case "collection", "collection with resize":
		fl.gc()
		for k := e.stat().Free; k > 0; k-- {
			fl.add()
		}
	case "operations":
		e.drop(e.take(e.Not(node)))
		e.drop(e.take(e.Apply(node, other, rudd.OPxor)))
		e.drop(e.take(e.Ite(other, node, e.True())))
		e.drop(e.take(e.Exist(node, e.Ithvar(e.lv[0]))))
		fl.gc()
	case "nested":
		if err := e.Allsat(func([]int) error { return nil }, other); err != nil {
			e.u.Fail("nested Allsat fails: %v", err)
		}
		if err := e.Allsat(func([]int) error { return errors.New("stop") }, e.Ithvar(e.lv[0])); err == nil {
			e.u.Fail("nested Allsat does not return the error")
		}
		e.Allnodes(func(id, level, low, high int) error { return nil }, node, other)
		e.Allnodes(func(id, level, low, high int) error { return errors.New("stop") }, node)
		e.Allnodes(func(id, level, low, high int) error { return errors.New("stop") })
		e.Satcount(node)
		fl.gc()
	case "misuse":
		e.Not(nil)
		e.Ithvar(-1)
		e.Apply(node, other, rudd.Operator(77))
		fl.gc()
	}
}

func c10(c *Ctx) {
	if c.Mode == "plain" {
		for i := 0; i < 24; i++ {
			i := i
			c.Unit(fmt.Sprintf("P.%d", i), func(u *U) { realAllsat(u, i) })
		}
		return
	}
	// A: all functions of 4 variables
	for _, em := range []struct {
		varnum int
		lv     []int
	}{{4, nil}, {6, []int{0, 2, 3, 5}}, {9, []int{1, 3, 4, 7}}, {8, []int{4, 5, 6, 7}}} {
		for blk := 0; blk < 16; blk++ {
			em, blk := em, blk
			c.Unit(fmt.Sprintf("A.%d.%v.%d", em.varnum, em.lv, blk), func(u *U) {
				e := u.newFull(em.varnum, em.lv, Cfg{Nodesize: 70000, Cache: 1})
				h := e.observe()
				u.Sample("Allsat on functions [%04x..%04x] at levels %v of %d variables", blk*4096, blk*4096+4095, e.lv, em.varnum)
				for f := T(blk * 4096); f < T(blk*4096+4096); f++ {
					var cs []cube
					if err := e.Allsat(e.collect(&cs, nil), e.node[f]); err != nil {
						u.Fail("Allsat(%04x) fails: %v", f, err)
					}
					u.Eval()
					if len(cs) > 1 {
						u.Nontrivial()
					}
					e.enumerated(cs, f, "")
				}
				e.unchanged(h, "Allsat changes the BDD")
				e.noerror()
			})
		}
	}
	// P: functions with chosen identities
	for perm := 1; perm <= 3; perm++ {
		perm := perm
		c.Unit(fmt.Sprintf("P.%d", perm), func(u *U) {
			e := u.newFull(16, permutedLevels, Cfg{Cache: 1, Perm: perm})
			for f := T(0); f < 256; f++ {
				var cs []cube
				if err := e.Allsat(e.collect(&cs, nil), e.node[f]); err != nil {
					u.Fail("Allsat(%02x) fails: %v", f, err)
				}
				u.Eval()
				u.Nontrivial()
				e.enumerated(cs, f, "")
			}
		})
	}
	// H: nodes that take the place of others
	reuseNodes(c, "H", func(e *Env, s *Snap, n rudd.Node, f T, what string) {
		var cs []cube
		if err := e.Allsat(e.collect(&cs, nil), n); err != nil {
			e.u.Fail("Allsat(%02x) fails: %v", f, err)
		}
		e.enumerated(cs, f, what)
	})
	// B: an error at every call
	for blk := 0; blk < 8; blk++ {
		blk := blk
		c.Unit(fmt.Sprintf("B.%d", blk), func(u *U) {
			e := u.newFull(5, []int{0, 1, 3, 4}, Cfg{Nodesize: 70000, Cache: 1})
			h := e.observe()
			for f := blk; f < 65536; f += 8 * 3 {
				var all []cube
				e.Allsat(e.collect(&all, nil), e.node[f])
				for k := range all {
					boom := fmt.Errorf("error at call %d", k)
					var cs []cube
					err := e.Allsat(e.collect(&cs, func(i int) error {
						if i == k {
							return boom
						}
						if i > k {
							return errors.New("another error")
						}
						return nil
					}), e.node[f])
					u.Eval()
					u.Nontrivial()
					if len(cs) != k+1 {
						u.Fail("Allsat(%04x): the function fails at call %d of %d, but %d calls were made", f, k+1, len(all), len(cs))
					}
					if !errors.Is(err, boom) {
						u.Fail("Allsat(%04x): the function returns an error at call %d of %d, but Allsat returns %v", f, k+1, len(all), err)
					}
					if k > 8 {
						break
					}
				}
				var again []cube
				if err := e.Allsat(e.collect(&again, nil), e.node[f]); err != nil {
					u.Fail("Allsat(%04x) fails after an aborted one: %v", f, err)
				}
				e.enumerated(again, T(f), "after an aborted enumeration")
			}
			e.unchanged(h, "Allsat changes the BDD")
		})
	}
	// R: the function uses the BDD at call k
	for _, mode := range []string{"gc", "resize", "ratio"} {
		for blk := 0; blk < 16; blk++ {
			mode, blk := mode, blk
			c.Unit(fmt.Sprintf("R.%s.%d", mode, blk), func(u *U) {
				for f := T(blk * 16); f < T(blk*16+16); f++ {
					calls := 1
					for at := -1; at < calls; at++ {
						for _, d := range disturbs {
							u.Reset()
							e, fl := gcEnv(u, mode, 0)
							keep := e.mk(0x96)
							n := e.mk(f)
							u.T("Allsat(%02x), at call %d (-1: all) the function does: %s", f, at+1, d)
							var cs []cube
							err := e.Allsat(e.collect(&cs, func(k int) error {
								if at < 0 || k == at {
									e.disturb(d, fl, n, keep)
								}
								return nil
							}), n)
							if err != nil {
								u.Fail("Allsat fails: %v", err)
							}
							u.Eval()
							u.Nontrivial()
							e.enumerated(cs, f, "enumeration")
							if len(cs) > calls {
								calls = len(cs)
							}
							s := e.Snapshot()
							e.wellformed(s)
							e.want(s, n, f, "the node")
							e.want(s, keep, 0x96, "node held")
						}
					}
				}
			})
		}
	}
	// W: many variables
	for _, N := range []int{31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000} {
		N := N
		c.Unit(fmt.Sprintf("W.%d", N), func(u *U) {
			for _, lv := range [][]int{{0, 1, N - 1}, {0, N / 2, N - 1}, {N - 3, N - 2, N - 1}} {
				e := u.newFull(N, lv, Cfg{Nodesize: 2*N + 300, Cache: 1})
				for f := T(0); f < 256; f++ {
					var cs []cube
					if err := e.Allsat(func(p []int) error {
						if len(p) != N {
							u.Fail("Allsat gives a slice of length %d, Varnum is %d", len(p), N)
						}
						x := make(cube, 3)
						for l, v := range p {
							if i, ok := e.logic[l]; ok {
								x[i] = int8(v)
							} else if v != -1 {
								u.Fail("Allsat gives the value %d for variable %d, on which %02x at levels %v does not depend", v, l, f, lv)
							}
						}
						cs = append(cs, x)
						return nil
					}, e.node[f]); err != nil {
						u.Fail("Allsat fails: %v", err)
					}
					u.Eval()
					small := &Env{u: u, varnum: 3, n: 3, lv: []int{0, 1, 2}, logic: map[int]int{0: 0, 1: 1, 2: 2}}
					small.enumerated(cs, f, fmt.Sprintf("levels %v", lv))
				}
				u.Reset()
			}
		})
	}
}

// ------------------------------------------------------------ the real runtime

var sink *int

// runtimeGC lets the runtime collect everything that is unreachable and waits
// for the finalizers.
func runtimeGC() {
	for round := 0; round < 3; round++ {
		done := make(chan struct{})
		func() {
			s := &struct {
				a [4]int
				p *int
			}{}
			runtime.SetFinalizer(s, func(any) { close(done) })
		}()
		for i := 0; ; i++ {
			runtime.GC()
			select {
			case <-done:
			case <-time.After(20 * time.Millisecond):
				if i < 500 {
					continue
				}
			}
			break
		}
	}
}

// spacer separates tiny objects, which the runtime allocates in blocks.
func spacer() {
	for i := 0; i < 4; i++ {
		sink = new(int)
	}
	sink = nil
}

// reuse makes garbage until the table was collected, and then takes all the
// free slots.
func reuse(u *U, e *Env, fl *filler) {
	fl.gc()
	for k := e.stat().Free; k > 0; k-- {
		fl.add()
	}
}

// realEnv: a BDD of the unmodified library with a function that nobody else
// refers to.
func realEnv(u *U, i int) (*Env, *filler, func() rudd.Node, T) {
	e, fl := gcEnv(u, []string{"gc", "resize", "ratio"}[i%3], 0)
	fs := []T{0x96, 0xe8, 0x7e, 0x18, 0x6b, 0xd4, 0x29, 0x72}
	f := fs[i%8]
	mk := func() rudd.Node {
		spacer()
		n := e.Retnode(e.build(f))
		spacer()
		return n
	}
	return e, fl, mk, f
}

func realAllsat(u *U, i int) {
	e, fl, mk, f := realEnv(u, i)
	for at := 0; at < 5; at++ {
		u.T("Allsat on a node of function %02x that the caller does not keep; at call %d the function lets the runtime collect and reuses the table", f, at+1)
		var cs []cube
		err := e.Allsat(e.collect(&cs, func(k int) error {
			if k == at {
				runtimeGC()
				reuse(u, e, fl)
			}
			return nil
		}), mk())
		if err != nil {
			u.Fail("Allsat fails: %v", err)
		}
		u.Eval()
		u.Nontrivial()
		e.enumerated(cs, f, "enumeration")
	}
}

// ------------------------------------------------------------------- Allnodes

type visit struct{ id, level, low, high int }

// below computes the nodes reachable from the roots in a snapshot.
func (e *Env) below(s *Snap, roots ...rudd.Node) map[visit]bool {
	res := map[visit]bool{}
	var walk func(id int)
	walk = func(id int) {
		if id < 2 {
			return
		}
		x := s.node(id)
		if x == nil {
			e.u.Fail("node %d is not active", id)
		}
		v := visit{x.ID, x.Level, x.Low, x.High}
		if res[v] {
			return
		}
		res[v] = true
		walk(x.Low)
		walk(x.High)
	}
	for _, n := range roots {
		walk(*n)
	}
	return res
}

func (e *Env) allnodes(hook func(k int) error, roots ...rudd.Node) ([]visit, error) {
	var vs []visit
	err := e.Allnodes(func(id, level, low, high int) error {
		vs = append(vs, visit{id, level, low, high})
		if len(vs) > 1000000 {
			e.u.Fail("Allnodes does not end")
		}
		if hook != nil {
			return hook(len(vs) - 1)
		}
		return nil
	}, roots...)
	return vs, err
}

// visited checks a traversal from roots; constants may be visited or not.
func (e *Env) visited(vs []visit, want map[visit]bool, what string) {
	seen := map[int]bool{}
	n := 0
	for _, v := range vs {
		if seen[v.id] {
			e.u.Fail("%s: Allnodes visits node %d twice", what, v.id)
		}
		seen[v.id] = true
		if v.id == 0 || v.id == 1 {
			if v.level != e.varnum || v.low != v.id || v.high != v.id {
				e.u.Fail("%s: Allnodes gives %+v for a constant", what, v)
			}
			continue
		}
		if !want[v] {
			e.u.Fail("%s: Allnodes gives %+v, which is not one of the %d nodes expected", what, v, len(want))
		}
		n++
	}
	if n != len(want) {
		e.u.Fail("%s: Allnodes gives %d nodes, expected %d", what, n, len(want))
	}
}

// structure checks the nodes of a snapshot through Label, Low and High.
func (e *Env) structure(s *Snap) {
	for _, x := range s.Nodes {
		if x.ID < 2 {
			continue
		}
		id := x.ID
		n := rudd.Node(&id)
		lo, hi := e.Low(n), e.High(n)
		if l := e.Label(n); l != x.Level || lo == nil || hi == nil || *lo != x.Low || *hi != x.High {
			e.u.Fail("Allnodes gives (level %d, low %d, high %d) for node %d, but Label, Low, High are %d, %d, %d", x.Level, x.Low, x.High, x.ID, l, idOf(lo), idOf(hi))
		}
		vrt.Drop(lo)
		vrt.Drop(hi)
	}
}

// onlyHeld forces a collection and checks that exactly the nodes that are
// reachable from what the harness holds are left.
func (e *Env) onlyHeld(fl *filler, what string, more ...rudd.Node) {
	fl.gc()
	e.exactlyHeld(1, what, more...)
}

func (e *Env) exactlyHeld(slack int, what string, more ...rudd.Node) {
	s := e.Snapshot()
	var roots []rudd.Node
	for v := 0; v < e.varnum; v++ {
		roots = append(roots, e.Ithvar(v), e.NIthvar(v))
	}
	for n := range e.own {
		roots = append(roots, n)
	}
	roots = append(roots, more...)
	want := e.below(s, roots...)
	if len(want)+2+slack < len(s.Nodes) || len(want)+2 > len(s.Nodes) {
		var extra []visit
		for _, x := range s.Nodes {
			if v := (visit{x.ID, x.Level, x.Low, x.High}); x.ID > 1 && !want[v] && len(extra) < 5 {
				extra = append(extra, v)
			}
		}
		e.u.Fail("%s: %d nodes are active after a collection, only %d are needed; not needed: %+v", what, len(s.Nodes), len(want)+2, extra)
	}
}

func c11(c *Ctx) {
	if c.Mode == "plain" {
		for i := 0; i < 24; i++ {
			i := i
			c.Unit(fmt.Sprintf("P.%d", i), func(u *U) { realAllnodes(u, i) })
		}
		return
	}
	// A: all pairs of functions of 3 variables as roots
	for _, em := range []struct {
		varnum int
		lv     []int
		perm   int
	}{{3, nil, 0}, {8, []int{1, 3, 6}, 0}, {16, permutedLevels, 1}, {17, permutedLevels, 2}, {18, permutedLevels, 3}} {
		for blk := 0; blk < 16; blk++ {
			em, blk := em, blk
			c.Unit(fmt.Sprintf("A.%d.%d", em.varnum, blk), func(u *U) {
				e := u.newFull(em.varnum, em.lv, Cfg{Nodesize: 700, Cache: 1, Perm: em.perm})
				s := e.Snapshot()
				e.structure(s)
				st := e.accounting(s)
				vs, err := e.allnodes(nil)
				if err != nil {
					u.Fail("Allnodes fails: %v", err)
				}
				if len(vs) != st.Used {
					u.Fail("Allnodes without arguments gives %d nodes, %d are used", len(vs), st.Used)
				}
				h := e.observe()
				for f := T(blk * 16); f < T(blk*16+16); f++ {
					for g := T(0); g < 256; g++ {
						u.Eval()
						u.Nontrivial()
						for _, roots := range [][]rudd.Node{{e.node[f], e.node[g]}, {e.node[g], e.node[f], e.node[f^g], e.node[g]}} {
							vs, err := e.allnodes(nil, roots...)
							if err != nil {
								u.Fail("Allnodes fails: %v", err)
							}
							e.visited(vs, e.below(s, roots...), fmt.Sprintf("Allnodes(%02x,%02x..)", f, g))
						}
					}
					vs, err := e.allnodes(nil, e.node[f])
					if err != nil {
						u.Fail("Allnodes fails: %v", err)
					}
					e.visited(vs, e.below(s, e.node[f]), fmt.Sprintf("Allnodes(%02x)", f))
				}
				e.unchanged(h, "Allnodes changes the BDD")
			})
		}
	}
	// H: nodes that take the place of others
	reuseNodes(c, "H", func(e *Env, s *Snap, n rudd.Node, f T, what string) {
		vs, err := e.allnodes(nil, n)
		if err != nil {
			e.u.Fail("Allnodes(%02x) fails: %v", f, err)
		}
		e.want(s, n, f, what)
		e.visited(vs, e.below(s, n), what)
	})
	// B: errors at every call, then later operations and collections
	for _, mode := range []string{"gc", "resize"} {
		for blk := 0; blk < 16; blk++ {
			mode, blk := mode, blk
			c.Unit(fmt.Sprintf("B.%s.%d", mode, blk), func(u *U) {
				for f := T(blk * 16); f < T(blk*16+16); f++ {
					for _, g := range []T{f, 0x96, 0x80, 0} {
						total := 1
						for k := 0; k < total; k++ {
							for noarg := 0; noarg < 2; noarg++ {
								if noarg == 1 && (k > 12 && k%5 != 0 || g != 0x96) {
									continue
								}
								u.Reset()
								e, fl := gcEnv(u, mode, 0)
								n, o, keep := e.mk(f), e.mk(g), e.mk(0xe8)
								fl.add()
								roots := []rudd.Node{n, o}
								if noarg == 1 {
									roots = nil
								}
								u.T("Allnodes over %d roots (%02x,%02x), error at call %d", len(roots), f, g, k+1)
								all, _ := e.allnodes(nil, roots...)
								if len(all) > total {
									total = len(all)
								}
								if k >= len(all) {
									continue
								}
								boom := fmt.Errorf("error at call %d", k)
								h := e.observe()
								vs, err := e.allnodes(func(i int) error {
									if i == k {
										return boom
									}
									return nil
								}, roots...)
								u.Eval()
								u.Nontrivial()
								if len(vs) != k+1 || !errors.Is(err, boom) {
									u.Fail("the function fails at call %d of %d, %d calls were made, and Allnodes returns %v", k+1, len(all), len(vs), err)
								}
								e.unchanged(h, "an aborted Allnodes leaves a trace in the BDD")
								s := e.Snapshot()
								e.wellformed(s)
								e.want(s, n, f, "root")
								x := e.take(e.And(n, keep))
								s = e.Snapshot()
								e.want(s, x, f&0xe8, "And after an aborted Allnodes")
								e.drop(x)
								e.drop(n)
								e.drop(o)
								e.onlyHeld(fl, "after an aborted Allnodes")
								s = e.Snapshot()
								e.wellformed(s)
								e.want(s, keep, 0xe8, "node held")
							}
						}
					}
				}
			})
		}
	}
	// E: errors at every call on a table whose last slots are free, or that is
	// completely full
	for _, mode := range []string{"gc", "resize"} {
		for free := 0; free < 3; free++ {
			mode, free := mode, free
			c.Unit(fmt.Sprintf("E.%s.%d", mode, free), func(u *U) {
				for _, f := range []T{0, 1, 0x80, 0xaa, 0x1e, 0x96, 0xe8, 0x6b} {
					u.Reset()
					e, fl := gcEnv(u, mode, 0)
					n, keep := e.mk(f), e.mk(0xe8)
					fl.fillTo(free)
					for _, roots := range [][]rudd.Node{nil, {n}, {keep, n}} {
						u.T("Allnodes over %d roots (%02x,e8) with %d free slots, error at every call", len(roots), f, free)
						all, err := e.allnodes(nil, roots...)
						if err != nil {
							u.Fail("Allnodes fails: %v", err)
						}
						h := e.observe()
						for k := range all {
							boom := fmt.Errorf("error at call %d", k)
							vs, err := e.allnodes(func(i int) error {
								if i == k {
									return boom
								}
								return nil
							}, roots...)
							u.Eval()
							u.Nontrivial()
							if len(vs) != k+1 || !errors.Is(err, boom) {
								u.Fail("the function fails at call %d of %d, %d calls were made, and Allnodes returns %v", k+1, len(all), len(vs), err)
							}
							e.unchanged(h, "an aborted Allnodes leaves a trace in the BDD")
						}
					}
				}
			})
		}
	}
	// R: the function uses the BDD
	for _, mode := range []string{"gc", "resize"} {
		for blk := 0; blk < 16; blk++ {
			mode, blk := mode, blk
			c.Unit(fmt.Sprintf("R.%s.%d", mode, blk), func(u *U) {
				for f := T(blk * 16); f < T(blk*16+16); f++ {
					g := f*7 ^ 0x5a&0xff
					g &= 0xff
					total := 1
					for at := -1; at < total; at++ {
						for _, d := range disturbs {
							for noarg := 0; noarg < 2; noarg++ {
								if noarg == 1 && at > 3 && at%4 != 0 {
									continue
								}
								u.Reset()
								e, fl := gcEnv(u, mode, 0)
								n, o, keep := e.mk(f), e.mk(g), e.mk(0x96)
								fl.add()
								roots := []rudd.Node{n, o}
								if noarg == 1 {
									roots = nil
								}
								u.T("Allnodes over %d roots (%02x,%02x); at call %d (-1: all) the function does: %s", len(roots), f, g, at+1, d)
								s := e.Snapshot()
								protected := []rudd.Node{n, o, keep}
								for v := 0; v < e.varnum; v++ {
									protected = append(protected, e.Ithvar(v), e.NIthvar(v))
								}
								want := e.below(s, protected...)
								if noarg == 0 {
									want = e.below(s, n, o)
								}
								vs, err := e.allnodes(func(i int) error {
									if at < 0 && i < 3 || i == at {
										e.disturb(d, fl, n, keep)
									}
									return nil
								}, roots...)
								if err != nil {
									u.Fail("Allnodes fails: %v", err)
								}
								u.Eval()
								u.Nontrivial()
								if noarg == 0 {
									if len(vs) > total {
										total = len(vs)
									}
									e.visited(vs, want, "traversal")
								} else {
									// the nodes that are active all the time
									seen := map[int]bool{}
									n := 0
									for _, v := range vs {
										if seen[v.id] {
											u.Fail("Allnodes visits node %d twice", v.id)
										}
										seen[v.id] = true
										if want[v] {
											n++
										}
									}
									if n != len(want) || !seen[0] || !seen[1] {
										u.Fail("Allnodes visits %d of the %d nodes that are active all the time", n, len(want))
									}
								}
								s = e.Snapshot()
								e.wellformed(s)
								e.want(s, n, f, "root")
								e.want(s, keep, 0x96, "node held")
								e.drop(n)
								e.drop(o)
								e.releaseTemps()
								e.onlyHeld(fl, "after a traversal")
							}
						}
					}
				}
			})
		}
	}
	// S: a sequence of traversals from different roots, between operations
	for blk := 0; blk < 8; blk++ {
		blk := blk
		c.Unit(fmt.Sprintf("S.%d", blk), func(u *U) {
			e := u.newFull(4, nil, Cfg{Nodesize: 70000, Cache: 1})
			s := e.Snapshot()
			for f := blk; f < 65536; f += 8 {
				vs, err := e.allnodes(nil, e.node[f])
				if err != nil {
					u.Fail("Allnodes fails: %v", err)
				}
				u.Eval()
				e.visited(vs, e.below(s, e.node[f]), fmt.Sprintf("Allnodes(%04x)", f))
				if f%512 != blk { // a scan of the whole table each time
					f += 8 * 15
				}
			}
		})
	}
}

func realAllnodes(u *U, i int) {
	e, fl, mk, f := realEnv(u, i)
	for at := 0; at < 4; at++ {
		u.T("Allnodes on a node of function %02x that the caller does not keep; at call %d the function lets the runtime collect and reuses the table", f, at+1)
		var want map[visit]bool
		func() {
			n := mk()
			want = e.below(e.Snapshot(), n)
			runtime.KeepAlive(n)
		}()
		vs, err := e.allnodes2(func(k int) error {
			if k == at {
				runtimeGC()
				reuse(u, e, fl)
			}
			return nil
		}, mk)
		if err != nil {
			u.Fail("Allnodes fails: %v", err)
		}
		u.Eval()
		u.Nontrivial()
		// the nodes form the same function
		tt := map[int]T{0: 0, 1: e.mask()}
		done := map[int]bool{}
		for _, v := range vs {
			if done[v.id] {
				u.Fail("Allnodes visits node %d twice", v.id)
			}
			done[v.id] = true
		}
		for progress := true; progress; {
			progress = false
			for _, v := range vs {
				lo, a := tt[v.low]
				hi, b := tt[v.high]
				lg, ok := e.logic[v.level]
				if !ok && v.id > 1 {
					u.Fail("Allnodes gives node %+v at a level that is not one of %v", v, e.lv)
				}
				if _, known := tt[v.id]; !known && a && b {
					tt[v.id] = lo&^varTT[lg] | hi&varTT[lg]
					progress = true
				}
			}
		}
		found := false
		for id, t := range tt {
			if id > 1 && t&e.mask() == f {
				found = true
			}
		}
		if !found || len(tt) != len(want)+2 {
			u.Fail("Allnodes gives %+v, which are not the %d nodes of %02x", vs, len(want), f)
		}
	}
}

// allnodes2 is like allnodes, on a node that nobody keeps.
func (e *Env) allnodes2(hook func(k int) error, mk func() rudd.Node) ([]visit, error) {
	vs := make([]visit, 0, 64)
	err := e.Allnodes(func(id, level, low, high int) error {
		vs = append(vs, visit{id, level, low, high})
		return hook(len(vs) - 1)
	}, mk())
	return vs, err
}

// --------------------------------------------------------------- Print and Dot

var printRE = regexp.MustCompile(`^\s*(\d+)\s*\[\s*(\d+)\s*\]\s*\?\s*(\d+)\s*:\s*(\d+)\s*$`)

func parsePrint(u *U, text string) []visit {
	var res []visit
	for _, l := range strings.Split(text, "\n") {
		if strings.TrimSpace(l) == "" {
			continue
		}
		m := printRE.FindStringSubmatch(l)
		if m == nil {
			u.Fail("Print writes a line that cannot be read back: %q", l)
		}
		var v [4]int
		for i := range v {
			v[i], _ = strconv.Atoi(m[i+1])
		}
		res = append(res, visit{v[0], v[1], v[2], v[3]})
	}
	return res
}

var dotNode = regexp.MustCompile(`(?s)(?:^|\n)\s*(\d+) \[label=<\s*<FONT[^>]*>(\d+)</FONT>\s*<FONT[^>]*>\[(\d+)\]</FONT>\s*>\];`)
var dotNode2 = regexp.MustCompile(`(?s)(?:^|\n)\s*(\d+) \[label=<\s*<FONT[^>]*>\[?(\d+)\]?</FONT>`)
var dotEdge = regexp.MustCompile(`(\d+) -> (\d+) \[style=(dotted|filled)\];`)

func parseDot(u *U, text string) []visit {
	if !strings.HasPrefix(strings.TrimSpace(text), "digraph") || !strings.HasSuffix(strings.TrimSpace(text), "}") {
		u.Fail("Dot writes %q", clip(text))
	}
	type e struct {
		lv           int
		low, high    int
		nlow, nhigh  int
		declarations int
	}
	nodes := map[int]*e{}
	var order []int
	for _, m := range dotNode.FindAllStringSubmatch(text, -1) {
		id, _ := strconv.Atoi(m[1])
		lv, _ := strconv.Atoi(m[2])
		id2, _ := strconv.Atoi(m[3])
		if id2 != id {
			u.Fail("Dot labels node %d with [%d]", id, id2)
		}
		if nodes[id] != nil {
			u.Fail("Dot declares node %d twice", id)
		}
		nodes[id] = &e{lv: lv}
		order = append(order, id)
	}
	if n := strings.Count(text, "[label=<"); n != len(order) {
		u.Fail("Dot writes %d labels, %d can be read back: %q", n, len(order), clip(text))
	}
	edges := dotEdge.FindAllStringSubmatch(text, -1)
	if n := strings.Count(text, "->"); n != len(edges) {
		u.Fail("Dot writes %d edges, %d can be read back: %q", n, len(edges), clip(text))
	}
	for _, m := range edges {
		a, _ := strconv.Atoi(m[1])
		b, _ := strconv.Atoi(m[2])
		x := nodes[a]
		if x == nil {
			u.Fail("Dot draws an edge from node %d, which it does not declare", a)
		}
		if b == 0 {
			u.Fail("Dot draws an edge from node %d to the constant false", a)
		}
		if b != 1 && nodes[b] == nil {
			u.Fail("Dot draws an edge to node %d, which it does not declare", b)
		}
		if m[3] == "dotted" {
			x.low = b
			x.nlow++
		} else {
			x.high = b
			x.nhigh++
		}
		if x.nlow > 1 || x.nhigh > 1 {
			u.Fail("Dot draws an edge of node %d twice", a)
		}
	}
	var res []visit
	for _, id := range order {
		res = append(res, visit{id, nodes[id].lv, nodes[id].low, nodes[id].high})
	}
	return res
}

func (e *Env) printed(want map[visit]bool, what string, roots ...rudd.Node) {
	var w bytes.Buffer
	e.Print(&w, roots...)
	text := w.String()
	if len(roots) == 1 && *roots[0] < 2 {
		if exp := []string{"False", "True"}[*roots[0]]; strings.TrimSpace(text) != exp {
			e.u.Fail("Print of the constant %s writes %q", exp, text)
		}
	} else {
		e.visited(parsePrint(e.u, text), want, "Print "+what)
	}
	w.Reset()
	if err := e.Dot(&w, roots...); err != nil {
		e.u.Fail("Dot fails: %v", err)
	}
	e.visited(parseDot(e.u, w.String()), want, "Dot "+what)
}

func c16(c *Ctx) {
	// A: all pairs of functions of 3 variables
	for _, em := range []struct {
		varnum int
		lv     []int
		perm   int
	}{{3, nil, 0}, {13, []int{1, 9, 11}, 0}, {16, permutedLevels, 1}, {17, permutedLevels, 2}, {18, permutedLevels, 3}} {
		for blk := 0; blk < 16; blk++ {
			em, blk := em, blk
			c.Unit(fmt.Sprintf("A.%d.%d", em.varnum, blk), func(u *U) {
				e := u.newFull(em.varnum, em.lv, Cfg{Nodesize: 400 + 700*(blk%2), Cache: 1, Perm: em.perm})
				s := e.Snapshot()
				h := e.observe()
				for f := T(blk * 16); f < T(blk*16+16); f++ {
					u.Eval()
					u.Sample("Print and Dot of %02x and of all pairs (%02x, g)", f, f)
					e.printed(e.below(s, e.node[f]), fmt.Sprintf("(%02x)", f), e.node[f])
					for g := T(0); g < 256; g++ {
						u.Eval()
						u.Nontrivial()
						e.printed(e.below(s, e.node[f], e.node[g]), fmt.Sprintf("(%02x,%02x)", f, g), e.node[f], e.node[g])
					}
					e.printed(e.below(s, e.node[f], e.node[^f&0xff]), "(a,True,b,False,a)", e.node[f], e.True(), e.node[^f&0xff], e.False(), e.node[f])
				}
				all := map[visit]bool{}
				for _, x := range s.Nodes {
					if x.ID > 1 {
						all[visit{x.ID, x.Level, x.Low, x.High}] = true
					}
				}
				e.printed(all, "()")
				e.unchanged(h, "Print or Dot changes the BDD")
				e.noerror()
			})
		}
	}
	// H: nodes that take the place of others
	reuseNodes(c, "H", func(e *Env, s *Snap, n rudd.Node, f T, what string) {
		e.want(s, n, f, what)
		e.printed(e.below(s, n), what, n)
	})
	// B: all active nodes, after collections and resizes, with garbage
	for _, mode := range []string{"gc", "resize", "ratio"} {
		for _, f := range spread(3) {
			mode, f := mode, f
			c.Unit(fmt.Sprintf("B.%s.%02x", mode, f), func(u *U) {
				for free := 0; free < 6; free++ {
					u.Reset()
					e, fl := gcEnv(u, mode, 0)
					keep := e.mk(f)
					x := e.mk(0x96)
					for round := 0; round < 3; round++ {
						if round > 0 {
							fl.gc()
						}
						fl.fillTo(e.stat().Free / (free + 1))
						s := e.Snapshot()
						all := map[visit]bool{}
						for _, x := range s.Nodes {
							if x.ID > 1 {
								all[visit{x.ID, x.Level, x.Low, x.High}] = true
							}
						}
						h := e.observe()
						u.Eval()
						e.printed(all, "()")
						e.printed(e.below(s, keep), fmt.Sprintf("(%02x)", f), keep)
						e.unchanged(h, "Print or Dot changes the BDD")
						if round == 1 {
							e.drop(x)
						}
					}
					s := e.Snapshot()
					e.want(s, keep, f, "node held")
					e.onlyHeld(fl, "after Print and Dot")
				}
			})
		}
	}
	// E: the error state
	misuse := map[string]func(e *full){
		"Ithvar(-1)":       func(e *full) { e.Ithvar(-1) },
		"Not(nil)":         func(e *full) { e.Not(nil) },
		"Apply(op 77)":     func(e *full) { e.Apply(e.node[6], e.node[8], 77) },
		"Makeset([9])":     func(e *full) { e.Makeset([]int{9}) },
		"Label(True)":      func(e *full) { e.Label(e.True()) },
		"Makecube lengths": func(e *full) { e.Makecube([]int{0}, []bool{}) },
		"two errors":       func(e *full) { e.Ithvar(-1); e.Not(nil) },
	}
	var names []string
	for name := range misuse {
		names = append(names, name)
	}
	sort.Strings(names)
	for _, name := range names {
		name, f := name, misuse[name]
		c.Unit("E."+name, func(u *U) {
			for _, roots := range []int{0, 1, 2, 3} {
				u.Reset()
				e := u.newFull(2, nil, Cfg{Nodesize: 50})
				f(e)
				msg := e.Error()
				if msg == "" {
					u.Fail("%s does not set the error status", name)
				}
				args := [][]rudd.Node{nil, {e.node[6]}, {e.node[6], e.node[8]}, {e.True()}}[roots]
				var w bytes.Buffer
				e.Print(&w, args...)
				u.Eval()
				if !strings.Contains(w.String(), msg) {
					u.Fail("after %s, Print writes %q and not the error %q", name, clip(w.String()), msg)
				}
				if printRE.MatchString(strings.SplitN(w.String(), "\n", 2)[0]) || strings.TrimSpace(w.String()) == "True" {
					u.Fail("after %s, Print still writes nodes: %q", name, clip(w.String()))
				}
				w.Reset()
				err := e.Dot(&w, args...)
				if err == nil {
					u.Fail("after %s, Dot returns no error", name)
				}
				if !strings.Contains(w.String(), msg) || strings.Contains(w.String(), "digraph") {
					u.Fail("after %s, Dot writes %q and not the error %q", name, clip(w.String()), msg)
				}
			}
		})
	}
	// N: illegal nodes
	c.Unit("N", func(u *U) {
		for i, bad := range []rudd.Node{nil, ptr(-1), ptr(50), ptr(1 << 40), ptr(40)} {
			for pos := 0; pos < 3; pos++ {
				u.Reset()
				e := u.newFull(2, nil, Cfg{Nodesize: 50})
				args := []rudd.Node{e.node[6], e.node[8], e.True()}
				args[pos] = bad
				var w bytes.Buffer
				if err := e.Dot(&w, args...); err == nil {
					u.Fail("Dot with illegal node %d at position %d returns no error", i, pos)
				}
				u.Reset()
				e = u.newFull(2, nil, Cfg{Nodesize: 50})
				args = []rudd.Node{e.node[6], e.node[8], e.True()}
				args[pos] = bad
				w.Reset()
				e.Print(&w, args...)
				u.Eval()
				if !e.Errored() {
					u.Fail("Print with illegal node %d at position %d does not set the error status", i, pos)
				}
				if len(w.String()) == 0 || printRE.MatchString(strings.SplitN(w.String(), "\n", 2)[0]) {
					u.Fail("Print with illegal node %d at position %d writes %q", i, pos, clip(w.String()))
				}
			}
		}
	})
}

func ptr(n int) rudd.Node { return &n }
