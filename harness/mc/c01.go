package main

import (
	"fmt"
	"sort"

	"github.com/dalzilio/rudd"
)

func init() { checks["C01"] = c01 }

// full is an Env where all the functions of its variables are held.
type full struct {
	*Env
	node []rudd.Node
}

func (u *U) newFull(varnum int, lv []int, cfg Cfg) *full {
	if cfg.Perm != 0 {
		return u.newPermuted(varnum, lv, cfg)
	}
	e := u.NewEnv(varnum, lv, cfg)
	f := &full{Env: e}
	for t := T(0); t <= e.mask(); t++ {
		f.node = append(f.node, e.mk(t))
	}
	f.verify()
	return f
}

// verify checks the harness' own construction independently.
func (f *full) verify() {
	s := f.Snapshot()
	f.wellformed(s)
	for t, n := range f.node {
		f.want(s, n, T(t), "construction with Makenode")
	}
}

// permutedLevels are the levels used for functions with chosen identities.
var permutedLevels = []int{3, 7, 12}

// newPermuted is like newFull for the 256 functions of 3 variables, but the
// nodes get chosen identities: larger than those of the successors (1), smaller
// (2) or mixed (3). (The identities of the literals cannot be chosen.) The
// table is filled with nodes; before a node is made, the one at the slot that
// it should take is released, so that the allocation collects and finds this
// slot only.
func (u *U) newPermuted(varnum int, lv []int, cfg Cfg) *full {
	cfg.Never, cfg.Maxinc = true, 0
	if varnum < 16 {
		u.Fail("harness: varnum %d is too small", varnum)
	}
	cfg.Nodesize = 2 + 2*varnum + 256 + 150
	e := u.NewEnv(varnum, lv, cfg)
	f := &full{Env: e, node: make([]rudd.Node, 256)}
	fl := e.newFiller(0)
	held := map[int]rudd.Node{}
	var slots []int
	for k := e.stat().Free; k > 0; k-- {
		r := fl.add()
		if r < 0 || held[r] != nil {
			u.Fail("harness: cannot make a filler node: %d %s", r, clip(e.Error()))
		}
		held[r] = e.take(e.Retnode(r))
		slots = append(slots, r)
	}
	sort.Ints(slots)
	switch cfg.Perm {
	case 2:
		for i, j := 0, len(slots)-1; i < j; i, j = i+1, j-1 {
			slots[i], slots[j] = slots[j], slots[i]
		}
	case 3:
		res := make([]int, 0, len(slots))
		step := 1
		for step = len(slots)*5/13 + 1; gcd(step, len(slots)) != 1; step++ {
		}
		for i, k := 0, 7; i < len(slots); i, k = i+1, (k+step)%len(slots) {
			res = append(res, slots[k])
		}
		slots = res
	}
	n := 0
	var add func(t T) int
	add = func(t T) int {
		if f.node[t] != nil {
			return *f.node[t]
		}
		var r int
		v := -1
		for k := 0; k < 3 && v < 0; k++ {
			if i := e.order(k); depends(t, i, 3) {
				v = i
			}
		}
		if v < 0 {
			r = int(t & 1)
		} else {
			lo, hi := add(cof(t, v, false)&0xff), add(cof(t, v, true)&0xff)
			if lo > 1 || hi > 1 {
				e.drop(held[slots[n]])
				delete(held, slots[n])
				n++
			}
			e.Initref()
			r = e.Makenode(int32(e.lv[v]), lo, hi)
		}
		if r < 0 {
			u.Fail("allocation fails although a slot can be reclaimed: %s", clip(e.Error()))
		}
		if n > 0 && r == slots[n-1] {
			u.Count("chosen_identities", 1)
		}
		f.node[t] = e.take(e.Retnode(r))
		return r
	}
	// bottom up
	for k := 2; k >= 0; k-- {
		for t := T(0); t < 256; t++ {
			ok := true
			for j := 0; j < k; j++ {
				ok = ok && !depends(t, e.order(j), 3)
			}
			if ok {
				add(t)
			}
		}
	}
	for _, id := range slots[n:] {
		e.drop(held[id])
	}
	fl.gc()
	f.verify()
	return f
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// is checks that res is the node of t and drops it.
func (f *full) is(res rudd.Node, t T, what string, args ...any) {
	if res == nil || *res != *f.node[t] {
		f.bad(res, t, fmt.Sprintf(what, args...))
	}
	f.drop(f.take(res))
}

func (f *full) bad(res rudd.Node, t T, what string) {
	if res == nil {
		f.u.Fail("%s returns nil (error %q), expected %s", what, clip(f.Error()), f.show(t))
	}
	f.u.Fail("%s returns node %d (%s), expected %s (node %d)", what, *res, f.showNode(*res), f.show(t), *f.node[t])
}

func (f *full) showNode(id int) string {
	for t, n := range f.node {
		if *n == id {
			return f.show(T(t))
		}
	}
	return "unknown function"
}

func (f *full) noerror() {
	if f.Errored() || f.Error() != "" {
		f.u.Fail("the error status is set after valid operations: %q", clip(f.Error()))
	}
}

func c01(c *Ctx) {
	// A: all pairs and triples of functions of 3 variables
	type conf struct {
		name   string
		varnum int
		lv     []int
		cfg    Cfg
		ite    bool
	}
	confs := []conf{
		{"plain", 3, nil, Cfg{Nodesize: 5000, Cache: 10000}, true},
		{"tinycache", 3, nil, Cfg{Nodesize: 5000, Cache: 1}, true},
		{"midcache", 3, nil, Cfg{Nodesize: 700, Cache: 211}, c.Thorough()},
		{"embedded", 9, []int{1, 3, 7}, Cfg{Nodesize: 5000, Cache: 1009}, c.Thorough()},
		{"bottom", 6, []int{3, 4, 5}, Cfg{Nodesize: 5000, Cache: 17}, false},
		{"descending", 16, permutedLevels, Cfg{Cache: 211, Perm: 2}, c.Thorough()},
		{"mixed", 16, permutedLevels, Cfg{Cache: 3, Perm: 3}, c.Thorough()},
	}
	const B = 8
	for _, cf := range confs {
		cf := cf
		for blk := 0; blk < 256/B; blk++ {
			blk := blk
			c.Unit(fmt.Sprintf("A.%s.%d", cf.name, blk), func(u *U) {
				e := u.newFull(cf.varnum, cf.lv, cf.cfg)
				u.Sample("all operators on (f,g), f in [%02x..%02x], g in all 256 functions of 3 variables at levels %v, %v", blk*B, blk*B+B-1, e.lv, cf.cfg)
				for f := T(blk * B); f < T(blk*B+B); f++ {
					nf := e.node[f]
					u.Eval()
					e.is(e.Not(nf), ^f&e.mask(), "Not(%02x)", f)
					e.is(e.And(nf), f, "And(%02x)", f)
					e.is(e.Or(nf), f, "Or(%02x)", f)
					for g := T(0); g < 256; g++ {
						ng := e.node[g]
						for op := range ops {
							u.Eval()
							if want := applyT(op, f, g, 3); want != f && want != g && want != 0 && want != e.mask() {
								u.Nontrivial()
							}
							e.is(e.Apply(nf, ng, ops[op]), applyT(op, f, g, 3), "Apply(%02x,%02x,%s)", f, g, opname[op])
						}
						e.is(e.Imp(nf, ng), applyT(5, f, g, 3), "Imp(%02x,%02x)", f, g)
						e.is(e.Equiv(nf, ng), applyT(6, f, g, 3), "Equiv(%02x,%02x)", f, g)
						e.is(e.And(nf, ng), f&g, "And(%02x,%02x)", f, g)
						e.is(e.Or(nf, ng), f|g, "Or(%02x,%02x)", f, g)
						if cf.ite {
							for h := T(0); h < 256; h++ {
								u.Eval()
								if want := f&g | ^f&h&0xff; want != g && want != h {
									u.Nontrivial()
								}
								e.is(e.Ite(nf, ng, e.node[h]), f&g|^f&h&e.mask(), "Ite(%02x,%02x,%02x)", f, g, h)
							}
						}
					}
				}
				e.noerror()
			})
		}
	}
	// B: n-ary And and Or
	reps := []T{0, 0xf, 0xA, 0xC, 0x5, 0x3, 0x8, 0xE, 0x6}
	for nargs := 0; nargs <= 7; nargs++ {
		nargs := nargs
		var alpha []T
		switch {
		case nargs <= 4:
			for t := T(0); t < 16; t++ {
				alpha = append(alpha, t)
			}
		case nargs == 5:
			alpha = reps
		default:
			alpha = []T{0, 0xf, 0xA, 0xD}
			if c.Thorough() {
				alpha = []T{0, 0xf, 0xA, 0x3, 0xD, 0x7}
			}
		}
		first := len(alpha)
		if nargs == 0 {
			first = 1
		}
		for a0 := 0; a0 < first; a0++ {
			a0 := a0
			c.Unit(fmt.Sprintf("B.%d.%d", nargs, a0), func(u *U) {
				e := u.newFull(3, []int{0, 2}, Cfg{Nodesize: 500, Cache: 97})
				args := make([]T, nargs)
				nodes := make([]rudd.Node, nargs)
				var rec func(k int, and, or T)
				rec = func(k int, and, or T) {
					if k == nargs {
						u.Eval()
						if and != 0 && or != e.mask() {
							u.Nontrivial()
						}
						e.is(e.And(nodes...), and, "And%x", args)
						e.is(e.Or(nodes...), or, "Or%x", args)
						e.releaseTemps()
						return
					}
					for i, t := range alpha {
						if k == 0 && i != a0 {
							continue
						}
						args[k], nodes[k] = t, e.node[t]
						rec(k+1, and&t, or|t)
					}
				}
				rec(0, e.mask(), 0)
				e.noerror()
			})
		}
	}
	// F: long sequences, in which one or two operands differ from the others
	lengths := []int{63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 4097}
	for l := 8; l <= 40; l++ {
		lengths = append(lengths, l)
	}
	for _, l := range lengths {
		l := l
		c.Unit(fmt.Sprintf("F.%d", l), func(u *U) {
			e := u.newFull(3, []int{0, 2}, Cfg{Nodesize: 500, Cache: 97})
			nodes := make([]rudd.Node, l)
			for _, base := range []T{0xe, 0x8, 0xc, 0xf, 0x0} {
				for k := range nodes {
					nodes[k] = e.node[base]
				}
				try := func(and, or T, what string, args ...interface{}) {
					u.Eval()
					if and != or && and != 0 && or != e.mask() {
						u.Nontrivial()
					}
					what = fmt.Sprintf(what, args...)
					e.is(e.And(nodes...), and, "And of %d operands, %s", l, what)
					e.is(e.Or(nodes...), or, "Or of %d operands, %s", l, what)
					e.releaseTemps()
				}
				try(base, base, "all %x", base)
				for i := 0; i < l; i++ {
					if l > 300 && i > 20 && i < l-20 && (i < l/2-5 || i > l/2+5) && i&(i-1) != 0 {
						continue
					}
					for _, t := range []T{0xa, 0x7} {
						nodes[i] = e.node[t]
						try(base&t, base|t, "%x, but number %d is %x", base, i, t)
						if l <= 20 {
							for j := i + 1; j < l; j++ {
								for _, w := range []T{0xd, 0x4} {
									nodes[j] = e.node[w]
									try(base&t&w, base|t|w, "%x, but number %d is %x and number %d is %x", base, i, t, j, w)
									nodes[j] = e.node[base]
								}
							}
						}
					}
					nodes[i] = e.node[base]
				}
			}
			e.noerror()
		})
	}
	// C: all functions of 4 variables against representatives
	blocks := 64
	for _, cache := range []int{10007, 7} {
		for blk := 0; blk < blocks; blk++ {
			blk, cache := blk, cache
			c.Unit(fmt.Sprintf("C.%d.%d", cache, blk), func(u *U) {
				e := u.newFull(4, nil, Cfg{Nodesize: 70000, Cache: cache})
				G := []T{0, 0xffff, T(varTT[0]) & 0xffff, T(varTT[3]) & 0xffff, ^varTT[1] & 0xffff, 0x8000, 0x0001, 0x6996, 0xfee8, 0x1234, 0xcaca}
				I := []T{0, 0xffff, T(varTT[0]) & 0xffff, T(varTT[3]) & 0xffff, 0x6996}
				step := 65536 / blocks
				u.Sample("all 4-variable functions in [%04x..%04x] against %04x, cache %d", blk*step, blk*step+step-1, G, cache)
				for f := T(blk * step); f < T(blk*step+step); f++ {
					nf := e.node[f]
					e.is(e.Not(nf), ^f&e.mask(), "Not(%04x)", f)
					gs := append(append(make([]T, 0, 16), G...), f, ^f&e.mask())
					for _, g := range gs {
						ng := e.node[g]
						for op := range ops {
							u.Eval()
							u.Nontrivial()
							e.is(e.Apply(nf, ng, ops[op]), applyT(op, f, g, 4), "Apply(%04x,%04x,%s)", f, g, opname[op])
							e.is(e.Apply(ng, nf, ops[op]), applyT(op, g, f, 4), "Apply(%04x,%04x,%s)", g, f, opname[op])
						}
					}
					is := append(append(make([]T, 0, 16), I...), f, ^f&e.mask())
					for _, g := range is {
						for _, h := range is {
							u.Eval()
							e.is(e.Ite(nf, e.node[g], e.node[h]), f&g|^f&h&e.mask(), "Ite(%04x,%04x,%04x)", f, g, h)
							e.is(e.Ite(e.node[g], nf, e.node[h]), g&f|^g&h&e.mask(), "Ite(%04x,%04x,%04x)", g, f, h)
							e.is(e.Ite(e.node[g], e.node[h], nf), g&h|^g&f&e.mask(), "Ite(%04x,%04x,%04x)", g, h, f)
						}
					}
				}
				e.noerror()
			})
		}
	}
	// D: symmetric functions of 6 variables (long shared chains)
	for blk := 0; blk < 16; blk++ {
		blk := blk
		c.Unit(fmt.Sprintf("D.%d", blk), func(u *U) {
			e := u.NewEnv(8, []int{0, 1, 3, 4, 5, 7}, Cfg{Nodesize: 60000, Cache: 997})
			var fs []T
			var ns []rudd.Node
			for k := 0; k < 128; k++ {
				var f T
				for a := 0; a < 64; a++ {
					if k>>uint(popcount(uint(a)))&1 != 0 {
						f |= 1 << uint(a)
					}
				}
				fs = append(fs, f)
				ns = append(ns, e.mk(f))
			}
			for i := 0; i < 6; i++ {
				fs = append(fs, varTT[i], ^varTT[i])
				ns = append(ns, e.mk(varTT[i]), e.mk(^varTT[i]))
			}
			for i := blk * 8; i < blk*8+8; i++ {
				type rec struct {
					n rudd.Node
					t T
					s string
				}
				var rs []rec
				for j := range fs {
					for op := range ops {
						u.Eval()
						u.Nontrivial()
						rs = append(rs, rec{e.take(e.Apply(ns[i], ns[j], ops[op])), applyT(op, fs[i], fs[j], 6), fmt.Sprintf("Apply(%x,%x,%s)", fs[i], fs[j], opname[op])})
						rs = append(rs, rec{e.take(e.Apply(ns[j], ns[i], ops[op])), applyT(op, fs[j], fs[i], 6), fmt.Sprintf("Apply(%x,%x,%s)", fs[j], fs[i], opname[op])})
					}
					k := (i*7 + j*13) % len(fs)
					u.Eval()
					rs = append(rs, rec{e.take(e.Ite(ns[i], ns[j], ns[k])), fs[i]&fs[j] | ^fs[i]&fs[k], fmt.Sprintf("Ite(%x,%x,%x)", fs[i], fs[j], fs[k])})
					rs = append(rs, rec{e.take(e.Ite(ns[j], ns[k], ns[i])), fs[j]&fs[k] | ^fs[j]&fs[i], fmt.Sprintf("Ite(%x,%x,%x)", fs[j], fs[k], fs[i])})
				}
				s := e.Snapshot()
				for _, r := range rs {
					e.want(s, r.n, r.t, r.s)
				}
				e.wellformed(s)
				for _, r := range rs {
					e.drop(r.n)
				}
			}
			if e.Errored() {
				u.Fail("the error status is set after valid operations: %q", clip(e.Error()))
			}
		})
	}
	// E: operators that do not exist
	bad := []rudd.Operator{-1, -2, 10, 11, 12, 13, 100, 255, 256, 1 << 31, 1<<63 - 1, -1 << 63}
	for _, op := range bad {
		op := op
		c.Unit(fmt.Sprintf("E.%d", int(op)), func(u *U) {
			for f := T(0); f < 16; f++ {
				for g := T(0); g < 16; g++ {
					u.Reset()
					e := u.newFull(2, nil, Cfg{Nodesize: 60, Cache: 13})
					u.Eval()
					r := e.Apply(e.node[f], e.node[g], op)
					if r != nil {
						u.Fail("Apply(%x,%x,%d) yields node %d", f, g, int(op), *r)
					}
					if !e.Errored() || e.Error() == "" {
						u.Fail("Apply(%x,%x,%d) yields nil but no error status", f, g, int(op))
					}
					// and the BDD still works
					for o := range ops {
						e.is(e.Apply(e.node[f], e.node[g], ops[o]), applyT(o, f, g, 2), "after an invalid operator: Apply(%x,%x,%s)", f, g, opname[o])
					}
				}
			}
		})
	}
}
