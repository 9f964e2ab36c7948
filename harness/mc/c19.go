package main

import (
	"fmt"

	"github.com/dalzilio/rudd"
)

func init() {
	checks["C18"] = c18
	checks["C19"] = c19
}

// C19: a collection or a resize at each allocation of an operation.

// pressure is a way to make collections happen.
type pressure struct {
	name    string
	cfg     Cfg
	reclaim int // nodes that each collection finds, -1 for many
}

func pressures() []pressure {
	return []pressure{
		{"collection", Cfg{Nodesize: 67, Cache: 211, Minfree: 1, Maxinc: 13}, -1},
		{"collection+resize", Cfg{Nodesize: 67, Cache: 211, Minfree: 100}, -1},
		{"resize of 1", Cfg{Nodesize: 67, Cache: 211, Minfree: 1, Maxinc: 2}, 0},
		{"scarce", Cfg{Nodesize: 67, Cache: 31, Minfree: 1, Maxinc: 3}, 2},
		{"ratio", Cfg{Nodesize: 67, Cache: 31, Minfree: 100, Ratio: 60}, -1},
	}
}

// squeeze leaves exactly free slots; the next collection finds p.reclaim nodes.
func (e *Env) squeeze(fl *filler, p pressure, free int) {
	if p.reclaim < 0 {
		fl.fillTo(free)
		return
	}
	// collect what is lying around, so that the amount of garbage is known
	fl.gc()
	for k := e.stat().Free; k > free+p.reclaim; k-- {
		e.take(e.Retnode(fl.add()))
	}
	fl.fillTo(free)
}

var witness = []T{0x96, 0xe8, 0x1b}

// invisible runs one call with free slots left; it tells if a collection
// happened.
func invisible(u *U, p pressure, lv []int, c Call, pre int, free int) bool {
	u.Reset()
	e := u.NewEnv(9, lv, p.cfg)
	fl := e.newFiller(0)
	var ws []rudd.Node
	var wt []T
	for _, f := range witness {
		f &= e.mask()
		if e.n > 3 {
			f |= f << 8
			f &= e.mask()
		}
		ws = append(ws, e.mk(f))
		wt = append(wt, f)
	}
	a := e.prepare(c)
	switch pre {
	case 1: // the nodes and the cache entries of the same call
		e.drop(e.take(e.exec(c, a)))
		e.releaseTemps()
	case 2: // other operations on the same operands
		for i, x := range a.F {
			e.drop(e.take(e.Not(x)))
			for _, y := range a.F[i:] {
				e.drop(e.take(e.Apply(x, y, rudd.OPnand)))
				e.drop(e.take(e.Apply(y, x, rudd.OPbiimp)))
			}
			if a.Set != nil {
				e.drop(e.take(e.Exist(x, a.Set)))
				e.drop(e.take(e.AppEx(x, x, rudd.OPxor, a.Set)))
			}
		}
	}
	e.squeeze(fl, p, free)
	g0 := e.stat()
	what := fmt.Sprintf("%s with %d free slots (%s, preparation %d, levels %v)", c.show(e), free, p.name, pre, lv)
	u.T("%s", what)
	want := c.want(e.n)
	r := e.take(e.exec(c, a))
	g1 := e.stat()
	s := e.Snapshot()
	e.want(s, r, want, what)
	e.wellformed(s)
	e.accounting(s)
	held := func(what string) {
		for i, f := range c.F {
			e.want(s, a.F[i], f, fmt.Sprintf("operand %d after %s", i, what))
		}
		for i, w := range ws {
			e.want(s, w, wt[i], fmt.Sprintf("a node held during %s", what))
		}
		if a.Set != nil {
			t := e.mask()
			for i := 0; i < e.n; i++ {
				if c.Set>>uint(i)&1 != 0 {
					t &= varTT[i]
				}
			}
			e.want(s, a.Set, t, "the variable set after "+what)
		}
	}
	held(what)
	if g1.Alloc < g0.Alloc {
		u.Fail("%s: the table shrinks from %d to %d", what, g0.Alloc, g1.Alloc)
	}
	u.Eval()
	u.Trans(1)
	u.Done()
	n := g1.GC - g0.GC
	if n == 0 {
		return false
	}
	u.Nontrivial()
	u.Count("collections inside the operation", int64(n))
	if n > 1 {
		u.Count("operations with several collections", 1)
	}
	if g1.Alloc > g0.Alloc {
		u.Count("operations with a resize", 1)
	}
	// what the operation left in the caches must be usable
	u.T("the same call again")
	q := e.take(e.exec(c, a))
	if q == nil || *q != *r {
		u.Fail("%s gives node %d, and the same call again %d", what, *r, idOf(q))
	}
	e.drop(q)
	e.drop(r)
	e.releaseTemps()
	u.T("drop, collection, fill with held nodes, the same call again")
	fl.gc()
	for k := e.stat().Free; k > 1; k-- {
		e.take(e.Retnode(fl.add()))
	}
	q = e.take(e.exec(c, a))
	s = e.Snapshot()
	e.want(s, q, want, what+", and the same call again after another collection")
	held(what)
	e.wellformed(s)
	if e.Errored() {
		u.Fail("%s: the error status is set: %s", what, clip(e.Error()))
	}
	return true
}

// moreCalls are the operations with a list of arguments, and the derived ones.
func moreCalls(n int, fs []T) []Call {
	var res []Call
	for i, f := range fs {
		for _, g := range fs {
			res = append(res, Call{K: kImp, F: []T{f, g}}, Call{K: kEquiv, F: []T{f, g}}, Call{K: kAnd, F: []T{f, g}}, Call{K: kOr, F: []T{f, g}})
			for s := uint(1); s < 1<<uint(n); s++ {
				res = append(res, Call{K: kAndExist, F: []T{f, g}, Set: s})
			}
			h, k := fs[(i+3)%len(fs)], fs[(i+5)%len(fs)]
			for _, kd := range []kind{kAnd, kOr} {
				res = append(res, Call{K: kd, F: []T{f, g, h}}, Call{K: kd, F: []T{f, g, h, k}}, Call{K: kd, F: []T{f, g, h, k, ^f & maskOf(n)}})
			}
		}
	}
	for s := uint(0); s < 1<<uint(n); s++ {
		res = append(res, Call{K: kMakeset, Set: s})
		for p := uint(0); p < 1<<uint(n); p++ {
			if p&^s == 0 && s != 0 { // an empty list means all the variables
				res = append(res, Call{K: kMakecube, Set: s, Pol: p})
			}
		}
	}
	return res
}

// outwards gives the renamings to variable t of all functions of the other three
// of four variables.
func outwards(t int) []Call {
	var res []Call
	for f := T(0); f < 256; f++ {
		var g T
		for a := uint(0); a < 16; a++ {
			b := a&(1<<uint(t)-1) | a>>uint(t+1)<<uint(t)
			g |= f >> b & 1 << a
		}
		for v := 0; v < 4; v++ {
			m := []int{0, 1, 2, 3}
			m[v] = t
			c := Call{K: kReplace, F: []T{g}, M: m}
			if v != t && support(g, 4)>>uint(v)&1 == 1 && c.defined(4) {
				res = append(res, c)
			}
		}
	}
	return res
}

func c19(c *Ctx) {
	nf := 18
	if c.Thorough() {
		nf = 48
	}
	fs := sampleOf(nf)
	cs := callsOver(3, fs, fs[:7], []uint{1, 2, 4, 3, 5, 6, 7}, renamings(3))
	cs = append(cs, moreCalls(3, fs[:9])...)
	const chunk = 40
	for _, p := range pressures() {
		for li, lv := range [][]int{{1, 2, 4}, {4, 1, 3}} {
			for pre := 0; pre < 3; pre++ {
				if li == 1 && !c.Thorough() && (pre == 2 || p.name == "ratio") {
					continue
				}
				for i := 0; i < len(cs); i += chunk {
					c.Unit(fmt.Sprintf("A.%s.%d.%d.%d", p.name, li, pre, i), func(u *U) {
						for k := i; k < i+chunk && k < len(cs); k++ {
							if c.Expired() {
								c.Cap("deadline")
								return
							}
							maxfree := -1
							for free := 0; ; free++ {
								if !invisible(u, p, lv, cs[k], pre, free) {
									break
								}
								maxfree = free
							}
							if maxfree > 2 && k%97 == 0 {
								u.Sample("%s (%s): a collection at each of %d allocations", cs[k].show(&Env{n: 3}), p.name, maxfree+1)
							}
						}
					})
				}
			}
		}
	}
	// R: renamings to a variable that does not occur
	for pi, p := range pressures() {
		for t := 0; t < 4; t++ {
			for blk := 0; blk < 16; blk++ {
				pi, p, t, blk := pi, p, t, blk
				c.Unit(fmt.Sprintf("R.%s.%d.%d", p.name, t, blk), func(u *U) {
					stride := c.Quick(3, 1)
					for k, cl := range outwards(t) {
						if k%16 != blk || k/16%stride != pi%stride {
							continue
						}
						if c.Expired() {
							c.Cap("deadline")
							return
						}
						for free := 0; invisible(u, p, []int{1, 2, 4, 6}, cl, 0, free); free++ {
						}
					}
				})
			}
		}
	}
	// larger operands
	var f4 []T
	x := uint64(0x9e3779b97f4a7c15)
	for len(f4) < 10 {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		f4 = append(f4, T(x)&0xffff)
	}
	f4 = append(f4, 0x6996, 0xfee8)
	rep4 := [][]int{}
	for i, m := range renamings(4) {
		if i%5 == 1 {
			rep4 = append(rep4, m)
		}
	}
	cs4 := callsOver(4, f4, f4[:6], []uint{5, 9, 14, 15}, rep4)
	var some []Call
	for i, k := range cs4 {
		if c.Thorough() || i%7 == 0 || k.K == kIte {
			some = append(some, k)
		}
	}
	for _, p := range pressures() {
		for i := 0; i < len(some); i += chunk {
			c.Unit(fmt.Sprintf("B.%s.%d", p.name, i), func(u *U) {
				for k := i; k < i+chunk && k < len(some); k++ {
					if c.Expired() {
						c.Cap("deadline")
						return
					}
					for free := 0; invisible(u, p, []int{1, 2, 4, 6}, some[k], 0, free); free++ {
					}
				}
			})
		}
	}
}

// ------------------------------------------------------------------ C18

// The operations of a user, written with the kernel functions as documented.

// userop is a recursive operation: majority, xor3 and Ite on three operands.
func (e *Env) userop(kind int, a, b, c rudd.Node) rudd.Node {
	e.Initref()
	e.Pushref(*a)
	e.Pushref(*b)
	e.Pushref(*c)
	r := e.userrec(kind, *a, *b, *c)
	e.Popref(3)
	return e.Retnode(r)
}

// view of a node through the API
func (e *Env) cofactors(id int) (level, low, high int) {
	if id < 2 {
		return e.varnum, id, id
	}
	n := rudd.Node(&id)
	lo, hi := e.BDD.Low(n), e.BDD.High(n)
	level, low, high = e.Label(n), idOf(lo), idOf(hi)
	e.drop(e.take(lo))
	e.drop(e.take(hi))
	return
}

func (e *Env) userrec(kind, a, b, c int) int {
	if a < 2 && b < 2 && c < 2 {
		switch kind {
		case 0:
			if a+b+c >= 2 {
				return 1
			}
			return 0
		case 1:
			return a ^ b ^ c
		default:
			if a == 1 {
				return b
			}
			return c
		}
	}
	la, a0, a1 := e.cofactors(a)
	lb, b0, b1 := e.cofactors(b)
	lc, c0, c1 := e.cofactors(c)
	l := lowest(la, lowest(lb, lc))
	if la != l {
		a0, a1 = a, a
	}
	if lb != l {
		b0, b1 = b, b
	}
	if lc != l {
		c0, c1 = c, c
	}
	low := e.Pushref(e.userrec(kind, a0, b0, c0))
	high := e.Pushref(e.userrec(kind, a1, b1, c1))
	e.u.Trans(1)
	r := e.Makenode(int32(l), low, high)
	e.Popref(2)
	return r
}

func userwant(kind int, f, g, h T) T {
	switch kind {
	case 0:
		return f&g | f&h | g&h
	case 1:
		return f ^ g ^ h
	}
	return f&g | ^f&h
}

func userCase(u *U, p pressure, lv []int, kind int, f, g, h T, drop bool, free int) bool {
	u.Reset()
	e := u.NewEnv(9, lv, p.cfg)
	fl := e.newFiller(0)
	w := e.mk(0x96)
	a, b, c := e.mk(f), e.mk(g), e.mk(h)
	e.squeeze(fl, p, free)
	if drop {
		// only the reference stack protects the operands
		for _, x := range []rudd.Node{a, b, c} {
			e.drop(x)
		}
	}
	what := fmt.Sprintf("user operation %d on %s, %s, %s with %d free slots (%s, drop %v)", kind, e.show(f), e.show(g), e.show(h), free, p.name, drop)
	u.T("%s", what)
	g0 := e.stat()
	r := e.take(e.userop(kind, a, b, c))
	g1 := e.stat()
	s := e.Snapshot()
	e.wellformed(s)
	e.accounting(s)
	e.want(s, r, userwant(kind, f, g, h)&e.mask(), what)
	e.want(s, w, 0x96, "a node held during "+what)
	if !drop {
		e.want(s, a, f, "operand 1 of "+what)
		e.want(s, b, g, "operand 2 of "+what)
		e.want(s, c, h, "operand 3 of "+what)
	}
	if e.Errored() {
		u.Fail("%s: the error status is set: %s", what, clip(e.Error()))
	}
	u.Eval()
	u.Done()
	if g1.GC == g0.GC {
		return false
	}
	u.Nontrivial()
	return true
}

// stackCase builds nodes one by one on the reference stack: none may disappear.
func stackCase(u *U, p pressure, depth int, free int, popat int) {
	u.Reset()
	e := u.NewEnv(9, []int{5, 6, 7, 8}, p.cfg)
	fl := e.newFiller(1) // fillers at level 1
	held := e.mk(0x6996)
	e.squeeze(fl, p, free)
	what := fmt.Sprintf("%d nodes on the reference stack, %d free slots (%s)", depth, free, p.name)
	u.T("%s", what)
	e.Initref()
	type nd struct {
		id, level int
		low, high int
	}
	var st []nd
	add := func(level, lo, hi int) {
		r := e.Makenode(int32(level), lo, hi)
		if r < 2 {
			u.Fail("%s: Makenode(%d, %d, %d) = %d: %s", what, level, lo, hi, r, clip(e.Error()))
		}
		if got := e.Pushref(r); got != r {
			u.Fail("Pushref(%d) = %d", r, got)
		}
		st = append(st, nd{r, level, lo, hi})
		u.Trans(1)
	}
	check := func() {
		s := e.Snapshot()
		for _, x := range st {
			y := s.node(x.id)
			if y == nil || y.Level != x.level || y.Low != x.low || y.High != x.high {
				u.Fail("%s: node %d was made as (level %d, low %d, high %d) and is on the reference stack, now it is %v", what, x.id, x.level, x.low, x.high, y)
			}
		}
		e.want(s, held, 0x6996, "a held node")
		e.wellformed(s)
	}
	// a chain at levels 4..2, then wide nodes
	lits := []int{}
	for v := 5; v < 9; v++ {
		lits = append(lits, *e.Ithvar(v), *e.NIthvar(v))
	}
	k := 0
	for len(st) < depth {
		for l := 4; l >= 2 && len(st) < depth; l-- {
			lo, hi := lits[k%8], lits[(k/8+k+1)%8]
			if l < 4 && len(st) > 0 && st[len(st)-1].level > l {
				lo = st[len(st)-1].id
			}
			k++
			if lo != hi {
				add(l, lo, hi)
			}
		}
		if len(st)%popat == popat-1 && len(st) > 2 {
			e.Popref(2)
			st = st[:len(st)-2]
			u.Trans(1)
			for i := 0; i < 3; i++ { // recursion in the documented way
				add(3, lits[(k+i)%8], lits[(k+i+3)%8])
			}
			k += 3
		}
	}
	check()
	// more allocations: several collections
	for i := 0; i < 40; i++ {
		a, b := fl.next()
		if e.Makenode(1, a, b) < 0 {
			u.Fail("%s: allocation fails: %s", what, clip(e.Error()))
		}
		u.Trans(1)
		if i%8 == 0 {
			check()
		}
	}
	check()
	// Makenode finds them again, without making new ones
	g0 := e.stat()
	for _, x := range st {
		if r := e.Makenode(int32(x.level), x.low, x.high); r != x.id {
			u.Fail("%s: Makenode(%d, %d, %d) = %d, but it is node %d", what, x.level, x.low, x.high, r, x.id)
		}
	}
	if g1 := e.stat(); g1 != g0 {
		u.Fail("%s: looking up existing nodes changes the table: %v -> %v", what, g0, g1)
	}
	n := e.take(e.Retnode(st[len(st)-1].id))
	e.Initref()
	fl.gc()
	s := e.Snapshot()
	top := st[len(st)-1]
	y := s.node(*n)
	if y == nil || y.Level != top.level || y.Low != top.low || y.High != top.high {
		u.Fail("%s: the node %d returned by Retnode is now %v", what, *n, y)
	}
	e.exactlyHeld(1, what+"; after Initref")
	u.Eval()
	u.Nontrivial()
	u.Done()
}

func c18(c *Ctx) {
	nf := 11
	if c.Thorough() {
		nf = 22
	}
	fs := sampleOf(nf + 2)[2:]
	ps := pressures()
	for _, p := range ps {
		for li, lv := range [][]int{{1, 2, 4}, {4, 1, 3}} {
			for kind := 0; kind < 3; kind++ {
				for i := range fs {
					c.Unit(fmt.Sprintf("U.%s.%d.%d.%d", p.name, li, kind, i), func(u *U) {
						for _, g := range fs {
							for _, h := range fs {
								for _, drop := range []bool{false, true} {
									for free := 0; userCase(u, p, lv, kind, fs[i], g, h, drop, free); free++ {
									}
								}
							}
						}
						if i == 0 {
							u.Sample("user operation %d (%s): a collection at each allocation", kind, p.name)
						}
					})
				}
			}
		}
		for _, popat := range []int{3, 5, 1000} {
			c.Unit(fmt.Sprintf("S.%s.%d", p.name, popat), func(u *U) {
				for depth := 1; depth <= 40; depth++ {
					for free := 0; free < 8; free++ {
						stackCase(u, p, depth, free, popat)
					}
				}
			})
		}
	}
	// Makenode on every triple
	for _, cfg := range []Cfg{{}, {Nodesize: 23, Cache: 5}, {Nodesize: 61, Minfree: 100, Cache: 11}} {
		c.Unit("M3."+cfg.String(), func(u *U) { makeall(u, 3, 256, cfg) })
		c.Unit("M4."+cfg.String(), func(u *U) { makeall(u, 4, 900, cfg) })
	}
	// deep reference stacks: recursion over many levels
	for _, n := range []int{100, 1000, 5000} {
		c.Unit(fmt.Sprintf("D.%d", n), func(u *U) { deepop(u, n) })
	}
}

// makeall calls Makenode on all the triples that are ordered.
func makeall(u *U, n, limit int, cfg Cfg) {
	e := u.NewEnv(n, nil, cfg)
	var fs []T
	if n == 3 {
		for f := T(0); f < 256; f++ {
			fs = append(fs, f)
		}
	} else {
		fs = append(fs, 0, 0xffff)
		x := uint64(88172645463325252)
		for len(fs) < limit {
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
			f := T(x) & 0xffff
			if len(fs)%3 == 0 { // not on variable 0
				f = cof(f, 0, true) & 0xffff
			}
			fs = append(fs, f)
		}
	}
	node := map[T]int{}
	for _, f := range fs {
		node[f] = *e.mk(f)
	}
	// all the functions that can be successors at a level
	for l := 0; l < n; l++ {
		var below []T
		for _, f := range fs {
			if support(f, n)&(1<<uint(l+1)-1) == 0 {
				below = append(below, f)
			}
		}
		for _, f := range below {
			for _, g := range below {
				st := e.stat()
				e.Initref()
				r := e.Makenode(int32(l), node[f], node[g])
				u.Trans(1)
				want := f&^varTT[l] | g&varTT[l]
				what := fmt.Sprintf("Makenode(%d, node of %s, node of %s)", l, e.show(f), e.show(g))
				if f == g {
					if r != node[f] {
						u.Fail("%s gives node %d, expected the common successor %d", what, r, node[f])
					}
				} else if id, ok := node[want]; ok {
					if r != id {
						u.Fail("%s gives node %d, expected %d", what, r, id)
					}
				} else {
					lv, lo, hi := e.cofactors(r)
					if lv != l || lo != node[f] || hi != node[g] {
						u.Fail("%s gives node %d = (%d, %d, %d)", what, r, lv, lo, hi)
					}
					if again := e.Makenode(int32(l), node[f], node[g]); again != r {
						u.Fail("%s gives node %d and then %d", what, r, again)
					}
				}
				if _, ok := node[want]; ok {
					if now := e.stat(); now != st {
						u.Fail("%s changes the table, but the node exists: %v -> %v", what, st, now)
					}
				}
				u.Eval()
				if f != g {
					u.Nontrivial()
				}
			}
		}
	}
	s := e.Snapshot()
	e.wellformed(s)
	for f, id := range node {
		if t, ok := e.tt(s, id); !ok || t != f {
			u.Fail("node %d should denote %s", id, e.show(f))
		}
	}
	u.Done()
}

// deepop is an operation of the user that keeps n nodes on the reference stack:
// the conjunction of n literals from the last to the first, with collections.
func deepop(u *U, n int) {
	e := u.NewEnv(n, []int{0}, Cfg{Nodesize: 2*n + 10, Minfree: 1, Maxinc: 8, Cache: 11})
	for _, kind := range []int{0, 1, 2} {
		e.Initref()
		var stack []int
		r := 1
		for l := n - 1; l >= 0; l-- {
			switch kind {
			case 0:
				r = e.Makenode(int32(l), 0, r)
			case 1:
				r = e.Makenode(int32(l), r, 0)
			case 2: // separate nodes
				r = e.Makenode(int32(l), *e.Ithvar(n - 1), 1)
				if l == n-1 {
					r = *e.Ithvar(l)
				}
			}
			if r < 0 {
				u.Fail("Makenode fails at level %d: %s", l, clip(e.Error()))
			}
			e.Pushref(r)
			stack = append(stack, r)
			u.Trans(1)
		}
		seen := map[int]int{}
		for i, r := range stack {
			l := n - 1 - i
			lv, lo, hi := e.cofactors(r)
			bad := lv != l
			switch {
			case l == n-1 && kind == 1:
				bad = bad || lo != 1 || hi != 0
			case l == n-1:
				bad = bad || lo != 0 || hi != 1
			case kind == 0:
				bad = bad || lo != 0 || hi != stack[i-1]
			case kind == 1:
				bad = bad || lo != stack[i-1] || hi != 0
			case kind == 2:
				bad = bad || lo != *e.Ithvar(n - 1) || hi != 1
			}
			if bad {
				u.Fail("kind %d: the node %d made at level %d of %d and pushed is now (%d, %d, %d)", kind, r, l, n, lv, lo, hi)
			}
			if j, ok := seen[r]; ok {
				u.Fail("nodes at levels %d and %d have the same identity %d", j, l, r)
			}
			seen[r] = l
		}
		u.Eval()
		u.Nontrivial()
	}
	u.Done()
}
