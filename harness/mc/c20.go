package main

import (
	"bytes"
	"fmt"
	"math/big"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/dalzilio/rudd"

	"verif/vrt"
)

func init() { checks["C20"] = c20 }

// wide is a view of a BDD with many variables: all the functions of some
// logical variables. Several views may share a BDD.
type wide struct {
	*Env
	node []rudd.Node
}

// rawEnv makes a BDD without reading the table.
func (u *U) rawEnv(varnum int, cfg Cfg) *Env {
	b, err := newBDD(varnum, cfg)
	if err != nil || b == nil {
		u.Fail("New(%d, %v) fails: %v", varnum, cfg, err)
	}
	if b.Varnum() != varnum {
		u.Fail("New(%d, %v) has %d variables", varnum, cfg, b.Varnum())
	}
	return &Env{BDD: b, u: u, varnum: varnum, cfg: cfg, own: map[*int]int{}}
}

// view makes all the functions over the given levels.
func (e0 *Env) view(lv ...int) *wide {
	e := &Env{BDD: e0.BDD, u: e0.u, varnum: e0.varnum, n: len(lv), lv: lv, cfg: e0.cfg, own: e0.own, logic: map[int]int{}}
	for i, l := range lv {
		e.logic[l] = i
	}
	w := &wide{Env: e}
	for t := T(0); t <= e.mask(); t++ {
		w.node = append(w.node, e.mk(t))
	}
	w.sound("construction")
	return w
}

// sound reads all the functions back.
func (w *wide) sound(when string) {
	for t, n := range w.node {
		if got := w.apiTT(n); got != T(t) {
			w.u.Fail("levels %v of %d, %s: node %d denotes %s, expected %s", w.lv, w.varnum, when, *n, w.show(got), w.show(T(t)))
		}
	}
}

func (w *wide) is(r rudd.Node, t T, c Call) {
	t &= w.mask()
	if r == nil || *r != *w.node[t] {
		got := "nil (" + clip(w.Error()) + ")"
		if r != nil {
			got = fmt.Sprintf("node %d", *r)
			if n := w.Label(r); n >= 0 {
				got += fmt.Sprintf(" of variable %d", n)
			}
		}
		w.u.Fail("levels %v of %d: %s yields %s, expected %s (node %d)", w.lv, w.varnum, c.show(w.Env), got, w.show(t), *w.node[t])
	}
	w.drop(w.take(r))
}

func (w *wide) call(c Call, set rudd.Node, r rudd.Replacer) {
	a := Args{Set: set, R: r}
	for _, f := range c.F {
		a.F = append(a.F, w.node[f])
	}
	w.is(w.exec(c, a), c.want(w.n), c)
	w.u.Eval()
}

// literals checks the literals of the levels ks.
func (e *Env) literals(ks []int, when string) {
	for _, k := range ks {
		p, q := e.Ithvar(k), e.NIthvar(k)
		if p == nil || q == nil {
			e.u.Fail("%s: a literal of variable %d of %d is nil: %s", when, k, e.varnum, clip(e.Error()))
		}
		if e.Label(p) != k || e.Label(q) != k {
			e.u.Fail("%s: the literals of variable %d of %d have labels %d and %d", when, k, e.varnum, e.Label(p), e.Label(q))
		}
		for i, n := range []rudd.Node{e.Low(p), e.High(p), e.High(q), e.Low(q)} {
			if idOf(n) != i&1 {
				e.u.Fail("%s: the literals of variable %d of %d are not literals (successor %d is %d)", when, k, e.varnum, i, idOf(n))
			}
		}
		e.u.Count("literals", 2)
	}
}

// edges gives the levels around powers of two, and the first and last ones.
func edges(n int) []int {
	m := map[int]bool{}
	for b := 1; b <= 1<<22; b <<= 1 {
		for d := -2; d <= 2; d++ {
			m[b+d] = true
			m[n-b+d] = true
		}
	}
	var res []int
	for k := range m {
		if k >= 0 && k < n {
			res = append(res, k)
		}
	}
	sort.Ints(res)
	return res
}

// spots selects tuples of levels whose numbers collide when bits are lost.
func spots(n int, all bool) [][]int {
	var res [][]int
	seen := map[string]bool{}
	add := func(l ...int) {
		sort.Ints(l)
		for i, x := range l {
			if x < 0 || x >= n || i > 0 && l[i-1] == x {
				return
			}
		}
		if k := fmt.Sprint(l); !seen[k] {
			seen[k] = true
			res = append(res, l)
		}
	}
	add(0, 1, 2)
	add(0, n/2, n-1)
	add(n-3, n-2, n-1)
	for _, b := range []int{20, 16, 15, 8, 7, 14, 10, 19, 18, 17, 13, 12, 11, 9, 6, 5, 4, 3, 2, 1} {
		p := 1 << uint(b)
		add(1, 1+p, n-1)
		add(p-1, p, p+1)
		if all {
			add(0, p, n-1)
			add(0, p, 2*p)
			add(n-1-2*p, n-1-p, n-1)
			add(n-1-p, n-2, n-1)
			for _, q := range []int{7, 8, 15, 16} {
				if q != b {
					add(3, 3+p, 3+1<<uint(q))
				}
			}
		}
	}
	return res
}

// run makes all kinds of calls on a view.
func (w *wide) run(full bool) {
	u := w.u
	gs := sampleOf(14)
	ite := sampleOf(9)
	if full {
		gs, ite = sampleOf(40), sampleOf(16)
	}
	for f := T(0); f <= w.mask(); f++ {
		w.call(Call{K: kNot, F: []T{f}}, nil, nil)
		for _, g := range gs {
			for op := range ops {
				c := Call{K: kApply, Op: op, F: []T{f, g}}
				w.call(c, nil, nil)
				if x := c.want(w.n); x != f && x != g && x != 0 && x != w.mask() {
					u.Nontrivial()
				}
			}
		}
	}
	for _, f := range ite {
		for _, g := range ite {
			for _, h := range ite {
				w.call(Call{K: kIte, F: []T{f, g, h}}, nil, nil)
			}
		}
	}
	for s := uint(0); s < 1<<uint(w.n); s++ {
		set := w.mkset(s)
		if m := w.take(w.Makeset(w.levels(s))); idOf(m) != *set {
			u.Fail("levels %v of %d: Makeset(%v) is node %d, expected %d", w.lv, w.varnum, w.levels(s), idOf(m), *set)
		} else if got, want := w.scanset(m), w.levels(s); !equalInts(got, want) {
			u.Fail("levels %v of %d: Scanset(Makeset(%v)) = %v", w.lv, w.varnum, want, got)
		} else {
			w.drop(m)
		}
		for pol := uint(0); pol < 1<<uint(w.n); pol++ {
			if pol&^s == 0 && s != 0 {
				w.call(Call{K: kMakecube, Set: s, Pol: pol}, nil, nil)
			}
		}
		for f := T(0); f <= w.mask(); f++ {
			w.call(Call{K: kExist, F: []T{f}, Set: s}, set, nil)
		}
		for _, f := range gs {
			for _, g := range ite {
				for op := 0; op < 4; op++ {
					w.call(Call{K: kAppex, Op: op, F: []T{f, g}, Set: s}, set, nil)
				}
			}
		}
		w.drop(set)
	}
	for i, m := range renamings(w.n) {
		if w.varnum > 100000 && i%4 != 1 && !full {
			continue
		}
		r := w.replacer(m)
		for f := T(0); f <= w.mask(); f++ {
			if c := (Call{K: kReplace, F: []T{f}, M: m}); c.defined(w.n) {
				w.call(c, nil, r)
			}
		}
	}
	// counting and enumerating
	for i, f := range gs {
		if i > 6 && w.varnum > 3000 {
			break
		}
		if w.varnum > 100000 && i%3 != 2 {
			continue
		}
		cnt := 0
		for a := 0; a < 1<<uint(w.n); a++ {
			cnt += int(f>>uint(a)) & 1
		}
		want := new(big.Int).Lsh(big.NewInt(int64(cnt)), uint(w.varnum-w.n))
		if got := w.satcount(w.node[f]); got == nil || got.Cmp(want) != 0 {
			u.Fail("levels %v of %d: Satcount(%s) is not %d * 2^%d", w.lv, w.varnum, w.show(f), cnt, w.varnum-w.n)
		}
		u.Eval()
		var got T
		err := w.Allsat(func(prof []int) error {
			if len(prof) != w.varnum {
				u.Fail("Allsat of %d variables gives an assignment of length %d", w.varnum, len(prof))
			}
			set := w.mask()
			for k, v := range prof {
				if v == -1 {
					continue
				}
				l, ok := w.logic[k]
				if !ok {
					u.Fail("levels %v of %d: Allsat(%s) fixes variable %d", w.lv, w.varnum, w.show(f), k)
				}
				if v == 1 {
					set &= varTT[l]
				} else {
					set &^= varTT[l]
				}
			}
			if set&got != 0 {
				u.Fail("levels %v of %d: Allsat(%s) gives an assignment twice", w.lv, w.varnum, w.show(f))
			}
			got |= set
			return nil
		}, w.node[f])
		if err != nil || got != f&w.mask() {
			u.Fail("levels %v of %d: Allsat(%s) gives %s, error %v", w.lv, w.varnum, w.show(f), w.show(got), err)
		}
		u.Eval()
	}
	// Allnodes and Print
	for _, f := range gs[len(gs)-3:] {
		n := 0
		err := w.Allnodes(func(id, level, low, high int) error {
			n++
			if _, ok := w.logic[level]; !ok && id > 1 {
				u.Fail("levels %v of %d: Allnodes(%s) visits node %d of variable %d", w.lv, w.varnum, w.show(f), id, level)
			}
			return nil
		}, w.node[f])
		if want := len(w.sub(f)); err != nil || n != want && n != want-2 {
			u.Fail("levels %v of %d: Allnodes(%s) visits %d nodes, expected %d, error %v", w.lv, w.varnum, w.show(f), n, want, err)
		}
		if w.varnum < 100000 {
			var buf bytes.Buffer
			w.Print(&buf, w.node[f])
			for _, l := range w.levels(support(f, w.n)) {
				if !strings.Contains(buf.String(), fmt.Sprint(l)) {
					u.Fail("levels %v of %d: Print(%s) does not mention variable %d:\n%s", w.lv, w.varnum, w.show(f), l, clip(buf.String()))
				}
			}
		}
		u.Eval()
	}
	if w.Errored() {
		u.Fail("levels %v of %d: error status after valid calls: %s", w.lv, w.varnum, clip(w.Error()))
	}
}

// sub gives the functions of the nodes reachable from f, with the constants.
func (w *wide) sub(f T) map[T]bool {
	res := map[T]bool{0: true, w.mask(): true}
	var rec func(f T, k int)
	rec = func(f T, k int) {
		if res[f] {
			return
		}
		res[f] = true
		i := k
		for !depends(f, w.order(i), w.n) {
			i++
		}
		v := w.order(i)
		rec(cof(f, v, false)&w.mask(), i+1)
		rec(cof(f, v, true)&w.mask(), i+1)
	}
	rec(f, 0)
	return res
}

// churn fills the table with garbage until a collection happens.
func (e *Env) churn(lv []int) {
	st := e.stat()
	a, b := lv[0], lv[1]
	for i := 0; ; i++ {
		// (a, x, y) for literals x, y of variables below b
		m := e.varnum - b
		x := b + i%m
		y := b + (i/m)%m
		e.Initref()
		r := -1
		switch i / (m * m) % 4 {
		case 0:
			r = e.Makenode(int32(a), *e.Ithvar(x), *e.NIthvar(y))
		case 1:
			r = e.Makenode(int32(a), *e.NIthvar(x), *e.Ithvar(y))
		case 2:
			r = e.Makenode(int32(a), *e.Ithvar(x), *e.Ithvar(y))
		case 3:
			r = e.Makenode(int32(a), *e.NIthvar(x), *e.NIthvar(y))
		}
		if r < 0 {
			e.u.Fail("Makenode fails although no limit was set: %s", clip(e.Error()))
		}
		if i >= 4*m*m { // all these nodes exist: one level more
			e.Pushref(r)
			e.Makenode(int32(i%a), r, 1-i/a%2)
			e.Popref(1)
		}
		if i > st.Free && e.stat().GC > st.GC {
			return
		}
		if i > 3*st.Alloc+1000 {
			e.u.Fail("no collection after %d allocations (%v)", i, st)
		}
		if i%1024 == 0 {
			tick()
		}
	}
}

func c20(c *Ctx) {
	debug.SetMaxStack(1 << 30)
	heavy := func() { debug.FreeOSMemory() }
	// A: the numbers of variables that New accepts
	c.Unit("New.rejects", func(u *U) {
		for _, n := range []int{-1 << 63, -1 << 62, -1<<32 + 1, -1 << 32, -1 << 31, -1<<31 - 1, -1<<32 + 5, -2097151, -65536, -255, -2, -1, 0, 1 << 21, 1<<21 + 1, 1<<21 + 5, 1 << 22, 1<<22 + 3, 1 << 24, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1 << 32, 1<<32 + 1, 1<<32 + 5, 1<<33 + 7, 1<<40 + 3, 1<<53 + 1, 1<<62 + 3, 1<<63 - 1} {
			for _, o := range [][]Cfg{{{}}, {{Nodesize: 100}}, {{Nodesize: 1000, Cache: 10, Ratio: 10, Maxnodesize: 5000, Minfree: 10, Maxinc: 10}}} {
				u.Eval()
				u.Nontrivial()
				if n > 1<<22 || n < 0 { // an accepted huge count could exhaust the memory
					if limit := u.allocates(func() { newBDD(n, o[0]) }); limit != "" {
						u.Fail("New(%d) %s", n, limit)
					}
				}
				b, err := newBDD(n, o[0])
				if b != nil || err == nil {
					u.Fail("New(%d, %v) = %v, %v", n, o[0], b != nil, err)
				}
			}
		}
	})
	step := 125
	for n0 := 1; n0 <= 3000; n0 += step {
		n0 := n0
		c.Unit(fmt.Sprintf("New.accepts.%d", n0), func(u *U) {
			for n := n0; n < n0+step; n++ {
				e := u.rawEnv(n, Cfg{})
				ks := make([]int, n)
				for k := range ks {
					ks[k] = k
				}
				ids := map[int]bool{0: true, 1: true}
				for k := range ks {
					p, q := *e.Ithvar(k), *e.NIthvar(k)
					if ids[p] || ids[q] || p == q {
						u.Fail("literals of variable %d of %d share a node", k, n)
					}
					ids[p], ids[q] = true, true
				}
				e.literals(ks, "new")
				for _, k := range []int{n, n + 1, -1} {
					if e.Ithvar(k) != nil && *e.Ithvar(k) != 0 {
						u.Fail("Ithvar(%d) of %d variables is node %d", k, n, *e.Ithvar(k))
					}
				}
				u.Eval()
			}
		})
	}
	// B: functions of 3 variables at all kinds of levels
	type job struct {
		n   int
		cfg Cfg
	}
	var jobs []job
	for _, n := range []int{3, 4, 5, 127, 128, 129, 130, 131, 254, 255, 256, 257, 258, 511, 513, 1023, 1024, 1025, 1026, 2047, 2049, 4095, 4096, 4097, 8193, 16385, 32766, 32767, 32768, 32769, 32770, 65534, 65535, 65536, 65537, 65538, 131071, 131073, 262145, 524289, 1048575, 1048576, 1048577, 2097150, 2097151} {
		jobs = append(jobs, job{n, Cfg{Nodesize: 2*n + 3000, Cache: 1}}, job{n, Cfg{}})
		if c.Thorough() {
			jobs = append(jobs, job{n, Cfg{Nodesize: 2*n + 900, Cache: 101}})
		}
	}
	for i := len(jobs) - 1; i >= 0; i-- {
		j := jobs[i]
		sp := spots(j.n, c.Thorough() || j.n < 5000)
		if !c.Thorough() && j.n > 100000 && j.cfg.Cache == 0 {
			sp = sp[:5]
		}
		c.Unit(fmt.Sprintf("wide.%d.%v", j.n, j.cfg), func(u *U) {
			e := u.rawEnv(j.n, j.cfg)
			e.literals(edges(j.n), "new")
			u.Sample("%d variables, %v: all kinds of calls over the functions of 3 variables at each of the levels %v", j.n, j.cfg, sp)
			var ws []*wide
			for k, l := range sp {
				tick()
				w := e.view(l...)
				ws = append(ws, w)
				if j.n < 3000 && k < 4 || c.Thorough() && k < 6 {
					w.run(true)
				} else {
					w.run(false)
				}
				if j.n > 65536 {
					vrt.Reset()
				}
			}
			// a collection
			if j.n >= 100 && (j.n < 200000 || j.cfg.Cache == 1) {
				e.churn([]int{j.n / 2, j.n/2 + 1})
				e.literals(edges(j.n), "after a collection")
				for _, w := range ws {
					w.sound("after a collection")
				}
				ws[len(ws)-1].run(false)
				u.Count("collections", 1)
			}
			if j.n <= 20000 {
				e.lv, e.n = nil, 0
				e.Env2(ws)
			}
			ws, e = nil, nil
			if j.n > 200000 {
				vrt.Reset()
				heavy()
			}
		})
	}
	// C: families of functions that live at a distance of a power of two
	bits := []uint{7, 8, 10, 12, 15, 16, 17, 20, 21}
	if c.Thorough() {
		bits = []uint{6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22}
	}
	for i := len(bits) - 1; i >= 0; i-- {
		for _, cache := range []int{1, 30011} {
			bit, cache := bits[i], cache
			c.Unit(fmt.Sprintf("apart.%d.%d", bit, cache), func(u *U) {
				apart(u, bit, cache)
				vrt.Reset()
				heavy()
			})
		}
	}
	// D: literals at a distance
	for _, b := range []int{8, 9, 16, 17, 20} {
		b := b
		for _, cache := range []int{1, 5003} {
			cache := cache
			c.Unit(fmt.Sprintf("literals.%d.%d", b, cache), func(u *U) {
				literals(u, b, cache)
				vrt.Reset()
				heavy()
			})
		}
	}
	// E: functions that depend on all variables
	for _, n := range []int{1000, 32769, 65537, 300000, 1048577, 2097151} {
		n := n
		if n > 1000000 && !c.Thorough() && n != 1048577 {
			continue
		}
		c.Unit(fmt.Sprintf("deep.%d", n), func(u *U) {
			deep(u, n)
			vrt.Reset()
			heavy()
		})
	}
}

// Env2 checks the whole table.
func (e *Env) Env2(ws []*wide) {
	s := e.Snapshot()
	e.wellformed(s)
	e.accounting(s)
}

// allocates runs f on another goroutine and tells if it is going to use too
// much memory or time.
func (u *U) allocates(f func()) string {
	done := make(chan any, 1)
	var m0 runtime.MemStats
	runtime.ReadMemStats(&m0)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	if r := <-done; r != nil {
		return fmt.Sprintf("panics: %v", r)
	}
	return ""
}

// apart makes two families of isomorphic functions, the nodes of which differ
// by 2^bit, and calls on them one after the other.
func apart(u *U, bit uint, cache int) {
	vn := 1300
	if bit > 21 {
		vn = 2500
	}
	d := 1 << bit
	size := 2*vn + 2 + 3*d + 2000
	e := u.rawEnv(vn, Cfg{Nodesize: size, Cache: cache})
	e.own = map[*int]int{}
	// fillers are nodes of variable 0 with literals below 20 as successors
	x, y, z := 20, 20, 0
	fill := func() int {
		e.Initref()
		y++
		if y == vn {
			x, y = x+1, 20
		}
		if x == vn {
			x, z = 20, z+1
		}
		switch z {
		case 0, 1:
			return e.Makenode(int32(z), *e.Ithvar(x), *e.NIthvar(y))
		case 2, 3:
			return e.Makenode(int32(z-2), *e.NIthvar(x), *e.Ithvar(y))
		case 4, 5:
			return e.Makenode(int32(z-4), *e.Ithvar(x), *e.Ithvar(y))
		case 6, 7:
			return e.Makenode(int32(z-6), *e.NIthvar(x), *e.NIthvar(y))
		}
		u.Fail("harness: no more fillers")
		return -1
	}
	family := func(lv ...int) *wide { return e.view(lv...) }
	a := family(2, 5, 9)
	base := *a.node[0x96]
	// the same functions over other variables, in the same order, so that every
	// node is at the same distance; the first new node of each is probed
	before := e.stat().Produced
	b0 := family(3, 6, 10)
	size0 := e.stat().Produced - before
	_ = b0
	gap := *b0.node[0x96] - base // distance without filler
	var w []*wide
	last := *b0.node[0x96]
	for i := 1; i <= 3 || bit < 10 && i <= 12; i++ {
		// the next family would be at last+gap
		target := base + i*d
		k := target - (last + gap)
		if k < 0 {
			continue
		}
		for ; k > 0; k-- {
			if fill() < 0 {
				u.Fail("harness: cannot fill")
			}
		}
		tick()
		f := family(3+2*i+8, 6+2*i+8, 10+2*i+8)
		last = *f.node[0x96]
		w = append(w, f)
		if last != target {
			u.Count("missed distances", 1)
		} else {
			u.Count("families at the exact distance", 1)
		}
	}
	_ = size0
	w = append([]*wide{a}, w...)
	u.Sample("functions over 3 variables in %d families whose nodes differ by multiples of 2^%d, every call on each family in turn, cache %d", len(w), bit, cache)
	each := func(cs []Call) {
		sets := make([]map[uint]rudd.Node, len(w))
		for i := range sets {
			sets[i] = map[uint]rudd.Node{}
		}
		for k, c := range cs {
			for i, v := range w {
				if c.needset() && sets[i][c.Set] == nil {
					sets[i][c.Set] = v.mkset(c.Set)
				}
				v.call(c, sets[i][c.Set], nil)
				u.Nontrivial()
			}
			if k%1000 == 0 {
				tick()
			}
		}
	}
	fs := sampleOf(14)
	var cs []Call
	for f := T(0); f < 256; f++ {
		cs = append(cs, Call{K: kNot, F: []T{f}})
	}
	for _, f := range fs {
		for _, g := range fs {
			for op := range ops {
				cs = append(cs, Call{K: kApply, Op: op, F: []T{f, g}})
			}
			for _, h := range fs[:8] {
				cs = append(cs, Call{K: kIte, F: []T{f, g, h}})
			}
			for _, s := range []uint{1, 2, 6, 7} {
				for op := 0; op < 4; op++ {
					cs = append(cs, Call{K: kAppex, Op: op, F: []T{f, g}, Set: s})
				}
			}
		}
	}
	for f := T(0); f < 256; f++ {
		for s := uint(1); s < 8; s++ {
			cs = append(cs, Call{K: kExist, F: []T{f}, Set: s})
		}
	}
	each(cs)
	// operands from different families: the union of the variables
	if len(w) > 1 {
		for _, i := range []int{1, len(w) - 1} {
			v := w[i]
			two := &Env{BDD: e.BDD, u: u, varnum: vn, own: e.own, n: 6, lv: append(append([]int{}, a.lv...), v.lv...), logic: map[int]int{}}
			for k, l := range two.lv {
				two.logic[l] = k
			}
			up := func(f T) T { // f over the variables 3..5
				var r T
				for x := 0; x < 64; x++ {
					if f>>uint(x>>3)&1 != 0 {
						r |= 1 << uint(x)
					}
				}
				return r
			}
			dn := func(f T) T {
				var r T
				for x := 0; x < 64; x++ {
					if f>>uint(x&7)&1 != 0 {
						r |= 1 << uint(x)
					}
				}
				return r
			}
			for _, f := range fs[2:8] {
				for _, g := range fs[2:8] {
					for op := range ops {
						for k, r := range []rudd.Node{e.Apply(a.node[f], v.node[g], ops[op]), e.Apply(v.node[g], a.node[f], ops[op]), e.Apply(a.node[f], a.node[g], ops[op]), e.Apply(v.node[f], v.node[g], ops[op])} {
							want := []T{applyT(op, dn(f), up(g), 6), applyT(op, up(g), dn(f), 6), applyT(op, dn(f), dn(g), 6), applyT(op, up(f), up(g), 6)}[k]
							if got := two.apiTT(r); got != want {
								u.Fail("nodes at a distance of %d * 2^%d: Apply(%s, %s, %s) case %d is wrong", i, bit, a.show(f), a.show(g), opname[op], k)
							}
							e.drop(e.take(r))
							u.Eval()
						}
					}
					for k, r := range []rudd.Node{e.Ite(a.node[f], v.node[g], a.node[g]), e.Ite(a.node[f], a.node[g], v.node[g]), e.Ite(v.node[f], a.node[g], v.node[g]), e.Ite(a.node[f], a.node[g], a.node[0x96])} {
						ite := func(f, g, h T) T { return f&g | ^f&h }
						want := []T{ite(dn(f), up(g), dn(g)), ite(dn(f), dn(g), up(g)), ite(up(f), dn(g), up(g)), ite(dn(f), dn(g), dn(0x96))}[k]
						if got := two.apiTT(r); got != want {
							u.Fail("nodes at a distance of %d * 2^%d: Ite(%s, %s, ..) case %d is wrong", i, bit, a.show(f), a.show(g), k)
						}
						e.drop(e.take(r))
						u.Eval()
					}
				}
			}
		}
	}
	// unique table: nodes whose successors are at a distance
	type key struct{ l, a, b int }
	made := map[key]int{}
	back := map[int]key{}
	var kids []int
	for _, v := range w {
		kids = append(kids, *v.node[0x96], *v.node[0xe8], *v.node[0xca])
	}
	e.Initref()
	for round := 0; round < 2; round++ {
		for _, l := range []int{0, 1} {
			for _, p := range kids {
				for _, q := range kids {
					if p == q {
						continue
					}
					k := key{l, p, q}
					r := e.Makenode(int32(l), p, q)
					if r < 2 {
						u.Fail("Makenode(%v) = %d", k, r)
					}
					if o, ok := made[k]; ok && o != r {
						u.Fail("Makenode(%v) was %d, now %d", k, o, r)
					}
					if o, ok := back[r]; ok && o != k {
						u.Fail("Makenode(%v) and Makenode(%v) are both %d", o, k, r)
					}
					made[k], back[r] = r, k
					e.Pushref(r)
					u.Eval()
				}
			}
		}
	}
	// a collection with all families alive
	if st := e.stat(); st.Alloc < 3<<24 {
		g := e.stat().GC
		for e.stat().GC == g {
			for k := 0; k < 2000; k++ {
				if fill() < 0 {
					u.Fail("harness: cannot fill")
				}
			}
			tick()
		}
		for _, v := range w {
			v.sound("after a collection")
		}
		u.Count("collections", 1)
		each(cs[:600])
	}
	if e.Errored() {
		u.Fail("error status after valid calls: %s", clip(e.Error()))
	}
}

// literals: operations on literals whose numbers and nodes are powers of two
// apart.
func literals(u *U, b int, cache int) {
	d := 1 << uint(b)
	n := 2*d - 5
	if b < 12 {
		n = 5 * d
	}
	e := u.rawEnv(n, Cfg{Nodesize: 2*n + 6000, Cache: cache})
	var ks []int
	for _, base := range []int{0, 1, 5} {
		for _, off := range []int{0, d / 4, d / 2, d - 4, d - 1, d, d + 1, d + d/2, 2 * d, 3 * d} {
			if k := base + off; k < n {
				ks = append(ks, k)
			}
		}
	}
	sort.Ints(ks)
	uniq := ks[:0]
	for i, k := range ks {
		if i == 0 || uniq[len(uniq)-1] != k {
			uniq = append(uniq, k)
		}
	}
	ks = uniq
	u.Sample("%d variables: all operators on all pairs of the literals of %v", n, ks)
	for _, k1 := range ks {
		tick()
		for _, k2 := range ks {
			if k1 == k2 {
				continue
			}
			two := &Env{BDD: e.BDD, u: u, varnum: n, own: e.own, n: 2, lv: []int{k1, k2}, logic: map[int]int{k1: 0, k2: 1}}
			fs := []T{0xA, 0x5, 0xC, 0x3}
			ns := []rudd.Node{e.Ithvar(k1), e.NIthvar(k1), e.Ithvar(k2), e.NIthvar(k2)}
			for i := range fs {
				for j := range fs {
					for op := range ops {
						r := e.Apply(ns[i], ns[j], ops[op])
						if got, want := two.apiTT(r), applyT(op, fs[i], fs[j], 2); got != want {
							u.Fail("%d variables: Apply of literals of %d and %d, %s: %x instead of %x", n, k1, k2, opname[op], got, want)
						}
						e.drop(e.take(r))
						u.Eval()
						u.Nontrivial()
					}
				}
				r := e.Not(ns[i])
				if idOf(r) != *ns[i^1] {
					u.Fail("%d variables: Not of a literal of %d or %d is %d, expected %d", n, k1, k2, idOf(r), *ns[i^1])
				}
				e.drop(e.take(r))
				u.Eval()
			}
			// quantification by one literal of functions of both
			for _, q := range []struct {
				set rudd.Node
				i   uint
			}{{ns[0], 1}, {ns[2], 2}} {
				for _, f := range []T{0x6, 0x8, 0xA, 0xC, 0xE} {
					x := two.mk(f)
					r := e.Exist(x, q.set)
					if got, want := two.apiTT(r), existT(f, q.i, 2); got != want {
						u.Fail("%d variables: Exist of %x over variables %d, %d, set %d: %x instead of %x", n, f, k1, k2, q.i, got, want)
					}
					e.drop(e.take(r))
					r = e.AppEx(x, ns[0], rudd.OPor, q.set)
					if got, want := two.apiTT(r), existT(f|0xA, q.i, 2); got != want {
						u.Fail("%d variables: AppEx of %x over variables %d, %d, set %d: %x instead of %x", n, f, k1, k2, q.i, got, want)
					}
					e.drop(e.take(r))
					e.drop(x)
					u.Eval()
				}
			}
		}
	}
	if e.Errored() {
		u.Fail("error status after valid calls: %s", clip(e.Error()))
	}
}

// deep: functions that depend on every variable.
func deep(u *U, n int) {
	u.Sample("%d variables: the conjunction of all of them, its negation, quantification, renaming, count, a collection", n)
	e := u.rawEnv(n, Cfg{Nodesize: 5*n + 500, Cache: 1 << 12})
	all := make([]int, n)
	for k := range all {
		all[k] = k
	}
	m := e.take(e.Makeset(all))
	if m == nil {
		u.Fail("Makeset of %d variables: %s", n, clip(e.Error()))
	}
	tick()
	if got := e.scanset(m); !equalInts(got, all) {
		u.Fail("Scanset of the set of all %d variables gives %d variables", n, len(got))
	}
	spine := func(x rudd.Node, neg bool, first, last int) {
		// x is the conjunction of first..last, or its negation
		k := first
		stop := 1
		out := 0
		if neg {
			stop, out = 0, 1
		}
		y := x
		for ; *y > 1; k++ {
			if e.Label(y) != k {
				u.Fail("deep function of %d variables: label %d instead of %d", n, e.Label(y), k)
			}
			lo, hi := e.Low(y), e.High(y)
			if *lo != out {
				u.Fail("deep function of %d variables: wrong successor at %d", n, k)
			}
			if y != x {
				vrt.Drop(y)
			}
			y = hi
			if k%4096 == 0 {
				tick()
			}
		}
		if k != last+1 || *y != stop {
			u.Fail("deep function of %d variables: ends at %d with node %d", n, k, *y)
		}
		u.Eval()
	}
	spine(m, false, 0, n-1)
	tick()
	neg := e.take(e.Not(m))
	if neg == nil {
		u.Fail("Not of the set of %d variables: %s", n, clip(e.Error()))
	}
	tick()
	spine(neg, true, 0, n-1)
	half := e.take(e.Makeset(all[n/2:]))
	r := e.take(e.Exist(m, half))
	tick()
	if r == nil {
		u.Fail("Exist of %d variables: %s", n, clip(e.Error()))
	}
	spine(r, false, 0, n/2-1)
	e.drop(r)
	r = e.take(e.And(m, neg))
	if idOf(r) != 0 {
		u.Fail("x and not x is node %d, %d variables", idOf(r), n)
	}
	tick()
	r = e.take(e.Or(m, neg))
	if idOf(r) != 1 {
		u.Fail("x or not x is node %d, %d variables", idOf(r), n)
	}
	tick()
	r = e.take(e.Ite(half, m, neg))
	// half -> m ; not half -> not m = true (as half is implied by m)
	s := e.take(e.Imp(half, m))
	if idOf(r) != idOf(s) || r == nil {
		u.Fail("Ite and Imp of %d variables differ: %d, %d: %s", n, idOf(r), idOf(s), clip(e.Error()))
	}
	e.drop(r)
	e.drop(s)
	tick()
	if got := e.satcount(half); n < 400000 && (got == nil || got.Cmp(new(big.Int).Lsh(big.NewInt(1), uint(n/2))) != 0) {
		u.Fail("Satcount of the conjunction of the last %d of %d variables is wrong", n-n/2, n)
	}
	tick()
	cnt := 0
	if err := e.Allsat(func(p []int) error {
		cnt++
		for k, v := range p {
			if v != 1 {
				u.Fail("Allsat of the conjunction of %d variables: variable %d is %d", n, k, v)
			}
		}
		return nil
	}, m); err != nil || cnt != 1 {
		u.Fail("Allsat of the conjunction of %d variables: %d assignments, %v", n, cnt, err)
	}
	e.churn([]int{0, n / 2})
	tick()
	spine(m, false, 0, n-1)
	spine(neg, true, 0, n-1)
	spine(half, false, n/2, n-1)
	if e.Errored() {
		u.Fail("error status after valid calls: %s", clip(e.Error()))
	}
	u.Nontrivial()
}
