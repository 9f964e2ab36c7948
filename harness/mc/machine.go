package main

import (
	"fmt"

	"github.com/dalzilio/rudd"

	"verif/vrt"
)

// The handle machine: a user program that holds a few nodes in slots, computes
// on them, drops them, while the explorer decides when a dropped reference is
// noticed and when garbage and collections occur. Its reachable states are
// explored breadth first, on the real code (a state is the history that leads
// to it; histories that lead to the same memory are merged).

type mach struct {
	*Env
	slots []rudd.Node
	tts   []T
	pend  []rudd.Node // dropped, not noticed yet
	pendT []T
	fl    *filler
	reps  []rudd.Replacer
	maps  [][]int
	lazy  bool
	gcs   int
}

type action struct {
	name string
	f    func(m *mach) bool // false: not enabled
}

type mconf struct {
	name   string
	varnum int
	lv     []int
	cfg    Cfg
	init   []T
	lazy   bool
	acts   []action
	depth  int
	maps   [][]int
}

func (m *mach) set(k int, n rudd.Node, t T) {
	old, oldt := m.slots[k], m.tts[k]
	m.slots[k], m.tts[k] = m.take(n), t
	if old != nil {
		m.forget(old, oldt)
	}
}

func (m *mach) forget(n rudd.Node, t T) {
	if m.own[n] > 1 {
		m.own[n]--
		return
	}
	if m.lazy && vrt.HasFinalizer(n) {
		m.pend = append(m.pend, n)
		m.pendT = append(m.pendT, t)
		return
	}
	m.drop(n)
}

func (m *mach) clear(k int) bool {
	if m.slots[k] == nil {
		return false
	}
	m.forget(m.slots[k], m.tts[k])
	m.slots[k] = nil
	return true
}

// result stores the result of an operation in a slot
func (m *mach) result(k int, n rudd.Node, t T) {
	if n == nil {
		m.u.Fail("the result is nil (error %q), expected %s", clip(m.Error()), m.show(t))
	}
	m.releaseOwn(n)
	m.set(k, n, t)
}

func (m *mach) releaseOwn(n rudd.Node) {
	m.own[n]++
	m.releaseTemps()
	m.own[n]--
	if m.own[n] == 0 {
		delete(m.own, n)
	}
}

// reach is the set of nodes that a collection must keep.
func (m *mach) reach(s *Snap, extra ...int) map[int]bool {
	res := map[int]bool{0: true, 1: true}
	var walk func(id int)
	walk = func(id int) {
		if res[id] {
			return
		}
		x := s.node(id)
		if x == nil {
			m.u.Fail("node %d is needed but not active", id)
		}
		res[id] = true
		walk(x.Low)
		walk(x.High)
	}
	for v := 0; v < m.varnum; v++ {
		walk(*m.Ithvar(v))
		walk(*m.NIthvar(v))
	}
	for _, n := range m.slots {
		if n != nil {
			walk(*n)
		}
	}
	for _, n := range m.pend {
		walk(*n)
	}
	for _, id := range extra {
		walk(id)
	}
	return res
}

type mcheck struct{ canon, held, account, reclaim, result bool }

// check evaluates the invariants in the current state.
func (m *mach) check(ck mcheck) {
	s := m.Snapshot()
	if ck.canon {
		m.wellformed(s)
		// Equal iff same function
		type ref struct {
			n rudd.Node
			t T
		}
		var refs []ref
		add := func(n rudd.Node) {
			t, ok := m.tt(s, *n)
			if ok {
				refs = append(refs, ref{n, t})
			}
		}
		for _, n := range m.slots {
			if n != nil {
				if s.node(*n) == nil {
					m.u.Fail("node %d is held but not active", *n)
				}
				add(n)
			}
		}
		add(m.True())
		add(m.False())
		for i := range m.lv {
			add(m.Ithvar(m.lv[i]))
			add(m.NIthvar(m.lv[i]))
		}
		for i := range refs {
			for j := range refs {
				if m.Equal(refs[i].n, refs[j].n) != (refs[i].t == refs[j].t) {
					m.u.Fail("Equal(node %d, node %d) is %v, functions %s and %s", *refs[i].n, *refs[j].n, m.Equal(refs[i].n, refs[j].n), m.show(refs[i].t), m.show(refs[j].t))
				}
			}
		}
	}
	if ck.held {
		for k, n := range m.slots {
			if n != nil {
				m.want(s, n, m.tts[k], fmt.Sprintf("node held in slot %d", k))
			}
		}
	}
	if ck.account {
		m.accounting(s)
	}
}

// gc forces a collection.
func (m *mach) gc(ck mcheck) {
	m.fl.gc()
	m.gcs++
	if ck.reclaim {
		m.exact(1)
	}
}

// exact checks that the active nodes are exactly the reachable ones, plus at
// most slack nodes made since the collection.
func (m *mach) exact(slack int) {
	s := m.Snapshot()
	r := m.reach(s)
	extra := 0
	for _, x := range s.Nodes {
		if !r[x.ID] {
			extra++
			if extra > slack {
				m.u.Fail("node %d (level %d, low %d, high %d) is still active after a collection, but nothing refers to it", x.ID, x.Level, x.Low, x.High)
			}
		}
	}
}

func newMach(u *U, cf *mconf) *mach {
	e := u.NewEnv(cf.varnum, cf.lv, cf.cfg)
	m := &mach{Env: e, lazy: cf.lazy, maps: cf.maps}
	m.fl = e.newFiller(0)
	m.slots = make([]rudd.Node, len(cf.init))
	m.tts = make([]T, len(cf.init))
	for k, t := range cf.init {
		m.slots[k], m.tts[k] = e.mk(t), t
	}
	for _, mp := range cf.maps {
		m.reps = append(m.reps, e.replacer(mp))
	}
	vrt.ResetFresh()
	return m
}

func (m *mach) hash() uint64 {
	h := hashOf(m.BDD)
	for k, n := range m.slots {
		if n == nil {
			h = mix(h, 1)
		} else {
			h = mix(mix(h, uint64(*n)+2), uint64(m.tts[k]))
			if vrt.HasFinalizer(n) {
				h = mix(h, 77)
			}
		}
	}
	for i := range m.slots {
		for j := range m.slots {
			if m.slots[i] == m.slots[j] {
				h = mix(h, uint64(i*8+j))
			}
		}
	}
	var p uint64
	for i, n := range m.pend {
		p += mix(uint64(*n)+99, uint64(m.pendT[i]))
	}
	h = mix(h, p)
	return mix(h, uint64(m.fl.i*1000+m.fl.j))
}

// explore runs the breadth-first search from the state after action first.
func (u *U) explore(cf *mconf, ck mcheck, first int) {
	type path []uint8
	run := func(p path) (m *mach, ok bool) {
		u.Reset()
		m = newMach(u, cf)
		for _, a := range p {
			u.T("%s", cf.acts[a].name)
			if !cf.acts[a].f(m) {
				return m, false
			}
		}
		return m, true
	}
	seen := map[uint64]bool{}
	frontier := []path{{uint8(first)}}
	if m, ok := run(frontier[0]); !ok {
		return
	} else {
		m.check(ck)
		seen[m.hash()] = true
	}
	u.Trans(1)
	for depth := 1; depth < cf.depth; depth++ {
		var next []path
		for _, p := range frontier {
			for a := range cf.acts {
				q := append(append(make(path, 0, len(p)+1), p...), uint8(a))
				m, ok := run(q)
				if !ok {
					continue
				}
				u.Eval()
				u.Trans(1)
				m.check(ck)
				h := m.hash()
				if seen[h] {
					continue
				}
				seen[h] = true
				u.State(h)
				if m.gcs > 0 {
					u.Nontrivial()
				}
				if depth+1 == cf.depth {
					u.Done()
					m.finish(ck)
					continue
				}
				next = append(next, q)
			}
			if u.c.Expired() {
				u.c.Cap(fmt.Sprintf("deadline in %s at depth %d", u.name, depth+1))
				return
			}
		}
		frontier = next
	}
}

// finish ends a history: everything is dropped and noticed, a collection must
// leave only the constants and the variables.
func (m *mach) finish(ck mcheck) {
	if !ck.reclaim {
		return
	}
	m.u.T("drop everything, notice, collection")
	for k := range m.slots {
		m.clear(k)
	}
	m.notice()
	m.gc(ck)
	m.check(ck)
}

func (m *mach) notice() bool {
	if len(m.pend) == 0 {
		return false
	}
	for _, n := range m.pend {
		m.drop(n)
	}
	m.pend, m.pendT = m.pend[:0], m.pendT[:0]
	return true
}

// alphabet builds the actions for K slots of n variables.
func alphabet(K, n int, ck mcheck, size string, maps [][]int, lazy bool) []action {
	var as []action
	add := func(name string, f func(m *mach) bool) { as = append(as, action{name, f}) }
	bin := []int{0, 1, 5} // and, xor, imp
	core := size == "core"
	if core {
		bin = []int{0, 1}
	}
	if size == "big" {
		bin = []int{0, 1, 2, 3, 5, 7}
	}
	for _, op := range bin {
		for i := 0; i < K; i++ {
			for j := 0; j < K; j++ {
				if i == j || (core && i != op%K) {
					continue
				}
				op, i, j := op, i, j
				add(fmt.Sprintf("s%d = Apply(s%d,s%d,%s)", i, i, j, opname[op]), func(m *mach) bool {
					if m.slots[i] == nil || m.slots[j] == nil {
						return false
					}
					t := applyT(op, m.tts[i], m.tts[j], m.n)
					m.result(i, m.Apply(m.slots[i], m.slots[j], ops[op]), t)
					return true
				})
			}
		}
	}
	for i := 0; i < K; i++ {
		i := i
		j, k := (i+1)%K, (i+2)%K
		if core && i != 0 {
			add(fmt.Sprintf("drop s%d", i), func(m *mach) bool { return m.clear(i) })
			continue
		}
		add(fmt.Sprintf("s%d = Not(s%d)", i, i), func(m *mach) bool {
			if m.slots[i] == nil {
				return false
			}
			m.result(i, m.Not(m.slots[i]), ^m.tts[i]&m.mask())
			return true
		})
		if K > 2 {
			add(fmt.Sprintf("s%d = Ite(s%d,s%d,s%d)", i, i, j, k), func(m *mach) bool {
				if m.slots[i] == nil || m.slots[j] == nil || m.slots[k] == nil {
					return false
				}
				m.result(i, m.Ite(m.slots[i], m.slots[j], m.slots[k]), (m.tts[i]&m.tts[j]|^m.tts[i]&m.tts[k])&m.mask())
				return true
			})
		}
		add(fmt.Sprintf("drop s%d", i), func(m *mach) bool { return m.clear(i) })
		add(fmt.Sprintf("s%d = s%d again (Retnode)", j, i), func(m *mach) bool {
			if m.slots[i] == nil {
				return false
			}
			m.result(j, m.Retnode(*m.slots[i]), m.tts[i])
			return true
		})
		add(fmt.Sprintf("s%d = High(s%d)", j, i), func(m *mach) bool {
			if m.slots[i] == nil || *m.slots[i] < 2 {
				return false
			}
			v := m.logic[m.Label(m.slots[i])]
			m.result(j, m.High(m.slots[i]), cof(m.tts[i], v, true)&m.mask())
			return true
		})
		v := i % n
		add(fmt.Sprintf("s%d = Exist(s%d,{%d})", i, i, v), func(m *mach) bool {
			if m.slots[i] == nil {
				return false
			}
			vs := m.take(m.Makeset([]int{m.lv[v]}))
			t := existT(m.tts[i], 1<<uint(v), m.n)
			r := m.Exist(m.slots[i], vs)
			m.own[r]++
			m.drop(vs)
			m.own[r]--
			m.result(i, r, t)
			return true
		})
		if size == "big" {
			add(fmt.Sprintf("s%d = AndExist(s%d,s%d,{%d,%d})", i, i, j, v, (v+1)%n), func(m *mach) bool {
				if m.slots[i] == nil || m.slots[j] == nil {
					return false
				}
				vs := m.take(m.Makeset([]int{m.lv[v], m.lv[(v+1)%n]}))
				t := existT(m.tts[i]&m.tts[j], 1<<uint(v)|1<<uint((v+1)%n), m.n)
				r := m.AndExist(m.slots[i], m.slots[j], vs)
				m.own[r]++
				m.drop(vs)
				m.own[r]--
				m.result(i, r, t)
				return true
			})
			add(fmt.Sprintf("s%d = And(s%d,s%d,s%d)", k, i, j, k), func(m *mach) bool {
				if m.slots[i] == nil || m.slots[j] == nil || m.slots[k] == nil {
					return false
				}
				m.result(k, m.And(m.slots[i], m.slots[j], m.slots[k]), m.tts[i]&m.tts[j]&m.tts[k])
				return true
			})
		}
	}
	for x := range maps {
		x := x
		if core && x > 0 {
			continue
		}
		add(fmt.Sprintf("s0 = Replace(s0,%v)", maps[x]), func(m *mach) bool {
			if m.slots[0] == nil || !(Call{K: kReplace, F: []T{m.tts[0]}, M: m.maps[x]}).defined(m.n) {
				return false
			}
			m.result(0, m.Replace(m.slots[0], m.reps[x]), substT(m.tts[0], m.maps[x], m.n)&m.mask())
			return true
		})
	}
	add("collection", func(m *mach) bool { m.gc(ck); return true })
	add("garbage", func(m *mach) bool { m.Initref(); m.fl.add(); return true })
	if !core {
		add("s0 = cube by Makecube", func(m *mach) bool {
			pol := make([]bool, m.n)
			pol[0] = true
			m.result(0, m.Makecube(m.lv, pol), Call{K: kMakecube, Set: 1<<uint(m.n) - 1, Pol: 1}.want(m.n))
			return true
		})
	}
	if lazy {
		add("notice the dropped references", func(m *mach) bool { return m.notice() })
		add("notice one dropped reference", func(m *mach) bool {
			if len(m.pend) < 2 {
				return false
			}
			m.drop(m.pend[0])
			m.pend, m.pendT = m.pend[1:], m.pendT[1:]
			return true
		})
	}
	return as
}

func machConfs(c *Ctx, ck mcheck) []*mconf {
	maps := [][]int{{1, 1, 2}, {0, 1, 1}}
	// level 0 is for filler nodes
	lv := []int{1, 2, 4}
	var res []*mconf
	add := func(name string, cfg Cfg, lazy bool, size string, d int) {
		init := []T{0x96, 0xe8, 0x72}
		if size == "core" {
			init = init[:2]
		}
		res = append(res, &mconf{name: name + "." + size, varnum: 6, lv: lv, cfg: cfg, lazy: lazy, init: init, depth: d,
			acts: alphabet(len(init), 3, ck, size, maps, lazy), maps: maps})
	}
	for _, x := range []struct {
		name string
		cfg  Cfg
		lazy bool
		core bool
	}{
		{"tight", Cfg{Nodesize: 1, Cache: 1}, false, true},
		{"tightlazy", Cfg{Nodesize: 17, Cache: 50, Minfree: 1, Maxinc: 4}, true, true},
		{"roomy", Cfg{Nodesize: 29, Cache: 1, Minfree: 1}, false, true},
		{"alwaysresize", Cfg{Nodesize: 16, Cache: 7, Minfree: 101, Maxinc: 3, Ratio: 30}, true, false},
		{"midlazy", Cfg{Nodesize: 19, Cache: 11, Minfree: 11, Maxinc: 5}, true, false},
	} {
		if c.Thorough() {
			add(x.name, x.cfg, x.lazy, "small", 4)
			add(x.name, x.cfg, x.lazy, "big", 4)
			add(x.name, x.cfg, x.lazy, "core", 6)
		} else {
			add(x.name, x.cfg, x.lazy, "big", 3)
			if x.core {
				add(x.name, x.cfg, x.lazy, "core", 5)
			}
		}
	}
	return res
}

func machUnits(c *Ctx, ck mcheck) {
	for _, cf := range machConfs(c, ck) {
		for a := range cf.acts {
			cf, a := cf, a
			c.Unit(fmt.Sprintf("M.%s.%d", cf.name, a), func(u *U) {
				u.Sample("machine %s: %d actions, depth %d, slots %02x, %v, first action %q", cf.name, len(cf.acts), cf.depth, cf.init, cf.cfg, cf.acts[a].name)
				u.explore(cf, ck, a)
			})
		}
	}
}
