package main

import (
	"fmt"

	"github.com/dalzilio/rudd"
)

func init() {
	checks["C02"] = c02
	checks["C03"] = c03
	checks["C04"] = c04
}

func c02(c *Ctx) {
	ck := mcheck{canon: true}
	machUnits(c, ck)
	// S: long deterministic histories for every configuration of a grid
	for _, ns := range []int{1, 23, 40} {
		for _, mf := range []int{1, 21, 51, 101} {
			for _, mi := range []int{0, 2, 8} {
				for _, cache := range []int{1, 31} {
					cfg := Cfg{Nodesize: ns, Minfree: mf, Maxinc: mi, Cache: cache}
					c.Unit("S."+cfg.String(), func(u *U) { history(u, cfg, ck, 1500) })
				}
			}
		}
	}
	// B: every way of building sets and cubes
	for first := 0; first < 4; first++ {
		first := first
		c.Unit(fmt.Sprintf("B.makeset.%d", first), func(u *U) {
			e := u.NewEnv(4, nil, Cfg{Nodesize: 11, Cache: 1})
			var rec func(seq []int)
			rec = func(seq []int) {
				u.Eval()
				u.T("Makeset(%v)", seq)
				n := e.Makeset(seq)
				s := e.Snapshot()
				e.wellformed(s)
				e.drop(e.take(n))
				u.trace = u.trace[:0]
				if len(seq) == 5 {
					return
				}
				for v := 0; v < 4; v++ {
					rec(append(append([]int{}, seq...), v))
				}
			}
			rec([]int{first})
		})
	}
	// R: substitutions, also ill-defined ones
	c.Unit("R", func(u *U) {
		for _, m := range renamings(3) {
			for f := T(0); f < 256; f++ {
				u.Reset()
				e := u.NewEnv(3, nil, Cfg{Nodesize: 13, Cache: 3})
				n := e.mk(f)
				r := e.replacer(m)
				u.Eval()
				u.T("Replace(%02x,%v)", f, m)
				res := e.take(e.Replace(n, r))
				s := e.Snapshot()
				e.wellformed(s)
				if res != nil {
					if s.node(*res) == nil {
						u.Fail("the result, node %d, is not active", *res)
					}
				}
			}
		}
	})
}

// history runs a long history with a window of held nodes.
func history(u *U, cfg Cfg, ck mcheck, steps int) {
	cf := &mconf{varnum: 6, lv: []int{1, 2, 4}, cfg: cfg, init: []T{0x96, 0xe8, 0x72, 0x1b, 0x01, 0x66}, lazy: true}
	m := newMach(u, cf)
	x := uint32(12345)
	rnd := func(n int) int {
		x = x*1664525 + 1013904223
		return int(x>>16) % n
	}
	for i := 0; i < steps; i++ {
		k, j, l := rnd(6), rnd(6), rnd(6)
		switch op := rnd(16); {
		case op < 10:
			if m.slots[k] != nil && m.slots[j] != nil {
				u.T("s%d = Apply(s%d,s%d,%s)", l, k, j, opname[op])
				m.result(l, m.Apply(m.slots[k], m.slots[j], ops[op]), applyT(op, m.tts[k], m.tts[j], 3))
			}
		case op == 10:
			u.T("notice")
			m.notice()
		case op == 11:
			u.T("drop s%d", k)
			m.clear(k)
		case op == 12:
			u.T("garbage")
			m.Initref()
			m.fl.i, m.fl.j = rnd(2), 2+rnd(len(m.fl.ids)-2)
			m.fl.add()
		case op == 13:
			if m.slots[k] != nil {
				u.T("s%d = Exist", l)
				vs := m.take(m.Makeset([]int{m.lv[rnd(3)]}))
				set := uint(1) << uint(m.logic[m.Scanset(vs)[0]])
				r := m.Exist(m.slots[k], vs)
				m.own[r]++
				m.drop(vs)
				m.own[r]--
				m.result(l, r, existT(m.tts[k], set, 3))
			}
		case op == 14:
			t := T(rnd(256))
			u.T("s%d = %02x", l, t)
			m.set(l, m.mk(t), t)
			m.own[m.slots[l]]--
		case op == 15:
			if m.slots[k] != nil && m.slots[j] != nil && m.slots[l] != nil {
				u.T("s%d = Ite(s%d,s%d,s%d)", l, k, j, l)
				t := (m.tts[k]&m.tts[j] | ^m.tts[k]&m.tts[l]) & m.mask()
				m.result(l, m.Ite(m.slots[k], m.slots[j], m.slots[l]), t)
			}
		}
		u.Eval()
		u.Trans(1)
		m.check(ck)
		if u.State(m.hash()) {
			u.Nontrivial()
		}
	}
	m.finish(ck)
	u.Done()
}

func c03(c *Ctx) {
	ck := mcheck{held: true}
	machUnits(c, ck)
	for _, ns := range []int{1, 23, 40} {
		for _, mf := range []int{1, 21, 51, 101} {
			for _, mi := range []int{0, 2, 8} {
				cfg := Cfg{Nodesize: ns, Minfree: mf, Maxinc: mi, Cache: 5}
				c.Unit("S."+cfg.String(), func(u *U) { history(u, cfg, ck, 1500) })
			}
		}
	}
	// R: every number of references to one node; all but one are dropped
	max := 1100
	if c.Thorough() {
		max = 2200
	}
	const blk = 20
	for lo := 1; lo <= max; lo += blk {
		lo := lo
		c.Unit(fmt.Sprintf("R.%d", lo), func(u *U) {
			for r := lo; r < lo+blk; r++ {
				for order := 0; order < 3; order++ {
					manyrefs(u, r, order)
				}
			}
		})
	}
	for _, r := range []int{2046, 2047, 2048, 2049, 4097, 65537, 70000} {
		r := r
		c.Unit(fmt.Sprintf("R.%d", r), func(u *U) { manyrefs(u, r, 0); manyrefs(u, r, 2) })
	}
	// F: the same for all functions
	for f := T(0); f < 256; f += 8 {
		f := f
		c.Unit(fmt.Sprintf("F.%02x", f), func(u *U) {
			for g := f; g < f+8; g++ {
				for _, r := range []int{1, 2, 3, 127, 128, 255, 256, 257, 511, 512, 1022, 1023, 1024, 1025, 1030} {
					refsTo(u, g, r, int(g)%3)
				}
			}
		})
	}
	// Q: all sequences of taking and dropping references around the counts
	// where a counter of 8, 9 or 10 bits is full
	depth := 9
	if c.Thorough() {
		depth = 13
	}
	for _, base := range []int{2, 126, 127, 254, 255, 510, 511, 1019, 1020, 1021, 1022, 1023, 1024} {
		base := base
		c.Unit(fmt.Sprintf("Q.%d", base), func(u *U) {
			for seq := 0; seq < 1<<uint(depth); seq++ {
				refseq(u, base, seq, depth)
			}
		})
	}
	c03more(c)
}

// refEnv: a tight table where x1&x2 ... is the only protected function.
func refEnv(u *U) (*Env, *filler) {
	e := u.NewEnv(5, []int{1, 2, 3}, Cfg{Nodesize: 19, Cache: 3, Minfree: 1})
	return e, e.newFiller(0)
}

func manyrefs(u *U, r int, order int) { refsTo(u, 0x96, r, order) }

func refsTo(u *U, f T, r int, order int) {
	u.Reset()
	e, fl := refEnv(u)
	refs := []rudd.Node{e.mk(f)}
	for len(refs) < r {
		switch len(refs) % 3 {
		case 0:
			refs = append(refs, e.take(e.Retnode(*refs[0])))
		case 1:
			refs = append(refs, e.take(e.And(refs[0], e.True())))
		case 2:
			refs = append(refs, e.take(e.Or(e.False(), refs[0])))
		}
	}
	keep := 0
	switch order {
	case 1:
		keep = r / 2
	case 2:
		keep = r - 1
	}
	u.T("take %d references to %02x, drop all but number %d, collection", r, f, keep)
	for i, n := range refs {
		if i != keep {
			e.drop(n)
		}
	}
	for round := 0; round < 2; round++ {
		fl.gc()
		// reuse the free slots
		st := e.stat()
		for k := st.Free; k > 1; k-- {
			fl.add()
		}
		s := e.Snapshot()
		e.want(s, refs[keep], f, fmt.Sprintf("the reference that is left of %d", r))
	}
	// the same computation gives the same node
	n := e.take(e.And(refs[keep], e.True()))
	if n == nil || !e.Equal(n, refs[keep]) {
		u.Fail("And(n, True) is not n any more")
	}
	u.Eval()
	u.Trans(r)
	u.Done()
	u.Nontrivial()
	u.State(mix(uint64(r), uint64(order)))
}

func refseq(u *U, base, seq, depth int) {
	u.Reset()
	e, fl := refEnv(u)
	const f = T(0x96)
	refs := []rudd.Node{e.mk(f)}
	for len(refs) < base {
		refs = append(refs, e.take(e.Retnode(*refs[0])))
	}
	for i := 0; i < depth; i++ {
		if seq>>uint(i)&1 != 0 {
			refs = append(refs, e.take(e.Retnode(*refs[0])))
		} else if len(refs) > 1 {
			e.drop(refs[len(refs)-1])
			refs = refs[:len(refs)-1]
		}
	}
	for len(refs) > 1 {
		e.drop(refs[len(refs)-1])
		refs = refs[:len(refs)-1]
	}
	fl.gc()
	st := e.stat()
	for k := st.Free; k > 1; k-- {
		fl.add()
	}
	s := e.Snapshot()
	e.want(s, refs[0], f, fmt.Sprintf("the reference that is left after %d references and the sequence %0*b of takes (1) and drops (0)", base, depth, seq))
	u.Eval()
	u.Trans(base + depth)
	u.Done()
}

func c04(c *Ctx) {
	ck := mcheck{account: true, reclaim: true}
	machUnits(c, ck)
	for _, ns := range []int{1, 23, 40} {
		for _, mf := range []int{1, 21, 51, 101} {
			for _, mi := range []int{0, 2, 8} {
				cfg := Cfg{Nodesize: ns, Minfree: mf, Maxinc: mi, Cache: 5}
				c.Unit("S."+cfg.String(), func(u *U) { history(u, cfg, ck, 1500) })
			}
		}
	}
	c04more(c)
}
