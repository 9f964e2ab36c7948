package main

import (
	"fmt"
	"math/big"

	"github.com/dalzilio/rudd"

	"verif/vrt"
)

func init() {
	checks["C07"] = c07
	checks["C08"] = c08
	checks["C09"] = c09
}

// symmetric gives the symmetric functions of n variables.
func symmetric(n int) []T {
	var res []T
	for k := 0; k < 1<<uint(n+1); k++ {
		var f T
		for a := 0; a < 1<<uint(n); a++ {
			if k>>uint(popcount(uint(a)))&1 != 0 {
				f |= 1 << uint(a)
			}
		}
		res = append(res, f)
	}
	return res
}

// setOf builds the set of variables with Makeset.
func (e *Env) setOf(levels ...int) rudd.Node {
	n := e.take(e.Makeset(levels))
	if n == nil {
		e.u.Fail("Makeset(%v) is nil: %s", levels, clip(e.Error()))
	}
	return n
}

var binops = []int{0, 1, 2, 3} // the operators of AppEx

func c07(c *Ctx) {
	// A: Exist, all functions of 4 variables, all sets
	const blocks = 32
	for _, cf := range []struct {
		name   string
		varnum int
		lv     []int
		cache  int
	}{{"plain", 4, nil, 10007}, {"tiny", 4, nil, 1}, {"embedded", 9, []int{1, 3, 4, 7}, 997}} {
		for blk := 0; blk < blocks; blk++ {
			cf, blk := cf, blk
			c.Unit(fmt.Sprintf("A.%s.%d", cf.name, blk), func(u *U) {
				e := u.newFull(cf.varnum, cf.lv, Cfg{Nodesize: 70000, Cache: cf.cache})
				var sets []rudd.Node
				for s := uint(0); s < 16; s++ {
					sets = append(sets, e.setOf(e.levels(s)...))
				}
				step := 65536 / blocks
				u.Sample("Exist(f,S) for f in [%04x..%04x], all 16 sets S, levels %v, cache %d", blk*step, blk*step+step-1, e.lv, cf.cache)
				for f := T(blk * step); f < T(blk*step+step); f++ {
					for s := range sets {
						u.Eval()
						want := existT(f, uint(s), 4)
						if want != f && want != e.mask() {
							u.Nontrivial()
						}
						e.is(e.Exist(e.node[f], sets[s]), want, "Exist(%04x,%04b)", f, s)
					}
					for s := len(sets) - 1; s >= 0; s-- { // another order of the calls
						g := f ^ 0x1ee1
						e.is(e.AndExist(e.node[f], e.node[g], sets[s]), existT(f&g, uint(s), 4), "AndExist(%04x,%04x,%04b)", f, g, s)
					}
				}
				e.noerror()
			})
		}
	}
	// B: AppEx, all pairs of functions of 3 variables, all sets and operators
	for _, cf := range []struct {
		name   string
		varnum int
		lv     []int
		cache  int
		big    bool
		perm   int
	}{{"plain", 3, nil, 10007, false, 0}, {"tiny", 3, nil, 1, false, 0}, {"embedded", 8, []int{1, 4, 6}, 211, false, 0}, {"descending", 16, permutedLevels, 31, false, 2},
		{"mid", 3, nil, 31, true, 0}, {"huge", 5, []int{0, 2, 3}, 100003, true, 0}, {"mixed", 16, permutedLevels, 7, true, 3}} {
		if cf.big && !c.Thorough() {
			continue
		}
		for blk := 0; blk < 32; blk++ {
			cf, blk := cf, blk
			c.Unit(fmt.Sprintf("B.%s.%d", cf.name, blk), func(u *U) {
				e := u.newFull(cf.varnum, cf.lv, Cfg{Nodesize: 5000, Cache: cf.cache, Perm: cf.perm})
				var sets []rudd.Node
				for s := uint(0); s < 8; s++ {
					sets = append(sets, e.setOf(e.levels(s)...))
				}
				for f := T(blk * 8); f < T(blk*8+8); f++ {
					for g := T(0); g < 256; g++ {
						for s := range sets {
							for _, op := range binops {
								u.Eval()
								want := existT(applyT(op, f, g, 3), uint(s), 3)
								if want != 0 && want != 0xff && s != 0 {
									u.Nontrivial()
								}
								e.is(e.AppEx(e.node[f], e.node[g], ops[op], sets[s]), want, "AppEx(%02x,%02x,%s,%03b)", f, g, opname[op], s)
							}
							e.is(e.AndExist(e.node[f], e.node[g], sets[s]), existT(f&g, uint(s), 3), "AndExist(%02x,%02x,%03b)", f, g, s)
						}
					}
					vrt.Reset()
				}
				e.noerror()
			})
		}
	}
	// F: sets with variables that are not in the support, at every position
	for blk := 0; blk < 16; blk++ {
		blk := blk
		c.Unit(fmt.Sprintf("F.%d", blk), func(u *U) {
			e := u.newFull(7, []int{1, 3, 5}, Cfg{Nodesize: 5000, Cache: 211})
			G := []T{0, 0xff, 0x96, 0xe8, 0xca, 0x0f, 0x88, 0x7e}
			for s := 0; s < 128; s++ {
				var levels []int
				set := uint(0)
				for l := 0; l < 7; l++ {
					if s>>uint(l)&1 != 0 {
						levels = append(levels, l)
						if i, ok := e.logic[l]; ok {
							set |= 1 << uint(i)
						}
					}
				}
				vs := e.setOf(levels...)
				for f := T(blk * 16); f < T(blk*16+16); f++ {
					u.Eval()
					u.Nontrivial()
					e.is(e.Exist(e.node[f], vs), existT(f, set, 3), "Exist(%02x,%v)", f, levels)
					for _, g := range G {
						for _, op := range binops {
							u.Eval()
							e.is(e.AppEx(e.node[f], e.node[g], ops[op], vs), existT(applyT(op, f, g, 3), set, 3), "AppEx(%02x,%02x,%s,%v)", f, g, opname[op], levels)
						}
					}
				}
				e.drop(vs)
			}
			e.noerror()
		})
	}
	// S: symmetric functions of 6 variables, all 64 sets
	for blk := 0; blk < 16; blk++ {
		blk := blk
		c.Unit(fmt.Sprintf("S.%d", blk), func(u *U) {
			e := u.NewEnv(8, []int{0, 1, 3, 4, 5, 7}, Cfg{Nodesize: 60000, Cache: 997})
			fs := symmetric(6)
			var ns []rudd.Node
			for _, f := range fs {
				ns = append(ns, e.mk(f))
			}
			var sets []rudd.Node
			for s := uint(0); s < 64; s++ {
				sets = append(sets, e.setOf(e.levels(s)...))
			}
			for i := blk * 8; i < blk*8+8; i++ {
				type rec struct {
					n rudd.Node
					t T
					s string
				}
				var rs []rec
				for s := range sets {
					rs = append(rs, rec{e.take(e.Exist(ns[i], sets[s])), existT(fs[i], uint(s), 6), fmt.Sprintf("Exist(%x,%06b)", fs[i], s)})
					for j := (s + i) % 8; j < len(fs); j += 8 {
						op := binops[(j/8+s)%4]
						u.Eval()
						u.Nontrivial()
						rs = append(rs, rec{e.take(e.AppEx(ns[i], ns[j], ops[op], sets[s])), existT(applyT(op, fs[i], fs[j], 6), uint(s), 6), fmt.Sprintf("AppEx(%x,%x,%s,%06b)", fs[i], fs[j], opname[op], s)})
					}
				}
				sn := e.Snapshot()
				for _, r := range rs {
					e.want(sn, r.n, r.t, r.s)
				}
				for _, r := range rs {
					e.drop(r.n)
				}
			}
			if e.Errored() {
				u.Fail("the error status is set after valid operations: %q", clip(e.Error()))
			}
		})
	}
	// P: all ordered pairs of sets, on adjacent calls with the same functions
	for _, cache := range []int{1, 101, 1009} {
		cache := cache
		c.Unit(fmt.Sprintf("P.%d", cache), func(u *U) {
			e := u.newFull(6, []int{0, 2, 3}, Cfg{Nodesize: 3000, Cache: cache})
			var sets []rudd.Node
			for s := uint(0); s < 8; s++ {
				sets = append(sets, e.setOf(e.levels(s)...))
			}
			for _, f := range spread(3) {
				for _, g := range []T{0x96, 0xe8, 0x0f, 0xff} {
					for s1 := range sets {
						for s2 := range sets {
							for _, o1 := range binops {
								for _, o2 := range binops {
									u.Eval()
									u.Nontrivial()
									e.is(e.AppEx(e.node[f], e.node[g], ops[o1], sets[s1]), existT(applyT(o1, f, g, 3), uint(s1), 3), "AppEx(%02x,%02x,%s,%03b)", f, g, opname[o1], s1)
									e.is(e.Exist(e.node[f], sets[s1]), existT(f, uint(s1), 3), "Exist(%02x,%03b) after AppEx %s", f, s1, opname[o1])
									e.is(e.AppEx(e.node[f], e.node[g], ops[o2], sets[s2]), existT(applyT(o2, f, g, 3), uint(s2), 3), "AppEx(%02x,%02x,%s,%03b) after %s,%03b", f, g, opname[o2], s2, opname[o1], s1)
									e.is(e.Exist(e.node[f], sets[s2]), existT(f, uint(s2), 3), "Exist(%02x,%03b) after AppEx %s", f, s2, opname[o2])
								}
							}
						}
					}
				}
				tick()
			}
			e.noerror()
		})
	}
	// H: a long history, where variables that were quantified by the first calls,
	// or by none, are never quantified again
	for _, kind := range []string{"exist", "appex", "mixed"} {
		kind := kind
		c.Unit("H."+kind, func(u *U) {
			calls := 140000
			if c.Thorough() {
				calls = 400000
			}
			e := u.NewEnv(8, []int{0, 1, 3, 4, 6, 7}, Cfg{Nodesize: 20011, Cache: 101})
			last := e.take(e.Makeset([]int{7}))
			u.Sample("%d calls (%s) on one BDD, the first four over {3}, {1}, {6} and {0,4}", calls, kind)
			for i := 0; i < calls; i++ {
				set, vs := uint(32), last
				switch i {
				case 1:
					set = 1 << 2
				case 2:
					set = 1 << 1
				case 3:
					set = 1 << 4
				case 4:
					set = 1<<0 | 1<<3
				}
				if set != 32 {
					vs = e.setOf(e.levels(set)...)
				}
				f := (T(i+1) * 0x9e3779b97f4a7c15) & e.mask()
				g := T(0x96e8ca6c) << uint(i%32) & e.mask()
				nf := e.mk(f)
				u.Eval()
				u.Nontrivial()
				var res, ref rudd.Node
				if kind == "exist" || kind == "mixed" && i%3 != 0 {
					res = e.take(e.Exist(nf, vs))
					ref = e.mk(existT(f, set, 6))
				} else {
					ng := e.mk(g)
					res = e.take(e.AppEx(nf, ng, rudd.OPor, vs))
					ref = e.mk(existT(f|g, set, 6))
					e.drop(ng)
				}
				if res == nil || *res != *ref {
					s := e.Snapshot()
					e.want(s, res, existT(f, set, 6), fmt.Sprintf("call %d: %016x, set %06b", i+1, uint64(f), set))
					u.Fail("call %d: %016x, set %06b: two nodes for the same function", i+1, uint64(f), set)
				}
				e.drop(res)
				e.drop(ref)
				e.drop(nf)
				if set != 32 {
					e.drop(vs)
				}
				if i%5000 == 0 {
					tick()
				}
			}
			if e.Errored() {
				u.Fail("the error status is set after valid operations: %q", clip(e.Error()))
			}
		})
	}
	// E: the other operators
	for _, op := range []int{4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 100, 1 << 31, 1<<63 - 1, -1, -2, -4, -1 << 31, -1 << 63} {
		op := op
		c.Unit(fmt.Sprintf("E.%d", op), func(u *U) {
			for f := T(0); f < 16; f++ {
				for g := T(0); g < 16; g++ {
					for s := uint(0); s < 4; s++ {
						u.Reset()
						e := u.newFull(2, nil, Cfg{Nodesize: 60, Cache: 13})
						set := e.setOf(e.levels(s)...)
						u.Eval()
						if r := e.AppEx(e.node[f], e.node[g], rudd.Operator(op), set); r != nil {
							u.Fail("AppEx(%x,%x,%d,%02b) yields node %d", f, g, op, s, *r)
						}
						if !e.Errored() || e.Error() == "" {
							u.Fail("AppEx(%x,%x,%d,%02b) yields nil but no error status", f, g, op, s)
						}
						for _, o := range binops {
							e.is(e.AppEx(e.node[f], e.node[g], ops[o], set), existT(applyT(o, f, g, 2), s, 2), "after an invalid operator: AppEx(%x,%x,%s,%02b)", f, g, opname[o], s)
						}
						e.is(e.Exist(e.node[f], set), existT(f, s, 2), "after an invalid operator: Exist(%x,%02b)", f, s)
					}
				}
			}
		})
	}
}

// -------------------------------------------------------------------- Replace

// moves gives the pairs of a substitution as arguments of NewReplacer.
func (e *Env) moves(m []int, identity bool) (from, to []int) {
	for i, j := range m {
		if i != j || identity {
			from = append(from, e.lv[i])
			to = append(to, e.lv[j])
		}
	}
	return
}

// checkReplace performs Replace and judges its result; it tells if the result
// was nil.
func (f *full) checkReplace(t T, m []int, r rudd.Replacer, what string) bool {
	want := substT(t, m, f.n)
	def := Call{K: kReplace, F: []T{t}, M: m}.defined(f.n)
	res := f.Replace(f.node[t], r)
	if res == nil {
		if def {
			f.bad(nil, want, fmt.Sprintf("Replace(%s,%v)%s", f.show(t), m, what))
		}
		if !f.Errored() || f.Error() == "" {
			f.u.Fail("Replace(%s,%v)%s is nil but no error status", f.show(t), m, what)
		}
		return true
	}
	if def {
		f.is(res, want, "Replace(%s,%v)%s", f.show(t), m, what)
		return false
	}
	if *res != *f.node[want] {
		f.bad(res, want, fmt.Sprintf("Replace(%s,%v)%s (ill-defined)", f.show(t), m, what))
	}
	f.drop(f.take(res))
	return false
}

func c08(c *Ctx) {
	type emb struct {
		name   string
		varnum int
		lv     []int
	}
	embs := []emb{{"plain", 3, nil}, {"gaps", 7, []int{1, 3, 6}}, {"top", 6, []int{0, 1, 2}}, {"bottom", 6, []int{3, 4, 5}}}
	// A: every function of 3 variables, every renaming, in a fresh BDD
	for _, em := range embs {
		for blk := 0; blk < 4; blk++ {
			em, blk := em, blk
			c.Unit(fmt.Sprintf("A.%s.%d", em.name, blk), func(u *U) {
				for i, m := range renamings(3) {
					if i%4 != blk {
						continue
					}
					for f := T(0); f < 256; f++ {
						u.Reset()
						e := u.NewEnv(em.varnum, em.lv, Cfg{Nodesize: 60, Cache: 31})
						def := Call{K: kReplace, F: []T{f}, M: m}.defined(3)
						keep := e.mk(0x96)
						n := e.mk(f)
						r := e.replacer(m)
						u.T("Replace(%02x,%v)", f, m)
						u.Eval()
						if def {
							u.Nontrivial()
						}
						res := e.take(e.Replace(n, r))
						s := e.Snapshot()
						e.wellformed(s)
						e.accounting(s)
						if def || res != nil {
							e.want(s, res, substT(f, m, 3), "result")
						} else if !e.Errored() || e.Error() == "" {
							u.Fail("Replace yields nil but the error status is not set")
						}
						if def && e.Errored() {
							u.Fail("well-defined Replace sets the error status: %q", clip(e.Error()))
						}
						e.want(s, n, f, "operand")
						e.want(s, keep, 0x96, "node held")
						// the BDD remains usable
						x := e.take(e.And(n, keep))
						y := e.take(e.Replace(keep, r))
						z := e.take(e.Replace(n, e.replacer([]int{0, 1, 2})))
						s = e.Snapshot()
						e.wellformed(s)
						e.want(s, x, f&0x96, "And after Replace")
						e.want(s, z, f, "Replace with the identity")
						if d := (Call{K: kReplace, F: []T{0x96}, M: m}).defined(3); d || y != nil {
							e.want(s, y, substT(0x96, m, 3), "Replace(96) after Replace")
						}
					}
				}
			})
		}
	}
	// B: every ordered pair of replacers on one long-lived BDD
	for _, em := range embs[:2] {
		for _, cache := range []int{1, 17, 1009} {
			for blk := 0; blk < 8; blk++ {
				em, cache, blk := em, cache, blk
				c.Unit(fmt.Sprintf("B.%s.%d.%d", em.name, cache, blk), func(u *U) {
					e := u.newFull(em.varnum, em.lv, Cfg{Nodesize: 5000, Cache: cache})
					rs := renamings(3)
					var reps []rudd.Replacer
					for _, m := range rs {
						reps = append(reps, e.replacer(m))
					}
					for f := T(blk * 32); f < T(blk*32+32); f++ {
						g := f ^ 0x3c
						for i := range rs {
							for j := range rs {
								u.Eval()
								if i != j {
									u.Nontrivial()
								}
								e.checkReplace(f, rs[i], reps[i], "")
								e.checkReplace(f, rs[j], reps[j], fmt.Sprintf(" after %v", rs[i]))
								e.checkReplace(g, rs[j], reps[j], fmt.Sprintf(" after Replace(%02x,%v)", f, rs[i]))
							}
						}
						s := e.Snapshot()
						e.wellformed(s)
						vrt.Reset()
					}
				})
			}
		}
	}
	// H: replacers that were created long after one another, on the same node
	for _, from := range []int{1, 2} {
		from := from
		c.Unit(fmt.Sprintf("H.%d", from), func(u *U) {
			n := 140000
			if c.Thorough() {
				n = 300000
			}
			e := u.newFull(6, []int{0, 2, 4}, Cfg{Nodesize: 3000, Cache: 1009})
			first, later := []int{1, 1, 2}, []int{2, 1, 2}
			if from == 2 {
				first, later = []int{0, 2, 2}, []int{0, 0, 2}
			}
			// functions for which both renamings are defined
			var fs []T
			for f := T(0); f < 256 && len(fs) < 4; f++ {
				a := Call{K: kReplace, F: []T{f}, M: first}
				b := Call{K: kReplace, F: []T{f}, M: later}
				if a.defined(3) && b.defined(3) && substT(f, first, 3) != substT(f, later, 3) && substT(f, first, 3) != f {
					fs = append(fs, f)
				}
			}
			if len(fs) == 0 {
				u.Fail("harness: no function for the two renamings")
			}
			u.Sample("%d replacers, each used after the first one on %v", n, fs)
			r := e.replacer(first)
			for i := 1; i <= n; i++ {
				q := e.replacer(later)
				f := fs[i%len(fs)]
				u.Eval()
				u.Nontrivial()
				e.checkReplace(f, first, r, "")
				e.checkReplace(f, later, q, fmt.Sprintf(" with a replacer created %d replacers after that for %v", i, first))
				if i%5000 == 0 {
					tick()
				}
			}
			e.noerror()
		})
	}
	// P: functions with chosen identities
	for perm := 1; perm <= 3; perm++ {
		for _, cache := range []int{1, 211} {
			perm, cache := perm, cache
			c.Unit(fmt.Sprintf("P.%d.%d", perm, cache), func(u *U) {
				e := u.newFull(16, permutedLevels, Cfg{Cache: cache, Perm: perm})
				for _, m := range renamings(3) {
					r := e.replacer(m)
					for f := T(0); f < 256; f++ {
						if !(Call{K: kReplace, F: []T{f}, M: m}).defined(3) {
							continue
						}
						u.Eval()
						u.Nontrivial()
						e.checkReplace(f, m, r, "")
					}
				}
				e.noerror()
			})
		}
	}
	// C: all functions of 4 variables, all renamings
	rs4 := renamings(4)
	nb := 32
	if c.Thorough() {
		nb = 128
	}
	for blk := 0; blk < nb; blk++ {
		blk := blk
		c.Unit(fmt.Sprintf("C.%d", blk), func(u *U) {
			e := u.newFull(4, nil, Cfg{Nodesize: 70000, Cache: 10007})
			step := 65536 / nb
			const stride = 1
			u.Sample("all %d renamings of 4 variables on functions [%04x..%04x] step %d", len(rs4), blk*step, blk*step+step-1, stride)
			for _, m := range rs4 {
				r := e.replacer(m)
				for f := blk*step + blk%stride; f < blk*step+step; f += stride {
					if !(Call{K: kReplace, F: []T{T(f)}, M: m}).defined(4) && f%64 != 0 {
						continue // the text of the error status grows with each error
					}
					u.Eval()
					u.Nontrivial()
					e.checkReplace(T(f), m, r, "")
				}
			}
		})
	}
	// D: a function of 3 variables moved to any 3 other variables, in any order
	for mask := uint(0); mask < 64; mask++ {
		if popcount(mask) != 3 {
			continue
		}
		mask := mask
		c.Unit(fmt.Sprintf("D.%06b", mask), func(u *U) {
			var src, dst []int
			for i := 0; i < 6; i++ {
				if mask>>uint(i)&1 != 0 {
					src = append(src, i)
				} else {
					dst = append(dst, i)
				}
			}
			// lift a function of 3 variables to the variables src
			lift := func(f T, at []int) T {
				var r T
				for a := 0; a < 64; a++ {
					b := 0
					for i, x := range at {
						b |= a >> uint(x) & 1 << uint(i)
					}
					r |= f >> uint(b) & 1 << uint(a)
				}
				return r
			}
			perms := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
			e := u.NewEnv(8, []int{0, 1, 3, 4, 6, 7}, Cfg{Nodesize: 8000, Cache: 499})
			node := map[T]rudd.Node{}
			get := func(t T) rudd.Node {
				if node[t] == nil {
					node[t] = e.mk(t)
				}
				return node[t]
			}
			for _, p := range perms {
				for part := 1; part < 8; part++ { // which of the three are moved
					m := []int{0, 1, 2, 3, 4, 5}
					at := append([]int{}, src...)
					for i := range src {
						if part>>uint(i)&1 != 0 {
							m[src[i]] = dst[p[i]]
							at[i] = dst[p[i]]
						}
					}
					from, to := e.moves(m, false)
					for variant := 0; variant < 2; variant++ {
						if variant == 1 {
							for i, j := 0, len(from)-1; i < j; i, j = i+1, j-1 {
								from[i], from[j], to[i], to[j] = from[j], from[i], to[j], to[i]
							}
						}
						r, err := e.NewReplacer(from, to)
						if err != nil {
							u.Fail("NewReplacer(%v,%v): %v", from, to, err)
						}
						for f := T(0); f < 256; f++ {
							n, want := get(lift(f, src)), get(lift(f, at))
							u.Eval()
							u.Nontrivial()
							res := e.Replace(n, r)
							if res == nil || *res != *want {
								u.Fail("Replace(%02x over %v, %v -> %v) is node %d, expected node %d (error %q)", f, src, from, to, idOf(res), *want, clip(e.Error()))
							}
							if node[0] != res {
								vrt.Drop(res)
							}
						}
					}
				}
			}
			s := e.Snapshot()
			e.wellformed(s)
			for t, n := range node {
				e.want(s, n, t, "node held")
			}
		})
	}
}

// ------------------------------------------------------------------- Satcount

func (e *Env) satcountIs(n rudd.Node, want *big.Int, what string, a ...any) {
	got := e.satcount(n)
	if got == nil || got.Cmp(want) != 0 {
		e.u.Fail("Satcount of %s is %v, expected %v", fmt.Sprintf(what, a...), got, want)
	}
}

func pow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

func times(k int, p *big.Int) *big.Int { return new(big.Int).Mul(big.NewInt(int64(k)), p) }

func c09(c *Ctx) {
	// A: all functions of 4 variables
	for _, em := range []struct {
		varnum int
		lv     []int
	}{{4, nil}, {5, []int{0, 1, 2, 3}}, {5, []int{1, 2, 3, 4}}, {9, []int{0, 3, 4, 8}}, {66, []int{0, 1, 64, 65}}, {129, []int{0, 63, 64, 128}}} {
		for blk := 0; blk < 8; blk++ {
			em, blk := em, blk
			c.Unit(fmt.Sprintf("A.%d.%v.%d", em.varnum, em.lv, blk), func(u *U) {
				e := u.newFull(em.varnum, em.lv, Cfg{Nodesize: 70000, Cache: 1})
				unit := pow2(em.varnum - 4)
				var want [17]*big.Int
				for k := range want {
					want[k] = times(k, unit)
				}
				h := e.observe()
				u.Sample("Satcount of functions [%04x..%04x] at levels %v of %d variables", blk*8192, blk*8192+8191, e.lv, em.varnum)
				for f := T(blk * 8192); f < T(blk*8192+8192); f++ {
					u.Eval()
					u.Nontrivial()
					e.satcountIs(e.node[f], want[popcount(uint(f))], "%04x at levels %v", f, e.lv)
				}
				e.unchanged(h, "Satcount changes the BDD")
				e.noerror()
			})
		}
	}
	// B: functions of 3 variables at every triple of levels of 8 variables
	for blk := 0; blk < 8; blk++ {
		blk := blk
		c.Unit(fmt.Sprintf("B.%d", blk), func(u *U) {
			k := 0
			for i := 0; i < 9; i++ {
				for j := i + 1; j < 9; j++ {
					for l := j + 1; l < 9; l++ {
						if k++; k%8 != blk {
							continue
						}
						e := u.newFull(9, []int{i, j, l}, Cfg{Nodesize: 1000, Cache: 1})
						for f := T(0); f < 256; f++ {
							u.Eval()
							e.satcountIs(e.node[f], times(popcount(uint(f)), pow2(6)), "%02x at levels %v", f, e.lv)
						}
						u.Reset()
					}
				}
			}
		})
	}
	// P: functions with chosen identities
	for perm := 1; perm <= 3; perm++ {
		perm := perm
		c.Unit(fmt.Sprintf("P.%d", perm), func(u *U) {
			for vn := 16; vn < 80; vn += 5 {
				e := u.newFull(vn, permutedLevels, Cfg{Cache: 1, Perm: perm})
				for f := T(0); f < 256; f++ {
					u.Eval()
					u.Nontrivial()
					e.satcountIs(e.node[f], times(popcount(uint(f)), pow2(vn-3)), "%02x at levels %v of %d", f, e.lv, vn)
				}
				u.Reset()
			}
		})
	}
	// H: nodes that take the place of others
	reuseNodes(c, "H", func(e *Env, s *Snap, n rudd.Node, f T, what string) {
		e.satcountIs(n, times(popcount(uint(f)), pow2(6)), "%02x: %s", f, what)
	})
	// C: many variables; the results are known in closed form
	sizes := []int{1, 2, 31, 32, 33, 61, 62, 63, 64, 65, 66, 127, 128, 129, 130, 255, 256, 257, 300, 520, 1030, 2100}
	if c.Thorough() {
		sizes = append(sizes, 5000, 20000, 65536, 65537)
	}
	for _, N := range sizes {
		N := N
		c.Unit(fmt.Sprintf("C.%d", N), func(u *U) { satmany(u, N) })
	}
	// D: threshold functions: sums of binomial coefficients
	for _, N := range []int{5, 16, 33, 64, 65, 80, 100, 128, 140} {
		N := N
		c.Unit(fmt.Sprintf("D.%d", N), func(u *U) {
			e := u.NewEnv(N, []int{}, Cfg{Nodesize: 2000 + 2*N*N, Cache: 20011 + 10*N*N})
			// counting nodes: at[k] is the node "exactly k more variables are true"
			for _, thr := range []int{0, 1, 2, N / 3, N / 2, N - 1, N} {
				e.Initref()
				below := make([]int, N+2)
				for k := range below {
					below[k] = 0
				}
				below[0] = 1
				for l := N - 1; l >= 0; l-- {
					next := make([]int, N+2)
					for k := 0; k <= thr; k++ {
						hi := 0
						if k > 0 {
							hi = below[k-1]
						}
						next[k] = e.Makenode(int32(l), below[k], hi)
						if next[k] < 0 {
							u.Fail("Makenode fails: %s", clip(e.Error()))
						}
						e.Pushref(next[k])
					}
					below = next
				}
				n := e.take(e.Retnode(below[thr]))
				u.Eval()
				u.Nontrivial()
				e.satcountIs(n, new(big.Int).Binomial(int64(N), int64(thr)), "exactly %d of %d variables", thr, N)
				not := e.take(e.Not(n))
				e.satcountIs(not, new(big.Int).Sub(pow2(N), new(big.Int).Binomial(int64(N), int64(thr))), "not exactly %d of %d variables", thr, N)
				e.drop(n)
				e.drop(not)
			}
		})
	}
}

// satmany checks functions of N variables whose count is known.
func satmany(u *U, N int) {
	e := u.NewEnv(N, []int{}, Cfg{Nodesize: 6*N + 100, Cache: 10007 + 9*N})
	chk := func(n rudd.Node, want *big.Int, what string, a ...any) {
		u.Eval()
		u.Nontrivial()
		e.satcountIs(n, want, what+fmt.Sprintf(" of %d variables", N), a...)
		e.drop(e.take(n))
	}
	chk(e.True(), pow2(N), "True")
	chk(e.False(), big.NewInt(0), "False")
	ends := map[int]bool{}
	for _, i := range []int{0, 1, 2, 30, 31, 32, 33, 62, 63, 64, 65, 66, 126, 127, 128, 129, 254, 255, 256, 257, N/2 - 1, N / 2, N - 66, N - 65, N - 64, N - 63, N - 33, N - 32, N - 31, N - 3, N - 2, N - 1} {
		if i >= 0 && i < N {
			ends[i] = true
		}
	}
	for i := range ends {
		chk(e.Ithvar(i), pow2(N-1), "variable %d", i)
		chk(e.NIthvar(i), pow2(N-1), "negated variable %d", i)
		for j := range ends {
			if i < j {
				chk(e.And(e.Ithvar(i), e.Ithvar(j)), pow2(N-2), "x%d & x%d", i, j)
				chk(e.Or(e.NIthvar(i), e.Ithvar(j)), times(3, pow2(N-2)), "!x%d | x%d", i, j)
				chk(e.Apply(e.Ithvar(i), e.Ithvar(j), rudd.OPxor), pow2(N-1), "x%d ^ x%d", i, j)
			}
		}
	}
	pol := make([]bool, N)
	for k := range pol {
		pol[k] = k%3 == 0
	}
	cube := e.take(e.Makecube(nil, pol))
	chk(cube, big.NewInt(1), "a full cube")
	chk(e.Not(cube), new(big.Int).Sub(pow2(N), big.NewInt(1)), "the complement of a full cube")
	for _, k := range []int{0, 1, N / 2, N - 1} { // all variables above k are free
		var set []int
		for v := k; v < N; v++ {
			set = append(set, v)
		}
		s := e.take(e.Makeset(set))
		chk(s, pow2(N-len(set)), "the cube of the variables %d..", k)
	}
	// parity
	e.Initref()
	ev, od := 1, 0
	for l := N - 1; l >= 0; l-- {
		a := e.Makenode(int32(l), ev, od)
		e.Pushref(a)
		b := e.Makenode(int32(l), od, ev)
		e.Pushref(b)
		ev, od = a, b
	}
	p := e.take(e.Retnode(ev))
	chk(p, pow2(N-1), "even parity")
	if e.Errored() {
		u.Fail("error status: %q", clip(e.Error()))
	}
}
