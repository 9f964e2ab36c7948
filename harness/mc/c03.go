package main

import (
	"fmt"

	"github.com/dalzilio/rudd"
)

// producer gives a reference from a node of the function f (not constant);
// everything else it has created is in the temporaries of e.
type producer struct {
	name string
	make func(e *Env, n rudd.Node, f T) (rudd.Node, T)
}

// top gives the logical variable at the root of f.
func (e *Env) top(f T) int {
	for k := 0; k < e.n; k++ {
		if v := e.order(k); depends(f, v, e.n) {
			return v
		}
	}
	return -1
}

func producers() []producer {
	m := func(e *Env, f T, hi bool) T { return cof(f, e.top(f), hi) & e.mask() }
	ps := []producer{
		{"Low(n)", func(e *Env, n rudd.Node, f T) (rudd.Node, T) { return e.Low(n), m(e, f, false) }},
		{"High(n)", func(e *Env, n rudd.Node, f T) (rudd.Node, T) { return e.High(n), m(e, f, true) }},
		{"Retnode(n)", func(e *Env, n rudd.Node, f T) (rudd.Node, T) { return e.Retnode(*n), f }},
		{"And(n)", func(e *Env, n rudd.Node, f T) (rudd.Node, T) { return e.And(n), f }},
		{"Or(n)", func(e *Env, n rudd.Node, f T) (rudd.Node, T) { return e.Or(n), f }},
		{"And(n, n, True)", func(e *Env, n rudd.Node, f T) (rudd.Node, T) { return e.And(n, n, e.True()), f }},
		{"Not(Not(n))", func(e *Env, n rudd.Node, f T) (rudd.Node, T) { return e.Not(e.Not(n)), f }},
		{"Exist(n, {})", func(e *Env, n rudd.Node, f T) (rudd.Node, T) { return e.Exist(n, e.Makeset(nil)), f }},
		{"AppEx(n, True, and, {})", func(e *Env, n rudd.Node, f T) (rudd.Node, T) {
			return e.AppEx(n, e.True(), rudd.OPand, e.Makeset(nil)), f
		}},
		{"Replace(n, identity)", func(e *Env, n rudd.Node, f T) (rudd.Node, T) {
			r, err := e.NewReplacer(nil, nil)
			if err != nil {
				e.u.Fail("NewReplacer(nil, nil) fails: %v", err)
			}
			return e.Replace(n, r), f
		}},
		{"Ite(n, True, False)", func(e *Env, n rudd.Node, f T) (rudd.Node, T) { return e.Ite(n, e.True(), e.False()), f }},
		{"Ite(True, n, False)", func(e *Env, n rudd.Node, f T) (rudd.Node, T) { return e.Ite(e.True(), n, e.False()), f }},
		{"Ite(False, True, n)", func(e *Env, n rudd.Node, f T) (rudd.Node, T) { return e.Ite(e.False(), e.True(), n), f }},
		{"Ite(n, n, n)", func(e *Env, n rudd.Node, f T) (rudd.Node, T) { return e.Ite(n, n, n), f }},
		{"Imp(True, n)", func(e *Env, n rudd.Node, f T) (rudd.Node, T) { return e.Imp(e.True(), n), f }},
		{"Equiv(n, True)", func(e *Env, n rudd.Node, f T) (rudd.Node, T) { return e.Equiv(n, e.True()), f }},
		{"AndExist(n, n, {})", func(e *Env, n rudd.Node, f T) (rudd.Node, T) { return e.AndExist(n, n, e.Makeset(nil)), f }},
		{"Scanset and Makeset of the support", func(e *Env, n rudd.Node, f T) (rudd.Node, T) {
			s := support(f, e.n)
			return e.Makeset(e.Scanset(e.Makeset(e.levels(s)))), Call{K: kMakeset, Set: s}.want(e.n)
		}},
		{"a node seen in Allnodes", func(e *Env, n rudd.Node, f T) (rudd.Node, T) {
			var r rudd.Node
			e.Allnodes(func(id, level, low, high int) error {
				if id == *n {
					r = e.Retnode(id)
				}
				return nil
			}, n)
			return r, f
		}},
	}
	for op := range ops {
		op := op
		ps = append(ps, producer{"Apply(n, True, " + opname[op] + ")", func(e *Env, n rudd.Node, f T) (rudd.Node, T) {
			return e.Apply(n, e.True(), ops[op]), applyT(op, f, e.mask(), e.n)
		}}, producer{"Apply(False, n, " + opname[op] + ")", func(e *Env, n rudd.Node, f T) (rudd.Node, T) {
			return e.Apply(e.False(), n, ops[op]), applyT(op, 0, f, e.n)
		}}, producer{"Apply(n, n, " + opname[op] + ")", func(e *Env, n rudd.Node, f T) (rudd.Node, T) {
			return e.Apply(n, n, ops[op]), applyT(op, f, f, e.n)
		}})
	}
	return ps
}

// onlyResult drops all the references but res, and lets collections happen and
// the free slots be used again, several times.
func (e *Env) onlyResult(fl *filler, res rudd.Node, f T, what string) {
	e.own[res]++
	e.releaseTemps()
	for n := range e.own {
		if n != res {
			e.drop(n)
		}
	}
	e.own[res]--
	for round := 0; round < 3; round++ {
		if round > 0 && e.stat().Alloc > 500 {
			break // the supply of filler nodes is limited
		}
		fl.gc()
		for k := e.stat().Free; k > 1; k-- {
			fl.add()
		}
		s := e.Snapshot()
		e.want(s, res, f, what+", only the result is held")
	}
	// what was held was not damaged: the function is computed again
	if n := e.mk(f); *n != *res {
		e.u.Fail("%s: the result is node %d, but its function is node %d when it is built again", what, *res, *n)
	}
	e.Eval()
}

// Eval counts an evaluation.
func (e *Env) Eval() { e.u.Eval() }

func c03more(c *Ctx) {
	// P: what a call returns is a reference of its own, whatever happens to
	// the operands
	ps := producers()
	fs := c.Quick(64, 256)
	prs := pressures()
	for pi := range ps {
		pi := pi
		c.Unit(fmt.Sprintf("P.%d", pi), func(u *U) {
			for _, pr := range prs {
				for k, f := range sampleOf(fs) {
					if f == 0 || f == 0xff {
						continue
					}
					for depth := 1; depth <= 3; depth++ {
						u.Reset()
						e := u.NewEnv(20, list([]int{1, 2, 4}, []int{4, 1, 2}, []int{2, 4, 1})[k%3], pr.cfg)
						fl := e.newFiller(0)
						n, g := e.mk(f), f
						what := ""
						for d := 0; d < depth; d++ {
							// the operand is dropped before the next step, and
							// with an odd number of the function a collection
							// happens in between
							p := ps[(pi+d*(k+1))%len(ps)]
							what += p.name + "; "
							r, h := p.make(e, n, g)
							if r == nil {
								u.Fail("%s: result is nil for n = %s: %s", what, e.show(g), clip(e.Error()))
							}
							e.take(r)
							if r != n {
								e.drop(n)
							}
							n, g = r, h
							u.Trans(1)
							if d+1 < depth && k%2 == 1 {
								e.releaseTemps()
								fl.gc()
							}
							if g == 0 || g == e.mask() {
								break
							}
						}
						u.T("%s n = %s (%s)", what, e.show(f), pr.name)
						e.onlyResult(fl, n, g, what+"n = "+e.show(f))
						u.Nontrivial()
						u.Done()
					}
				}
			}
		})
	}
	// D: every call over sampled functions, with every number of free slots
	// up to 4 when it starts
	fs12 := sampleOf(c.Quick(10, 24))
	cs := callsOver(3, fs12, fs12[2:7], []uint{1, 2, 4, 6, 7}, renamings(3))
	cs = append(cs, moreCalls(3, fs12[2:8])...)
	for _, p := range prs {
		for i := 0; i < len(cs); i += 200 {
			i, p := i, p
			c.Unit(fmt.Sprintf("D.%s.%d", p.name, i), func(u *U) {
				for k := i; k < i+200 && k < len(cs); k++ {
					for _, free := range []int{0, 2, 1000} {
						u.Reset()
						e := u.NewEnv(20, []int{1, 2, 4}, p.cfg)
						fl := e.newFiller(0)
						a := e.prepare(cs[k])
						if free < 1000 {
							fl.fillTo(free)
						}
						u.T("%s (%s, %d free)", cs[k].show(e), p.name, free)
						r := e.take(e.exec(cs[k], a))
						if r == nil {
							u.Fail("%s fails: %s", cs[k].show(e), clip(e.Error()))
						}
						u.Trans(1)
						e.onlyResult(fl, r, cs[k].want(3), cs[k].show(e))
						if *r > 1 {
							u.Nontrivial()
						}
						u.Done()
					}
				}
			})
		}
	}
}
