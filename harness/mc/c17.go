package main

import (
	"bytes"
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/dalzilio/rudd"

	"verif/vrt"
)

func init() { checks["C17"] = c17 }

// C17: programs on distinct BDDs.

// client is a program that runs on its own BDD.
type client struct {
	e    *Env
	fl   *filler
	n    []rudd.Node // nodes that it holds
	t    []T
	reps []rudd.Replacer
	maps [][]int
	out  []string
}

func (cl *client) add(n rudd.Node, t T, what string) {
	if n == nil {
		cl.out = append(cl.out, what+": nil: "+clip(cl.e.Error()))
		return
	}
	cl.n = append(cl.n, cl.e.take(n))
	cl.t = append(cl.t, t&cl.e.mask())
}

func (cl *client) pick(i int) (rudd.Node, T) {
	k := len(cl.n) - 1 - i%len(cl.n)
	return cl.n[k], cl.t[k]
}

func (cl *client) log(f string, a ...any) { cl.out = append(cl.out, fmt.Sprintf(f, a...)) }

// step is an operation of a program.
type step struct {
	name string
	f    func(cl *client)
}

func (cl *client) newrep(m []int) {
	var from, to []int
	for i, j := range m {
		if i != j {
			from = append(from, cl.e.lv[i])
			to = append(to, cl.e.lv[j])
		}
	}
	r, err := cl.e.NewReplacer(from, to)
	if err != nil {
		cl.log("NewReplacer%v: %v", m, err)
		return
	}
	cl.reps = append(cl.reps, r)
	cl.maps = append(cl.maps, m)
}

func (cl *client) replace(i int) {
	for k, r := range cl.reps {
		n, t := cl.pick(i)
		c := Call{K: kReplace, F: []T{t}, M: cl.maps[k]}
		if !c.defined(cl.e.n) {
			continue
		}
		cl.add(cl.e.Replace(n, r), c.want(cl.e.n), "Replace")
	}
}

func steps() []step {
	ap := func(op int) step {
		return step{"Apply " + opname[op], func(cl *client) {
			a, f := cl.pick(0)
			b, g := cl.pick(1)
			cl.add(cl.e.Apply(a, b, ops[op]), applyT(op, f, g, cl.e.n), "Apply")
		}}
	}
	quant := func(set uint, ex bool) step {
		return step{fmt.Sprintf("Exist/AppEx %b", set), func(cl *client) {
			a, f := cl.pick(0)
			b, g := cl.pick(2)
			s := cl.e.Makeset(cl.e.levels(set))
			if ex {
				cl.add(cl.e.Exist(a, s), existT(f, set, cl.e.n), "Exist")
			} else {
				cl.add(cl.e.AppEx(a, b, rudd.OPxor, s), existT(f^g, set, cl.e.n), "AppEx")
			}
			cl.e.drop(cl.e.take(s))
		}}
	}
	return []step{
		ap(0), ap(1), ap(5),
		{"Not", func(cl *client) {
			a, f := cl.pick(0)
			cl.add(cl.e.Not(a), ^f, "Not")
		}},
		{"Ite", func(cl *client) {
			a, f := cl.pick(0)
			b, g := cl.pick(1)
			c, h := cl.pick(2)
			cl.add(cl.e.Ite(a, b, c), f&g|^f&h, "Ite")
		}},
		quant(2, true), quant(5, true), quant(1, false), quant(6, false),
		{"NewReplacer 0->2, Replace", func(cl *client) { cl.newrep([]int{2, 1, 2}); cl.replace(3) }},
		{"NewReplacer 1->0, Replace", func(cl *client) { cl.newrep([]int{0, 0, 2}); cl.replace(2) }},
		{"Replace", func(cl *client) { cl.replace(1); cl.replace(2) }},
		{"garbage", func(cl *client) {
			for i := 0; i < 9; i++ {
				if cl.fl.add() < 0 {
					cl.log("Makenode fails")
				}
			}
		}},
		{"drop", func(cl *client) {
			if len(cl.n) > 3 {
				cl.e.drop(cl.n[0])
				cl.n, cl.t = cl.n[1:], cl.t[1:]
			}
			cl.e.releaseTempsOf()
		}},
		{"errors", func(cl *client) {
			a, _ := cl.pick(0)
			cl.log("%v %v %v", cl.e.Not(nil) == nil, cl.e.Apply(a, a, rudd.Operator(30)) == nil, cl.e.Label(cl.e.True()))
		}},
		{"traversals", func(cl *client) {
			a, _ := cl.pick(0)
			k := 0
			err := cl.e.Allsat(func([]int) error {
				if k++; k == 2 {
					return errors.New("stop")
				}
				return nil
			}, a)
			cl.log("Allsat: %d %v", k, err)
			k = 0
			err = cl.e.Allnodes(func(id, l, lo, hi int) error { k++; return nil })
			cl.log("Allnodes: %d %v; Satcount: %v", k, err, cl.e.Satcount(a))
			var buf bytes.Buffer
			cl.e.Print(&buf, a)
			cl.log("Print: %d lines", strings.Count(buf.String(), "\n"))
			cl.log("%v", cl.e.Scanset(a))
		}},
	}
}

// releaseTempsOf is releaseTemps, restricted to nothing: temporaries of several
// BDDs share the list of fresh references, so they are left to the end.
func (e *Env) releaseTempsOf() {}

func (u *U) client(cfg Cfg, which int) *client {
	lv, varnum := []int{1, 2, 3}, 5
	if which == 1 {
		lv, varnum = []int{4, 1, 3}, 6
	}
	e := u.NewEnv(varnum, lv, cfg)
	cl := &client{e: e, fl: e.newFiller(0)}
	for _, f := range [][]T{{0x96, 0xca, 0x88}, {0xe8, 0x66, 0xa0}}[which%2] {
		cl.add(e.mk(f), f, "")
		e.own[cl.n[len(cl.n)-1]] = 1
	}
	return cl
}

// digest is the observable state.
func (cl *client) digest() string {
	e := cl.e
	s := e.Snapshot()
	e.wellformed(s)
	for i, n := range cl.n {
		e.want(s, n, cl.t[i], fmt.Sprintf("node %d held by the program", i))
	}
	st := e.stat()
	var lvls []int
	for _, x := range s.Nodes {
		lvls = append(lvls, x.Level)
	}
	sort.Ints(lvls)
	return fmt.Sprintf("%v %v %v err=%q", cl.out, st, lvls, e.Error())
}

// merges gives all the interleavings of a steps of 0 and b steps of 1.
func merges(a, b int) [][]int {
	var res [][]int
	var rec func(p []int, x, y int)
	rec = func(p []int, x, y int) {
		if x == 0 && y == 0 {
			res = append(res, append([]int{}, p...))
			return
		}
		if x > 0 {
			rec(append(p, 0), x-1, y)
		}
		if y > 0 {
			rec(append(p, 1), x, y-1)
		}
	}
	rec(nil, a, b)
	return res
}

func c17(c *Ctx) {
	st := steps()
	var progs [][]int
	for i := range st {
		n := len(st)
		progs = append(progs, []int{i, (i + 5) % n, (i*7 + 3) % n, (i + 9) % n}, []int{(i + 9) % n, 10, i, 11})
	}
	if c.Mode == "ctl" {
		cfgs := []struct {
			a, b   Cfg
			wa, wb int
		}{
			{Cfg{Nodesize: 47, Cache: 11, Minfree: 1, Maxinc: 8}, Cfg{Nodesize: 47, Cache: 11, Minfree: 1, Maxinc: 8}, 0, 0},
			{Cfg{Nodesize: 47, Cache: 211, Minfree: 1, Maxinc: 8}, Cfg{Nodesize: 47, Cache: 211, Minfree: 1, Maxinc: 8}, 0, 1},
			{Cfg{Nodesize: 43, Cache: 7, Minfree: 100}, Cfg{Nodesize: 71, Cache: 101, Ratio: 50}, 0, 1},
		}
		for ci, cf := range cfgs {
			for i := range progs {
				c.Unit(fmt.Sprintf("M.%d.%d", ci, i), func(u *U) {
					alone := func(cfg Cfg, which int, p []int) string {
						u.Reset()
						cl := u.client(cfg, which)
						for _, k := range p {
							u.T("alone: %s", st[k].name)
							st[k].f(cl)
						}
						return cl.digest()
					}
					wa := alone(cf.a, cf.wa, progs[i])
					for j := range progs {
						wb := alone(cf.b, cf.wb, progs[j])
						for _, m := range merges(4, 4) {
							u.Reset()
							cls := []*client{u.client(cf.a, cf.wa), u.client(cf.b, cf.wb)}
							pos := []int{0, 0}
							for _, w := range m {
								p := [][]int{progs[i], progs[j]}[w]
								u.T("BDD %d: %s", w, st[p[pos[w]]].name)
								st[p[pos[w]]].f(cls[w])
								pos[w]++
								u.Trans(1)
							}
							if d := cls[0].digest(); d != wa {
								u.Fail("BDD 0, interleaving %v with BDD 1: %s; alone: %s", m, d, wa)
							}
							if d := cls[1].digest(); d != wb {
								u.Fail("BDD 1, interleaving %v with BDD 0: %s; alone: %s", m, d, wb)
							}
							u.Eval()
							u.Nontrivial()
							u.Done()
						}
					}
					if i == 0 {
						u.Sample("all 70 interleavings of %d and other programs of 4 steps on %v and %v", i, cf.a, cf.b)
					}
				})
			}
		}
		c.Unit("many", func(u *U) { manyBDDs(u, st) })
		c.Unit("replacers", func(u *U) { replacerIDs(u) })
		return
	}
	// threads
	vrt.Quiet = c.Mode == "schedg"
	bound := 1
	if c.Thorough() {
		bound = 2
	}
	if vrt.Quiet {
		bound += 3
	}
	cfg := Cfg{Nodesize: 41, Cache: 7, Minfree: 1, Maxinc: 8}
	run := func(u *U, name string, inside bool, p, q []int, wa, wb int) {
		alone := func(which int, p []int) string {
			u.Reset()
			cl := u.client(cfg, which)
			for _, k := range p {
				st[k].f(cl)
			}
			return cl.digest()
		}
		da, db := alone(wa, p), alone(wb, q)
		ex := &vrt.Explorer{Bound: bound, Stop: c.Expired}
		if inside && !vrt.Quiet {
			ex.Bound = 1
		}
		ex.Exec = func(devs []vrt.Dev) *vrt.Sched {
			u.Reset()
			cls := make([]*client, 2)
			if !inside {
				cls[0], cls[1] = u.client(cfg, wa), u.client(cfg, wb)
			}
			u.T("%s, schedule %v", name, devs)
			s, msg := vrt.Run([]func(){
				func() {
					if inside {
						cls[0] = u.client(cfg, wa)
					}
					for _, k := range p {
						st[k].f(cls[0])
					}
				},
				func() {
					if inside {
						cls[1] = u.client(cfg, wb)
					}
					for _, k := range q {
						st[k].f(cls[1])
					}
				}}, devs, 1000000)
			if msg != "" {
				u.Fail("%s, schedule %v: %s", name, devs, msg)
			}
			if d := cls[0].digest(); d != da {
				u.Fail("%s, BDD 0, schedule %v: %s; alone: %s", name, devs, d, da)
			}
			if d := cls[1].digest(); d != db {
				u.Fail("%s, BDD 1, schedule %v: %s; alone: %s", name, devs, d, db)
			}
			ids := map[int]bool{}
			for _, cl := range cls {
				for _, r := range cl.reps {
					if ids[r.Id()] {
						u.Fail("%s, schedule %v: two replacers have identity %d", name, devs, r.Id())
					}
					ids[r.Id()] = true
				}
			}
			if s.Diverged {
				u.Count("schedules that ran differently", 1)
			}
			u.Eval()
			u.Done()
			if len(devs) > 0 {
				u.Nontrivial()
			}
			return s
		}
		ex.Explore()
		u.Trans(int(ex.Steps))
		u.Count("schedules", ex.Execs)
		if int64(ex.MaxSteps) > u.c.Res.Counters["longest execution (steps)"] {
			u.c.Res.Counters["longest execution (steps)"] = int64(ex.MaxSteps)
		}
		if ex.Capped {
			c.Cap("deadline")
		}
		u.Sample("%s: %d schedules with at most %d preemptions, up to %d steps", name, ex.Execs, bound, ex.MaxSteps)
	}
	if vrt.Quiet {
		probeThreads(c, bound)
	} else {
		probeThreads(c, 1)
	}
	for i := range st {
		for j := range st {
			p, q := []int{i, (i + 7) % len(st)}, []int{j}
			for wb := 0; wb < 2; wb++ {
				if wb == 0 && (i+j)%2 != 0 {
					continue
				}
				c.Unit(fmt.Sprintf("T.%d.%d.%d", i, j, wb), func(u *U) {
					run(u, st[i].name+", "+st[p[1]].name+" | "+st[j].name, false, p, q, 0, wb)
				})
			}
			if (i+j)%4 == 0 && (vrt.Quiet || (i+j)%16 == 0) {
				c.Unit(fmt.Sprintf("N.%d.%d", i, j), func(u *U) {
					run(u, "New, "+st[i].name+" | New, "+st[j].name, true, p[:1], q, (i/2)%2, (j/3)%2)
				})
			}
		}
	}
}

// probe is one call of the API (on several operands); what it returns is
// checked after the end of both threads.
type probe struct {
	name string
	f    func(e *Env, n []rudd.Node, t []T) func()
}

func probes() []probe {
	// each makes a probe of a call on each of the nodes
	each := func(name string, f func(e *Env, n rudd.Node, t T) func()) probe {
		return probe{name, func(e *Env, n []rudd.Node, t []T) func() {
			var later []func()
			for i := range n {
				later = append(later, f(e, n[i], t[i]))
			}
			return func() {
				for _, g := range later {
					g()
				}
			}
		}}
	}
	result := func(e *Env, r rudd.Node, t T, what string) func() {
		e.take(r)
		return func() { e.want(e.Snapshot(), r, t, what) }
	}
	calls := func(name string, cs func(t []T) []Call) probe {
		return probe{name, func(e *Env, n []rudd.Node, t []T) func() {
			var later []func()
			for _, c := range cs(t) {
				a := Args{}
				for _, f := range c.F {
					for i := range t {
						if t[i] == f {
							a.F = append(a.F, n[i])
							break
						}
					}
				}
				if c.needset() {
					a.Set = e.take(e.Makeset(e.levels(c.Set)))
				}
				if c.K == kReplace {
					a.R = e.replacer(c.M)
				}
				later = append(later, result(e, e.exec(c, a), c.want(e.n), c.show(e)))
			}
			return func() {
				for _, g := range later {
					g()
				}
			}
		}}
	}
	ps := []probe{
		each("Satcount", func(e *Env, n rudd.Node, t T) func() {
			got := e.Satcount(n)
			return func() {
				want := times(popcount(uint(t)), pow2(e.varnum-3))
				if got == nil || got.Cmp(want) != 0 {
					e.u.Fail("Satcount of %02x is %v, expected %v", t, got, want)
				}
			}
		}),
		each("Allsat", func(e *Env, n rudd.Node, t T) func() {
			var cs []cube
			err := e.Allsat(e.collect(&cs, nil), n)
			return func() {
				if err != nil {
					e.u.Fail("Allsat fails: %v", err)
				}
				e.enumerated(cs, t, "")
			}
		}),
		each("Allnodes", func(e *Env, n rudd.Node, t T) func() {
			vs, err := e.allnodes(nil, n)
			return func() {
				if err != nil {
					e.u.Fail("Allnodes fails: %v", err)
				}
				e.visited(vs, e.below(e.Snapshot(), n), "Allnodes")
			}
		}),
		each("Print, Dot", func(e *Env, n rudd.Node, t T) func() {
			var a, b bytes.Buffer
			e.Print(&a, n)
			err := e.Dot(&b, n)
			return func() {
				if err != nil {
					e.u.Fail("Dot fails: %v", err)
				}
				w := e.below(e.Snapshot(), n)
				e.visited(parsePrint(e.u, a.String()), w, "Print")
				e.visited(parseDot(e.u, b.String()), w, "Dot")
			}
		}),
		each("Label, Low, High", func(e *Env, n rudd.Node, t T) func() {
			v := e.top(t)
			l, lo, hi := e.Label(n), e.take(e.Low(n)), e.take(e.High(n))
			return func() {
				if l != e.lv[v] {
					e.u.Fail("Label(%02x) is %d, expected %d", t, l, e.lv[v])
				}
				s := e.Snapshot()
				e.want(s, lo, cof(t, v, false), "Low")
				e.want(s, hi, cof(t, v, true), "High")
			}
		}),
		each("Makeset, Scanset", func(e *Env, n rudd.Node, t T) func() {
			set := uint(t)&7 | 1
			lv := e.levels(set)
			v := e.take(e.Makeset(lv))
			got := e.Scanset(v)
			return func() {
				e.want(e.Snapshot(), v, Call{K: kMakeset, Set: set}.want(3), "Makeset")
				sort.Ints(lv)
				if fmt.Sprint(got) != fmt.Sprint(lv) {
					e.u.Fail("Scanset is %v, expected %v", got, lv)
				}
			}
		}),
		each("Equal, Ithvar, NIthvar", func(e *Env, n rudd.Node, t T) func() {
			var bad []string
			for i := 0; i < e.varnum; i++ {
				p, q := e.Ithvar(i), e.NIthvar(i)
				if p == nil || q == nil || *p != e.lits[i][0] || *q != e.lits[i][1] || e.Equal(p, q) || !e.Equal(p, p) || e.Equal(n, p) {
					bad = append(bad, fmt.Sprint(i))
				}
			}
			return func() {
				if bad != nil {
					e.u.Fail("Equal, Ithvar or NIthvar are wrong for %v", bad)
				}
			}
		}),
		{"errors", func(e *Env, n []rudd.Node, t []T) func() {
			before := e.Error()
			e.Ithvar(e.varnum + 7)
			e.Not(nil)
			msg, is := e.Error(), e.Errored()
			return func() {
				b, _ := newBDD(e.varnum, Cfg{})
				b.Ithvar(e.varnum + 7)
				b.Not(nil)
				if !is || msg != e.Error() || before == "" && msg != b.Error() {
					e.u.Fail("the error is %q (%v), now %q; alone: %q", msg, is, e.Error(), b.Error())
				}
			}
		}},
		{"Stats", func(e *Env, n []rudd.Node, t []T) func() {
			a := e.Stats()
			return func() {
				if b := e.Stats(); a != b {
					e.u.Fail("Stats was %q, is %q", a, b)
				}
			}
		}},
		{"New", func(e *Env, n []rudd.Node, t []T) func() {
			b, err := newBDD(e.varnum+1, Cfg{Nodesize: 30, Cache: 3})
			return func() {
				if err != nil || b == nil || b.Varnum() != e.varnum+1 {
					e.u.Fail("New(%d) fails: %v", e.varnum+1, err)
				}
				for i := 0; i <= e.varnum; i++ {
					if b.Label(b.Ithvar(i)) != i || *b.Low(b.NIthvar(i)) != 1 {
						e.u.Fail("Ithvar(%d) is wrong in the new BDD", i)
					}
				}
			}
		}},
		calls("Not", func(t []T) (r []Call) {
			for _, f := range t {
				r = append(r, Call{K: kNot, F: []T{f}})
			}
			return
		}),
		calls("Ite", func(t []T) []Call {
			return []Call{{K: kIte, F: []T{t[0], t[1], t[2]}}, {K: kIte, F: []T{t[2], t[0], t[1]}}}
		}),
		calls("Exist", func(t []T) []Call {
			return []Call{{K: kExist, F: []T{t[0]}, Set: 5}, {K: kExist, F: []T{t[1]}, Set: 2}, {K: kExist, F: []T{t[2]}, Set: 1}}
		}),
		calls("AppEx", func(t []T) []Call {
			return []Call{{K: kAppex, Op: 1, F: []T{t[0], t[1]}, Set: 3}, {K: kAppex, Op: 0, F: []T{t[1], t[2]}, Set: 4}}
		}),
		calls("Replace", func(t []T) (r []Call) {
			for _, f := range t {
				for _, m := range renamings(3) {
					c := Call{K: kReplace, F: []T{f}, M: m}
					if c.defined(3) && len(r) < 4 {
						r = append(r, c)
					}
				}
			}
			return
		}),
		calls("And, Or", func(t []T) []Call {
			return []Call{{K: kAnd, F: []T{t[0], t[1], t[2]}}, {K: kOr, F: []T{t[2], t[1], t[0]}}}
		}),
		calls("Makecube", func(t []T) []Call {
			return []Call{{K: kMakecube, Set: 7, Pol: uint(t[0]) & 7}, {K: kMakecube, Set: 5, Pol: uint(t[1]) & 5}}
		}),
	}
	for _, op := range []int{0, 1, 5, 7} {
		op := op
		ps = append(ps, calls("Apply "+opname[op], func(t []T) []Call {
			return []Call{{K: kApply, Op: op, F: []T{t[0], t[1]}}, {K: kApply, Op: op, F: []T{t[1], t[2]}}}
		}))
	}
	return ps
}

// probeThreads: one call on each of two BDDs, in two goroutines. The two tables
// have nodes with the same identities and different functions.
func probeThreads(c *Ctx, bound int) {
	ps := probes()
	fs := [][]T{{0x96, 0xca, 0xe8}, {0xd8, 0x69, 0x1b}}
	for i := range ps {
		for j := range ps {
			c.Unit(fmt.Sprintf("V.%d.%d", i, j), func(u *U) {
				for variant := 0; variant < 2; variant++ {
					ex := &vrt.Explorer{Bound: bound, Stop: c.Expired}
					name := fmt.Sprintf("%s | %s (%d)", ps[i].name, ps[j].name, variant)
					ex.Exec = func(devs []vrt.Dev) *vrt.Sched {
						u.Reset()
						var es [2]*Env
						var ns [2][]rudd.Node
						for k := range es {
							cfg := Cfg{Nodesize: 61, Cache: 17, Minfree: 1, Maxinc: 8}
							lv, vn := []int{1, 2, 3}, 5
							if k == 1 && variant == 1 {
								lv, vn = []int{0, 3, 4}, 6
							}
							es[k] = u.NewEnv(vn, lv, cfg)
							for _, f := range fs[k] {
								ns[k] = append(ns[k], es[k].mk(f))
							}
						}
						u.T("%s, schedule %v", name, devs)
						var after [2]func()
						s, msg := vrt.Run([]func(){
							func() { after[0] = ps[i].f(es[0], ns[0], fs[0]) },
							func() { after[1] = ps[j].f(es[1], ns[1], fs[1]) },
						}, devs, 1000000)
						if msg != "" {
							u.Fail("%s, schedule %v: %s", name, devs, msg)
						}
						for k := range es {
							e := es[k]
							after[k]()
							s := e.Snapshot()
							e.wellformed(s)
							for x, n := range ns[k] {
								e.want(s, n, fs[k][x], name+": node held")
							}
							if e.Errored() != (ps[[]int{i, j}[k]].name == "errors") {
								u.Fail("%s, schedule %v: the error status of BDD %d is %q", name, devs, k, clip(e.Error()))
							}
						}
						if s.Diverged {
							u.Count("schedules that ran differently", 1)
						}
						u.Eval()
						u.Done()
						if len(devs) > 0 {
							u.Nontrivial()
						}
						return s
					}
					ex.Explore()
					u.Trans(int(ex.Steps))
					u.Count("schedules", ex.Execs)
					if ex.Capped {
						c.Cap("deadline")
					}
				}
			})
		}
	}
}

// manyBDDs uses 40 BDDs in turn.
func manyBDDs(u *U, st []step) {
	cfg := Cfg{Nodesize: 47, Cache: 11, Minfree: 1, Maxinc: 8}
	alone := make([]string, 40)
	prog := func(b int) []int {
		var p []int
		for k := 0; k < 12; k++ {
			p = append(p, (b*3+k*5+k*k)%len(st))
		}
		return p
	}
	for b := range alone {
		u.Reset()
		cl := u.client(cfg, b%2)
		for _, k := range prog(b) {
			st[k].f(cl)
		}
		alone[b] = cl.digest()
	}
	for stride := 1; stride < 40; stride += 2 {
		u.Reset()
		var cls []*client
		for k := 0; k < 12; k++ {
			for b := 0; b < 40; b++ {
				x := b * stride % 40
				if stride%5 == 0 {
					x = b
				}
				if k == 0 {
					cls = append(cls, nil)
				}
				if cls[b] == nil {
					cls[b] = u.client(cfg, b%2)
				}
				if x < len(cls) && cls[x] != nil && k > 0 {
					st[prog(x)[k-1]].f(cls[x])
				}
				u.Trans(1)
			}
		}
		for b := range cls {
			st[prog(b)[11]].f(cls[b])
			if d := cls[b].digest(); d != alone[b] {
				u.Fail("BDD %d of 40 used in turn: %s; alone: %s", b, d, alone[b])
			}
			u.Eval()
			u.Nontrivial()
		}
		u.Done()
	}
}

// replacerIDs: the same substitution, and others, made for several BDDs.
func replacerIDs(u *U) {
	u.Reset()
	cfg := Cfg{Cache: 11}
	var es []*full
	for i := 0; i < 4; i++ {
		es = append(es, u.newFull(6, [][]int{{0, 1, 2}, {3, 1, 5}, {0, 2, 4}, {5, 4, 3}}[i], cfg))
	}
	ids := map[int]bool{}
	reps := renamings(3)
	for round := 0; round < 3; round++ {
		for k, m := range reps {
			var rs []rudd.Replacer
			for _, e := range es {
				r := e.replacer(m)
				if ids[r.Id()] {
					u.Fail("two replacers have identity %d", r.Id())
				}
				ids[r.Id()] = true
				rs = append(rs, r)
			}
			for f := T(0); f < 256; f += T(1 + round) {
				for i := range es {
					e := es[(i+k)%4]
					c := Call{K: kReplace, F: []T{f}, M: m}
					if c.defined(3) {
						e.is(e.Replace(e.node[f], rs[(i+k)%4]), c.want(3), "Replace of %02x by %v on BDD %d of 4", f, m, (i+k)%4)
						u.Eval()
						u.Nontrivial()
						u.Trans(1)
					}
				}
			}
		}
	}
	u.Done()
}
