package main

import (
	"fmt"
	"io"
	"strings"

	"github.com/dalzilio/rudd"

	"verif/vrt"
)

func init() { checks["C05"] = c05 }

// C05: finalizers run at any point of an operation. Thread 0 is the user's
// goroutine, threads 1 and 2 each run one finalizer, one at a time as in the
// runtime. All the schedules with a bounded number of preemptions are explored.

// finScn is one scenario; prepare is called for each execution.
type finScn struct {
	name    string
	prepare func(u *U) *finRun
}

// finRun is one execution of a scenario.
type finRun struct {
	e    *Env
	fl   *filler
	body func()        // the operation
	fin  []rudd.Node   // references noticed as dropped while the body runs
	post func(s *Snap) // after the body and the finalizers
}

// settle drops the temporary references of the preparation, but not those that
// the finalizer threads are going to drop.
func (r *finRun) settle() {
	for _, p := range r.fin {
		r.e.own[p]++
	}
	r.e.releaseTemps()
	for _, p := range r.fin {
		r.e.give(p)
		if vrt.HasFinalizer(p) {
			r.e.u.Count("finalizers run by a thread", 1)
		}
	}
}

type finalState struct {
	total map[int]int // number of KeepAlive for each dropped argument
}

func (u *U) schedules(sc finScn, bound int, shard, n int) {
	st := &finalState{total: map[int]int{}}
	// a first run, to learn the calls to KeepAlive
	{
		u.Reset()
		r := sc.prepare(u)
		_, msg := vrt.Run([]func(){r.body}, nil, 1000000)
		if msg != "" {
			u.T("%s", sc.name)
			u.Fail("%s: %s (without finalizers)", sc.name, msg)
		}
		for i, p := range r.fin {
			st.total[i] = vrt.Kept[p]
		}
	}
	ex := &vrt.Explorer{Bound: bound, Stop: u.c.Expired, ShardI: shard, N: n}
	switches := int64(0)
	ex.Exec = func(devs []vrt.Dev) *vrt.Sched {
		u.Reset()
		r := sc.prepare(u)
		gc0 := r.e.stat().GC
		u.T("%s; schedule %v", sc.name, devs)
		done, busy := false, false
		bodies := []func(){func() { r.body(); done = true }}
		for i, p := range r.fin {
			bodies = append(bodies, func() {
				vrt.Wait("finalizer", func() bool {
					return !busy && (done || vrt.Kept[p] >= st.total[i])
				})
				busy = true
				vrt.Drop(p)
				busy = false
			})
		}
		s, msg := vrt.Run(bodies, devs, 1000000)
		if msg != "" {
			u.Fail("%s, schedule %v: %s", sc.name, devs, msg)
		}
		if s.Diverged {
			u.Count("schedules that ran differently", 1)
		}
		u.Eval()
		u.Done()
		if len(devs) > 0 {
			u.Nontrivial()
		}
		if r.e.stat().GC > gc0 {
			switches++
		}
		snap := r.e.Snapshot()
		r.e.wellformed(snap)
		r.post(snap)
		r.e.releaseTemps()
		r.fl.gc()
		snap = r.e.Snapshot()
		r.post(snap)
		r.e.exactlyHeld(1, sc.name+fmt.Sprintf(", schedule %v; after the next collection", devs))
		// the counters are exact: with one reference left to each node it stays,
		// without any it goes
		one := map[int]rudd.Node{}
		var more []rudd.Node
		for n, k := range r.e.own {
			if _, ok := one[*n]; !ok {
				one[*n] = n
				k--
			}
			for ; k > 0; k-- {
				more = append(more, n)
			}
		}
		was := map[int]T{}
		for id := range one {
			was[id], _ = r.e.tt(snap, id)
		}
		for _, n := range more {
			r.e.drop(n)
		}
		r.fl.gc()
		snap = r.e.Snapshot()
		for id, n := range one {
			r.e.want(snap, n, was[id], sc.name+fmt.Sprintf(", schedule %v; after all the references but one were dropped", devs))
		}
		for _, n := range one {
			r.e.drop(n)
		}
		r.fl.gc()
		if !strings.Contains(sc.name, "sticky") {
			r.e.exactlyHeld(1, sc.name+fmt.Sprintf(", schedule %v; after all the references were dropped", devs))
		}
		return s
	}
	ex.Explore()
	u.Trans(int(ex.Steps))
	u.Count("schedules", ex.Execs)
	u.Count("schedules of operations that collect", switches)
	if int64(ex.MaxSteps) > u.c.Res.Counters["longest execution (steps)"] {
		u.c.Res.Counters["longest execution (steps)"] = int64(ex.MaxSteps)
	}
	if ex.Capped {
		u.c.Cap("deadline")
	}
	u.Sample("%s: %d schedules with at most %d preemptions, up to %d steps", sc.name, ex.Execs, bound, ex.MaxSteps)
}

// regimes of the node table during the operation
var finRegimes = []string{"free", "gc0", "gc1", "gc2", "resize0", "resize1"}

// finEnv: 3 logical variables at levels 1 to 3, level 0 for fillers.
func finEnv(u *U, regime string) (*Env, *filler) { return finEnvN(u, regime, 3) }

func finEnvN(u *U, regime string, n int) (*Env, *filler) {
	cfg := Cfg{Nodesize: 31, Cache: 7, Minfree: 1, Maxinc: 4}
	if n > 3 {
		cfg.Nodesize = 21 + 4*n
	}
	if regime[0] == 'r' {
		cfg.Minfree = 100
	}
	lv := []int{}
	for i := 1; i <= n; i++ {
		lv = append(lv, i)
	}
	e := u.NewEnv(n+1, lv, cfg)
	return e, e.newFiller(0)
}

func (e *Env) regime(fl *filler, regime string) {
	if regime != "free" {
		e.fillTo(fl, int(regime[len(regime)-1]-'0'))
	}
}

func (e *Env) fillTo(fl *filler, n int) { fl.fillTo(n) }

// finals are the choices of the references that are noticed.
var finals = []string{"copies", "same", "operands", "result", "garbage"}

// again returns another reference to the same node.
func (e *Env) again(n rudd.Node) rudd.Node { return e.take(e.Retnode(*n)) }

// give hands a reference over to a finalizer thread.
func (e *Env) give(n rudd.Node) rudd.Node {
	e.own[n]--
	if e.own[n] <= 0 {
		delete(e.own, n)
	}
	return n
}

func callScn(c Call, regime, final string) finScn {
	n := 3
	if c.K == kReplace {
		n = len(c.M)
	}
	if strings.HasPrefix(final, "set") {
		n = 4
	}
	setFinal := strings.HasPrefix(final, "set")
	name := fmt.Sprintf("%s (%s, noticed: %s)", c.show(&Env{n: n}), regime, final)
	return finScn{name, func(u *U) *finRun {
		e, fl := finEnvN(u, regime, n)
		r := &finRun{e: e, fl: fl}
		if setFinal {
			for i := 0; i < 6; i++ { // garbage in the slots below the set of variables
				fl.add()
			}
		}
		by := e.mk(0x1e) // a bystander
		a := e.prepare(c)
		var held []rudd.Node
		var heldT []T
		hold := func(n rudd.Node, t T) { held = append(held, n); heldT = append(heldT, t) }
		hold(by, 0x1e)
		operands := true
		switch final {
		case "copies": // another reference to an operand, and one to the bystander
			r.fin = append(r.fin, e.give(e.again(a.F[0])), e.give(e.again(by)))
		case "same": // two more references to one operand
			x := a.F[len(a.F)-1]
			r.fin = append(r.fin, e.give(e.again(x)), e.give(e.again(x)))
		case "operands": // the last references to the operands
			operands = false
			r.fin = append(r.fin, e.give(a.F[0]))
			if len(a.F) > 1 {
				r.fin = append(r.fin, e.give(a.F[len(a.F)-1]))
			} else if a.Set != nil {
				r.fin = append(r.fin, e.give(a.Set))
			}
			for i, n := range a.F {
				if i != 0 && i != len(a.F)-1 {
					hold(n, c.F[i])
				}
			}
		case "set3", "set5", "set9": // the last reference to the set of variables
			r.fin = append(r.fin, e.give(a.Set))
		case "result": // the result of an earlier, identical call, and a part of an operand
			r.fin = append(r.fin, e.give(e.take(e.exec(c, a))))
			if *a.F[0] > 1 {
				r.fin = append(r.fin, e.give(e.take(e.High(a.F[0]))))
			}
		case "garbage": // nodes that nobody else uses
			for _, t := range []T{0x17, 0x8e} {
				r.fin = append(r.fin, e.give(e.mk(t)))
			}
		}
		if operands {
			for i, n := range a.F {
				hold(n, c.F[i])
			}
		}
		r.settle()
		e.regime(fl, regime)
		want := c.want(n)
		var res rudd.Node
		r.body = func() { res = e.exec(c, a) }
		first, again := true, false
		r.post = func(s *Snap) {
			if first {
				e.take(res)
				first = false
			}
			e.want(s, res, want, "result of "+name)
			for i, n := range held {
				e.want(s, n, heldT[i], "a held node after "+name)
			}
			if setFinal && !again {
				// another set, whose node takes the place of the one that was dropped
				again = true
				was := *r.fin[0]
				for k := 0; k < 12; k++ {
					below := 0
					for id := 2; id < was; id++ {
						if s.node(id) == nil {
							below++
						}
					}
					if below == 0 {
						break
					}
					fl.add()
					s = e.Snapshot()
				}
				d := c
				d.Set = uint(final[3] - '0')
				b := a
				b.Set = e.mkset(d.Set)
				if *b.Set == was {
					u.Count("sets that take the place of another one", 1)
				}
				x := e.take(e.exec(d, b))
				e.want(e.Snapshot(), x, d.want(n), d.show(e)+" after "+name)
				s = e.Snapshot()
			}
			if e.Errored() {
				u.Fail("%s: the error status is set: %s", name, clip(e.Error()))
			}
		}
		return r
	}}
}

// other operations of the user's goroutine
func otherScns(thorough bool) []finScn {
	var res []finScn
	type op struct {
		name string
		f    func(e *Env, fl *filler, x, y rudd.Node) (out []rudd.Node, outT []T, err string)
	}
	const f, g = T(0x6a), T(0xd4)
	ops := []op{
		{"Low, High, Low", func(e *Env, fl *filler, x, y rudd.Node) ([]rudd.Node, []T, string) {
			a, b := e.Low(x), e.High(x)
			return []rudd.Node{a, b, e.Low(y)}, []T{cof(f, 0, false), cof(f, 0, true), cof(g, 0, false)}, ""
		}},
		{"Retnode twice", func(e *Env, fl *filler, x, y rudd.Node) ([]rudd.Node, []T, string) {
			return []rudd.Node{e.Retnode(*x), e.Retnode(*x)}, []T{f, f}, ""
		}},
		{"Not and Not", func(e *Env, fl *filler, x, y rudd.Node) ([]rudd.Node, []T, string) {
			a := e.Not(x)
			return []rudd.Node{a, e.Not(y)}, []T{^f, ^g}, ""
		}},
		{"And of 3", func(e *Env, fl *filler, x, y rudd.Node) ([]rudd.Node, []T, string) {
			return []rudd.Node{e.And(x, y, e.Ithvar(3))}, []T{f & g & varTT[2]}, ""
		}},
		{"Allnodes", func(e *Env, fl *filler, x, y rudd.Node) ([]rudd.Node, []T, string) {
			n := 0
			if err := e.Allnodes(func(id, l, lo, hi int) error { n++; return nil }); err != nil || n == 0 {
				return nil, nil, fmt.Sprint("Allnodes: ", err, n)
			}
			seen := map[int]bool{}
			if err := e.Allnodes(func(id, l, lo, hi int) error { seen[id] = true; return nil }, x, y); err != nil || !seen[*x] || !seen[*y] {
				return nil, nil, fmt.Sprint("Allnodes: ", err, seen)
			}
			return nil, nil, ""
		}},
		{"Allnodes with a callback that collects", func(e *Env, fl *filler, x, y rudd.Node) ([]rudd.Node, []T, string) {
			n := 0
			err := e.Allnodes(func(id, l, lo, hi int) error {
				if n++; n == 2 {
					fl.add()
					fl.add()
				}
				return nil
			}, x)
			if err != nil || n < 3 {
				return nil, nil, fmt.Sprint("Allnodes: ", err, n)
			}
			return nil, nil, ""
		}},
		{"Allsat", func(e *Env, fl *filler, x, y rudd.Node) ([]rudd.Node, []T, string) {
			k := 0
			if err := e.Allsat(func(a []int) error {
				w := 1
				for _, i := range e.lv {
					if a[i] < 0 {
						w *= 2
					}
				}
				k += w
				return nil
			}, x); err != nil || k != popcount(uint(f)) {
				return nil, nil, fmt.Sprint("Allsat: ", err, k)
			}
			return nil, nil, ""
		}},
		{"Allsat with a callback that collects", func(e *Env, fl *filler, x, y rudd.Node) ([]rudd.Node, []T, string) {
			k := 0
			if err := e.Allsat(func(a []int) error {
				w := 1
				for _, i := range e.lv {
					if a[i] < 0 {
						w *= 2
					}
				}
				k += w
				fl.add()
				return nil
			}, x); err != nil || k != popcount(uint(f)) {
				return nil, nil, fmt.Sprint("Allsat: ", err, k)
			}
			return nil, nil, ""
		}},
		{"Satcount, Scanset, Label", func(e *Env, fl *filler, x, y rudd.Node) ([]rudd.Node, []T, string) {
			k := e.Satcount(x).Int64()
			if k != 2*int64(popcount(uint(f))) {
				return nil, nil, fmt.Sprint("Satcount: ", k)
			}
			e.Scanset(x)
			if l := e.Label(y); l != 1 {
				return nil, nil, fmt.Sprint("Label: ", l)
			}
			return nil, nil, ""
		}},
		{"Print, Dot, Stats", func(e *Env, fl *filler, x, y rudd.Node) ([]rudd.Node, []T, string) {
			e.Print(io.Discard, x)
			e.Print(io.Discard)
			if err := e.Dot(io.Discard, x, y); err != nil {
				return nil, nil, err.Error()
			}
			e.Stats()
			return nil, nil, ""
		}},
		{"Makenode, several collections", func(e *Env, fl *filler, x, y rudd.Node) ([]rudd.Node, []T, string) {
			e.Initref()
			for i := 0; i < 14; i++ {
				if fl.add() < 0 {
					return nil, nil, "Makenode: " + clip(e.Error())
				}
			}
			return []rudd.Node{e.Apply(x, y, rudd.OPand)}, []T{f & g}, ""
		}},
		{"Makeset, Makecube", func(e *Env, fl *filler, x, y rudd.Node) ([]rudd.Node, []T, string) {
			a := e.Makeset([]int{1, 2, 3})
			b := e.Makecube([]int{1, 3}, []bool{false, true})
			return []rudd.Node{a, b}, []T{varTT[0] & varTT[1] & varTT[2], ^varTT[0] & varTT[2]}, ""
		}},
		{"errors", func(e *Env, fl *filler, x, y rudd.Node) ([]rudd.Node, []T, string) {
			if e.Not(nil) != nil || e.Ithvar(7) != nil || e.Apply(x, y, rudd.Operator(50)) != nil {
				return nil, nil, "a misuse gives a node"
			}
			return []rudd.Node{e.Ite(x, y, x)}, []T{f & g}, ""
		}},
	}
	for oi, o := range ops {
		for _, regime := range []string{"free", "gc0", "gc1", "resize0"} {
			for fi, final := range []string{"copies", "same", "last", "sticky"} {
				if final == "sticky" && (regime == "free" || regime == "gc1" || !thorough && oi > 2 && (oi+len(regime))%3 != 0) {
					continue
				}
				name := fmt.Sprintf("%s (%s, noticed: %s)", o.name, regime, final)
				res = append(res, finScn{name, func(u *U) *finRun {
					e, fl := finEnv(u, regime)
					r := &finRun{e: e, fl: fl}
					x, y := e.mk(f), e.mk(g)
					ps, pt := []rudd.Node{x, y}, []T{f, g}
					switch fi {
					case 0:
						r.fin = []rudd.Node{e.give(e.again(x)), e.give(e.again(y))}
					case 1:
						r.fin = []rudd.Node{e.give(e.again(x)), e.give(e.again(x))}
					case 2: // nodes below x, and garbage
						r.fin = []rudd.Node{e.give(e.take(e.High(x))), e.give(e.mk(0x17))}
					case 3: // more references than the counter can count
						for i := 0; i < 1021; i++ {
							e.again(x)
						}
						r.fin = []rudd.Node{e.give(e.again(x)), e.give(e.again(x))}
					}
					r.settle()
					e.regime(fl, regime)
					var out []rudd.Node
					var outT []T
					var err string
					r.body = func() { out, outT, err = o.f(e, fl, x, y) }
					first := true
					r.post = func(s *Snap) {
						if err != "" {
							u.Fail("%s: %s", name, err)
						}
						for i, n := range out {
							if first {
								e.take(n)
							}
							e.want(s, n, outT[i]&e.mask(), "result of "+name)
						}
						first = false
						for i, n := range ps {
							e.want(s, n, pt[i], "a held node after "+name)
						}
					}
					return r
				}})
			}
		}
	}
	return res
}

func c05(c *Ctx) {
	fs := []T{0x96, 0xe8, 0xca, 0x78}
	var cs []Call
	for i, f := range fs {
		g, h := fs[(i+1)%4], fs[(i+2)%4]
		cs = append(cs, Call{K: kNot, F: []T{f}})
		for _, op := range []int{0, 1, 5, 7} {
			cs = append(cs, Call{K: kApply, Op: op, F: []T{f, g}})
		}
		cs = append(cs, Call{K: kIte, F: []T{f, g, h}}, Call{K: kAnd, F: []T{f, g}}, Call{K: kOr, F: []T{f, g}})
		for _, s := range []uint{1, 2, 6} {
			cs = append(cs, Call{K: kExist, F: []T{f}, Set: s}, Call{K: kAppex, Op: 1, F: []T{f, g}, Set: s})
		}
		cs = append(cs, Call{K: kAndExist, F: []T{f, h}, Set: 2})
	}
	for _, m := range [][]int{{2, 1, 2}, {1, 1, 2}, {0, 1, 0}} {
		for _, f := range []T{0x66, 0x5a, 0x3c, 0x88, 0xa0, 0xfa} {
			if k := (Call{K: kReplace, F: []T{f}, M: m}); k.defined(3) && f != substT(f, m, 3)&0xff {
				cs = append(cs, k)
			}
		}
	}
	// functions whose nodes are not those of single variables
	wide := func(f T) T { // a function of the first three of 6 variables
		var r T
		for a := 0; a < 64; a++ {
			r |= f >> uint(a&7) & 1 << uint(a)
		}
		return r
	}
	for i, m := range [][]int{{3, 4, 5, 3, 4, 5}, {5, 4, 3, 3, 4, 5}, {4, 1, 3, 3, 4, 5}} {
		for j, f := range []T{0x96, 0xe8, 0xca} {
			if c.Thorough() || (i+j)%3 == 0 || i == 1 {
				cs = append(cs, Call{K: kReplace, F: []T{wide(f)}, M: m})
			}
		}
	}
	for i, k := range cs {
		if !c.Thorough() && k.K != kReplace && i/14 != 0 && i%4 != 1 {
			continue
		}
		for ri, regime := range finRegimes {
			if !c.Thorough() && (regime == "gc1" || regime == "gc2" && i%2 == 0 || regime == "resize1" && i%2 == 1 || regime == "resize0" && i%4 == 3) {
				continue
			}
			for _, final := range finals {
				if !c.Thorough() && len(k.M) > 3 && final != "operands" && ri != i%6 {
					continue
				}
				sc := callScn(k, regime, final)
				c.Unit(fmt.Sprintf("A.%d.%s.%s", i, regime, final), func(u *U) { u.schedules(sc, 1, 0, 1) })
				if c.Thorough() && ri%2 == 1 && i%5 == 0 {
					for sh := 0; sh < 4; sh++ {
						c.Unit(fmt.Sprintf("A2.%d.%s.%s.%d", i, regime, final, sh), func(u *U) { u.schedules(sc, 2, sh, 4) })
					}
				}
			}
		}
	}
	// the set of variables is dropped, and its node replaced by another set
	for i, k := range []Call{{K: kExist, F: []T{0x7001}, Set: 6}, {K: kExist, F: []T{0x1029}, Set: 12}, {K: kExist, F: []T{0xb800}, Set: 10},
		{K: kAndExist, F: []T{0x0a81, 0xc324}, Set: 6}, {K: kAppex, Op: 1, F: []T{0x0c88, 0x3bab}, Set: 12}, {K: kAppex, Op: 2, F: []T{0x0850, 0x7af0}, Set: 10}} {
		for _, regime := range []string{"gc0", "resize0"} {
			for _, final := range []string{"set3", "set5", "set9"} {
				sc := callScn(k, regime, final)
				c.Unit(fmt.Sprintf("S.%d.%s.%s", i, regime, final), func(u *U) { u.schedules(sc, 1, 0, 1) })
			}
		}
	}
	for i, sc := range otherScns(c.Thorough()) {
		c.Unit(fmt.Sprintf("B.%d", i), func(u *U) { u.schedules(sc, 1, 0, 1) })
	}
	// two preemptions
	k2 := 1
	if c.Thorough() {
		k2 = 1000
	}
	for i, sc := range otherScns(c.Thorough()) {
		if i/14 < k2 {
			for sh := 0; sh < 8; sh++ {
				c.Unit(fmt.Sprintf("B2.%d.%d", i, sh), func(u *U) { u.schedules(sc, 2, sh, 8) })
			}
		}
	}
}
