package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"
	"sort"

	"github.com/dalzilio/rudd"
)

// C23: the time of an operation depends on the number of nodes, not on the number
// of paths. The functions are given by automata that read the variables in the
// order of levels: they have a few nodes per level and up to 2^100 paths. An
// operation that loses sharing does not come back, and the watchdog ends it.

func init() { checks["C23"] = c23 }

// auto is a deterministic automaton over the values of the variables. States are
// numbered from 0, and 0 is the first one.
type auto struct {
	name string
	k    int
	next func(i, s, bit int) int // i is the index of the variable
	acc  func(s int) bool
}

func (a *auto) String() string { return a.name }

// table gives the automaton of k states with these transitions (k*2 digits in base
// k) and accepting states (bits).
func tableAuto(k, trans, acc int) *auto {
	d := make([]int, 2*k)
	t := trans
	for i := range d {
		d[i] = t % k
		t /= k
	}
	return &auto{fmt.Sprintf("a%d.%d.%d", k, trans, acc), k, func(i, s, bit int) int { return d[2*s+bit] }, func(s int) bool { return acc>>uint(s)&1 != 0 }}
}

// tables enumerates all automata of k states.
func tableAutos(k int) []*auto {
	n := 1
	for i := 0; i < 2*k; i++ {
		n *= k
	}
	var res []*auto
	for t := 0; t < n; t++ {
		for a := 1; a < 1<<uint(k)-1; a++ {
			res = append(res, tableAuto(k, t, a))
		}
	}
	return res
}

// counters are automata with more states.
func counterAutos(n int) []*auto {
	mod := func(m, r int) *auto {
		return &auto{fmt.Sprintf("mod%d=%d", m, r), m, func(i, s, b int) int { return (s + b) % m }, func(s int) bool { return s == r }}
	}
	wmod := func(m, r int) *auto {
		return &auto{fmt.Sprintf("weighted%d=%d", m, r), m, func(i, s, b int) int { return (s + b*(i+1)) % m }, func(s int) bool { return s == r }}
	}
	atleast := func(t int) *auto {
		return &auto{fmt.Sprintf("atleast%d", t), t + 1, func(i, s, b int) int { return min(s+b, t) }, func(s int) bool { return s == t }}
	}
	exactly := func(t int) *auto {
		return &auto{fmt.Sprintf("exactly%d", t), t + 2, func(i, s, b int) int { return min(s+b, t+1) }, func(s int) bool { return s == t }}
	}
	// pairs of adjacent variables that are equal: an odd number of them
	pairs := &auto{"pairs", 6, func(i, s, b int) int {
		p := s & 1
		if i%2 == 0 {
			return p + 2*(1+b)
		}
		if s>>1-1 == b {
			p ^= 1
		}
		return p
	}, func(s int) bool { return s&1 == 1 }}
	return []*auto{mod(2, 1), mod(3, 0), mod(5, 2), mod(7, 6), wmod(11, 4), wmod(13, 0), atleast(n / 2), atleast(n - 2), exactly(n / 3), exactly(2), pairs}
}

// layered is a BDD with n of its variables selected.
type layered struct {
	*Env
	lv []int
}

// node builds the function that reads the variables at levels lv, by the kernel
// functions, and returns a reference.
func (l *layered) node(lv []int, start uint64, next func(i int, s uint64, bit int) uint64, acc func(s uint64) bool) rudd.Node {
	return l.nodeq(lv, nil, start, next, acc)
}

// nodeq is node where the variables with skip[i] are not read: next gets bit -1.
func (l *layered) nodeq(lv []int, skip []bool, start uint64, next func(i int, s uint64, bit int) uint64, acc func(s uint64) bool) rudd.Node {
	type key struct {
		i int
		s uint64
	}
	memo := map[key]int{}
	tick()
	l.Initref()
	var rec func(i int, s uint64) int
	rec = func(i int, s uint64) int {
		if i == len(lv) {
			if acc(s) {
				return 1
			}
			return 0
		}
		if r, ok := memo[key{i, s}]; ok {
			return r
		}
		var r int
		if skip != nil && skip[i] {
			r = rec(i+1, next(i, s, -1))
		} else {
			lo := rec(i+1, next(i, s, 0))
			hi := rec(i+1, next(i, s, 1))
			r = l.Makenode(int32(lv[i]), lo, hi)
			if r < 0 {
				l.u.Fail("Makenode fails: %s", clip(l.Error()))
			}
			l.Pushref(r)
		}
		memo[key{i, s}] = r
		return r
	}
	return l.take(l.Retnode(rec(0, start)))
}

// of builds the function of an automaton.
func (l *layered) of(a *auto) rudd.Node { return l.at(a, l.lv) }

func (l *layered) at(a *auto, lv []int) rudd.Node {
	return l.node(lv, 0, func(i int, s uint64, b int) uint64 { return uint64(a.next(i, int(s), b)) }, func(s uint64) bool { return a.acc(int(s)) })
}

// combine builds the function of several automata.
func (l *layered) combine(acc func(v []bool) bool, as ...*auto) rudd.Node {
	split := func(s uint64) []int {
		q := make([]int, len(as))
		for j, a := range as {
			q[j] = int(s % uint64(a.k))
			s /= uint64(a.k)
		}
		return q
	}
	return l.node(l.lv, 0, func(i int, s uint64, b int) uint64 {
		q := split(s)
		var r uint64
		for j := len(as) - 1; j >= 0; j-- {
			r = r*uint64(as[j].k) + uint64(as[j].next(i, q[j], b))
		}
		return r
	}, func(s uint64) bool {
		v := make([]bool, len(as))
		for j, q := range split(s) {
			v[j] = as[j].acc(q)
		}
		return acc(v)
	})
}

// exists builds the quantification of a combination of automata with at most 64
// states together.
func (l *layered) exists(skip []bool, acc func(v []bool) bool, as ...*auto) rudd.Node {
	tot := 1
	for _, a := range as {
		tot *= a.k
	}
	if tot > 64 {
		l.u.Fail("harness: too many states")
	}
	step := func(i, q, b int) int {
		r, f := 0, 1
		for _, a := range as {
			r += f * a.next(i, q%a.k, b)
			q /= a.k
			f *= a.k
		}
		return r
	}
	good := uint64(0)
	for q := 0; q < tot; q++ {
		v, x := make([]bool, len(as)), q
		for j, a := range as {
			v[j] = a.acc(x % a.k)
			x /= a.k
		}
		if acc(v) {
			good |= 1 << uint(q)
		}
	}
	return l.nodeq(l.lv, skip, 1, func(i int, s uint64, b int) uint64 {
		var r uint64
		for q := 0; q < tot; q++ {
			if s>>uint(q)&1 == 0 {
				continue
			}
			if b <= 0 {
				r |= 1 << uint(step(i, q, 0))
			}
			if b != 0 {
				r |= 1 << uint(step(i, q, 1))
			}
		}
		return r
	}, func(s uint64) bool { return s&good != 0 })
}

// is checks the result of an operation, and drops both references.
func (l *layered) is(got, want rudd.Node, what string, a ...any) {
	l.u.Eval()
	if got == nil {
		l.u.Fail("%s fails: %s", fmt.Sprintf(what, a...), clip(l.Error()))
	}
	if *got > 1 {
		l.u.Nontrivial()
	}
	if !l.Equal(got, want) {
		l.u.Fail("%s: the result is node %d, expected node %d", fmt.Sprintf(what, a...), *got, *want)
	}
	l.drop(l.take(got))
	l.drop(want)
}

// distinct builds the automata that denote different functions.
func (l *layered) distinct(as []*auto) ([]*auto, []rudd.Node) {
	var res []*auto
	var ns []rudd.Node
	seen := map[int]bool{}
	for _, a := range as {
		n := l.of(a)
		if seen[*n] {
			l.drop(n)
			continue
		}
		seen[*n] = true
		res, ns = append(res, a), append(ns, n)
	}
	if l.cfg.Ratio > 0 {
		// the caches grow with the table, which is used before the operations are
		for k, grow := 0, l.newGarbage(); l.stat().Alloc < 900; k++ {
			if k == 100 {
				l.u.Fail("harness: the table does not grow: %v", l.stat())
			}
			grow()
		}
	}
	return res, ns
}

// patterns gives sets of selected variables.
func patterns(n int) map[string][]bool {
	mk := func(f func(i int) bool) []bool {
		r := make([]bool, n)
		for i := range r {
			r[i] = f(i)
		}
		return r
	}
	return map[string][]bool{
		"even":   mk(func(i int) bool { return i%2 == 0 }),
		"odd":    mk(func(i int) bool { return i%2 == 1 }),
		"third":  mk(func(i int) bool { return i%3 == 1 }),
		"sparse": mk(func(i int) bool { return i%7 == 3 }),
		"upper":  mk(func(i int) bool { return i < n/2 }),
		"lower":  mk(func(i int) bool { return i >= n/2 }),
		"ends":   mk(func(i int) bool { return i == 0 || i == n-1 }),
		"most":   mk(func(i int) bool { return i%8 != 5 }),
		"all":    mk(func(i int) bool { return true }),
	}
}

func (l *layered) varset(skip []bool) rudd.Node {
	var s []int
	for i, b := range skip {
		if b {
			s = append(s, l.lv[i])
		}
	}
	return l.setOf(s...)
}

func keysOf[X any](m map[string]X) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func bval(b bool) int {
	if b {
		return 1
	}
	return 0
}

// opBool gives the value of an operator.
func opBool(op int, v []bool) bool {
	var f, g T
	if v[0] {
		f = 1
	}
	if v[1] {
		g = 1
	}
	return applyT(op, f, g, 0)&1 != 0
}

func c23(c *Ctx) {
	type conf struct {
		name string
		n    int
		gap  int
		cfg  Cfg
	}
	confs := []conf{
		{"large", 64, 1, Cfg{Nodesize: 300000, Cache: 200000}},
		{"default", 48, 1, Cfg{}},
		{"growing", 56, 2, Cfg{Nodesize: 200, Cache: 20000, Maxinc: 1001}},
		{"ratio", 60, 1, Cfg{Nodesize: 500, Cache: 50, Ratio: 1000}},
	}
	if c.Thorough() {
		confs = append(confs, conf{"long", 200, 3, Cfg{Nodesize: 600000, Cache: 400000}}, conf{"odd", 101, 1, Cfg{Nodesize: 50000, Ratio: 200}})
	}
	for _, cf := range confs {
		cf := cf
		open := func(u *U) *layered {
			var lv []int
			for i := 0; i < cf.n; i++ {
				lv = append(lv, i*cf.gap)
			}
			return &layered{u.NewEnv(cf.n*cf.gap, []int{}, cf.cfg), lv}
		}
		unit := func(kind string, parts int, f func(u *U, l *layered, mine func(k int) bool)) {
			for p := 0; p < parts; p++ {
				p := p
				c.Unit(fmt.Sprintf("%s.%s.%d", kind, cf.name, p), func(u *U) {
					f(u, open(u), func(k int) bool { return k%parts == p })
				})
			}
		}
		three := func() []*auto { return append(tableAutos(3), counterAutos(cf.n)...) }
		if c.Thorough() {
			// T: all automata of 4 states, with one accepting state (the first one, and the last one)
			for p := 0; p < 64; p++ {
				p := p
				c.Unit(fmt.Sprintf("T.%s.%d", cf.name, p), func(u *U) {
					l := open(u)
					pats := patterns(cf.n)
					names := keysOf(pats)
					var sets []rudd.Node
					for _, name := range names {
						sets = append(sets, l.varset(pats[name]))
					}
					seen := map[int]bool{}
					for t := p * 1024; t < (p+1)*1024; t++ {
						for _, acc := range []int{1, 8} {
							a := tableAuto(4, t, acc)
							n := l.of(a)
							if seen[*n] {
								l.drop(n)
								continue
							}
							seen[*n] = true
							l.is(l.Not(n), l.combine(func(v []bool) bool { return !v[0] }, a), "Not(%v)", a)
							for s, name := range names {
								l.is(l.Exist(n, sets[s]), l.exists(pats[name], func(v []bool) bool { return v[0] }, a), "Exist(%v, %s)", a, name)
							}
							if t%8 == 0 {
								l.traverse(a, n)
							}
						}
					}
				})
			}
		}
		two := func(extra int) []*auto { return append(tableAutos(2), counterAutos(cf.n)[:extra]...) }
		// N: negation, counting and traversals of all automata of 3 states
		unit("N", 4, func(u *U, l *layered, mine func(k int) bool) {
			as, ns := l.distinct(three())
			u.Count("functions", int64(len(as)))
			for k, a := range as {
				if !mine(k) {
					continue
				}
				l.is(l.Not(ns[k]), l.combine(func(v []bool) bool { return !v[0] }, a), "Not(%v)", a)
				l.traverse(a, ns[k])
			}
			// a few at once
			for k := 0; k+40 <= len(ns); k += 40 {
				if mine(k / 40) {
					l.traverse(nil, ns[k:k+40]...)
				}
			}
		})
		// A: all operators on all pairs of automata of 2 states and counters
		unit("A", 2, func(u *U, l *layered, mine func(k int) bool) {
			as, ns := l.distinct(two(11))
			for k, a := range as {
				if !mine(k) {
					continue
				}
				for j, b := range as {
					if a.k*b.k > 900 {
						continue
					}
					for op := 0; op < 10; op++ {
						l.is(l.Apply(ns[k], ns[j], rudd.Operator(op)), l.combine(func(v []bool) bool { return opBool(op, v) }, a, b), "Apply(%v, %v, %v)", a, b, rudd.Operator(op))
					}
				}
			}
		})
		// I: Ite on all triples of automata of 2 states and a few counters
		unit("I", 4, func(u *U, l *layered, mine func(k int) bool) {
			as, ns := l.distinct(two(4))
			for k, a := range as {
				if !mine(k) {
					continue
				}
				for j, b := range as {
					for h, d := range as {
						l.is(l.Ite(ns[k], ns[j], ns[h]), l.combine(func(v []bool) bool { return v[0] && v[1] || !v[0] && v[2] }, a, b, d), "Ite(%v, %v, %v)", a, b, d)
					}
				}
			}
		})
		// E: Exist on all automata of 3 states, for several sets
		unit("E", 8, func(u *U, l *layered, mine func(k int) bool) {
			as, ns := l.distinct(append(tableAutos(3), counterAutos(cf.n)[:6]...))
			pats := patterns(cf.n)
			for p, name := range keysOf(pats) {
				set := l.varset(pats[name])
				for k, a := range as {
					if !mine(k + p) {
						continue
					}
					l.is(l.Exist(ns[k], set), l.exists(pats[name], func(v []bool) bool { return v[0] }, a), "Exist(%v, %s)", a, name)
				}
				l.drop(set)
			}
		})
		// X: AppEx on all pairs of automata of 2 states and a few counters
		unit("X", 4, func(u *U, l *layered, mine func(k int) bool) {
			as, ns := l.distinct(two(3))
			pats := patterns(cf.n)
			for p, name := range keysOf(pats) {
				set := l.varset(pats[name])
				for k, a := range as {
					if !mine(k + p) {
						continue
					}
					for j, b := range as {
						for _, op := range binops {
							l.is(l.AppEx(ns[k], ns[j], rudd.Operator(op), set), l.exists(pats[name], func(v []bool) bool { return opBool(op, v) }, a, b), "AppEx(%v, %v, %v, %s)", a, b, rudd.Operator(op), name)
						}
						if cf.name == "large" {
							l.is(l.AndExist(ns[k], ns[j], set), l.exists(pats[name], func(v []bool) bool { return v[0] && v[1] }, a, b), "AndExist(%v, %v, %s)", a, b, name)
						}
					}
				}
				l.drop(set)
			}
		})
		// R: renamings that keep the order of the variables
		c.Unit(fmt.Sprintf("R.%s", cf.name), func(u *U) {
			// the variables sit at every fourth level
			var lv []int
			for i := 0; i < cf.n; i++ {
				lv = append(lv, 4*i+1)
			}
			l := &layered{u.NewEnv(5*cf.n+4, []int{}, cf.cfg), lv}
			as, ns := l.distinct(append(tableAutos(2), append(counterAutos(cf.n), tableAutos(3)...)...))
			shift := func(f func(i int) int) []int {
				r := make([]int, len(lv))
				for i := range r {
					r[i] = f(i)
				}
				return r
			}
			for _, m := range []struct {
				name string
				to   []int
			}{
				{"up", shift(func(i int) int { return 4 * i })},
				{"down", shift(func(i int) int { return 4*i + 3 })},
				{"some", shift(func(i int) int { return 4*i + 1 + i%2 })},
				{"last", shift(func(i int) int { return 4*i + 1 + bval(i == cf.n-1) })},
				{"first", shift(func(i int) int { return 4*i + 1 - bval(i == 0) })},
				{"lower", shift(func(i int) int { return 4*i + 1 + 2*bval(i >= cf.n/2) })},
				{"upper", shift(func(i int) int { return 4*i + 1 - bval(i < cf.n/2) })},
				{"sparse", shift(func(i int) int { return 4*i + 1 + bval(i%13 == 12) })},
				{"tail", shift(func(i int) int { return 4*cf.n + 2 + i })},
			} {
				r, err := l.NewReplacer(append([]int{}, lv...), append([]int{}, m.to...))
				if m.name != "tail" && m.name != "up" {
					var from, to []int
					for i := range lv {
						if lv[i] != m.to[i] {
							from, to = append(from, lv[i]), append(to, m.to[i])
						}
					}
					r, err = l.NewReplacer(from, to)
				}
				if err != nil || r == nil {
					u.Fail("NewReplacer(%s) fails: %v", m.name, err)
				}
				for k, a := range as {
					if m.name == "tail" && k > 40 {
						break
					}
					l.is(l.Replace(ns[k], r), l.at(a, m.to), "Replace(%v, %s)", a, m.name)
				}
			}
		})
		// G: collections mark every node once
		c.Unit(fmt.Sprintf("G.%s", cf.name), func(u *U) {
			l := open(u)
			as, ns := l.distinct(append(tableAutos(2), counterAutos(cf.n)...))
			fl := l.newGarbage()
			for round := 0; round < 3; round++ {
				fl()
				u.Eval()
				for k, a := range as {
					l.is(l.take(l.Retnode(*ns[k])), l.of(a), "%v after a collection", a)
				}
			}
			for k, a := range as {
				l.is(l.Not(ns[k]), l.combine(func(v []bool) bool { return !v[0] }, a), "Not(%v) after collections", a)
			}
		})
	}
}

// newGarbage gives a function that makes unreferenced nodes until a collection.
func (l *layered) newGarbage() func() {
	k := 0
	return func() {
		st := l.stat()
		for l.stat().GC == st.GC {
			for j := 0; j < 64; j++ {
				// constraints on the first variables, all different
				l.Initref()
				n := 1
				for i := 22; i >= 0; i-- {
					if k>>uint(i)&1 != 0 {
						n = l.Makenode(int32(l.lv[i]), 0, n)
					} else {
						n = l.Makenode(int32(l.lv[i]), n, 0)
					}
					if n < 0 {
						l.u.Fail("Makenode fails: %s", clip(l.Error()))
					}
					l.Pushref(n)
				}
				k++
			}
			tick()
		}
	}
}

// traverse counts and lists the nodes.
func (l *layered) traverse(a *auto, ns ...rudd.Node) {
	type nd struct{ level, low, high int }
	seen := map[int]nd{}
	show := fmt.Sprint(a)
	if a == nil {
		show = fmt.Sprintf("%d nodes", len(ns))
	}
	if err := l.Allnodes(func(id, level, low, high int) error {
		if _, ok := seen[id]; ok {
			l.u.Fail("Allnodes(%s) visits node %d twice", show, id)
		}
		seen[id] = nd{level, low, high}
		return nil
	}, ns...); err != nil {
		l.u.Fail("Allnodes(%s) fails: %v", show, err)
	}
	for id, n := range seen {
		if id < 2 {
			continue
		}
		if _, ok := seen[n.low]; !ok && n.low > 1 {
			l.u.Fail("Allnodes(%s) misses node %d", show, n.low)
		}
		if _, ok := seen[n.high]; !ok && n.high > 1 {
			l.u.Fail("Allnodes(%s) misses node %d", show, n.high)
		}
	}
	l.u.Eval()
	var buf bytes.Buffer
	l.Print(&buf, ns...)
	lines := bytes.Count(buf.Bytes(), []byte("\n"))
	inner := 0
	for id := range seen {
		if id > 1 {
			inner++
		}
	}
	if lines < inner {
		l.u.Fail("Print(%s) has %d lines for %d nodes", show, lines, inner)
	}
	l.u.Eval()
	buf.Reset()
	if err := l.Dot(&buf, ns...); err != nil {
		l.u.Fail("Dot(%s) fails: %v", show, err)
	}
	if k := bytes.Count(buf.Bytes(), []byte("\n")); k < inner {
		l.u.Fail("Dot(%s) has %d lines for %d nodes", show, k, inner)
	}
	l.u.Eval()
	if a == nil {
		return
	}
	// the paths to True, or the first of them
	paths := map[int]*big.Int{0: new(big.Int), 1: big.NewInt(1)}
	var count func(id int) *big.Int
	count = func(id int) *big.Int {
		if paths[id] == nil {
			paths[id] = new(big.Int).Add(count(seen[id].low), count(seen[id].high))
		}
		return paths[id]
	}
	total := count(*ns[0])
	limit := 50 + *ns[0]%50
	if total.Cmp(big.NewInt(20000)) < 0 {
		limit = 1 << 30
	}
	calls := 0
	stop := errors.New("stop")
	err := l.Allsat(func(v []int) error {
		calls++
		if calls == limit {
			return stop
		}
		return nil
	}, ns[0])
	if limit == 1<<30 {
		if err != nil || total.Cmp(big.NewInt(int64(calls))) != 0 {
			l.u.Fail("Allsat(%s): %d calls and result %v, there are %v paths", show, calls, err, total)
		}
	} else if err == nil || calls != limit {
		l.u.Fail("Allsat(%s): %d calls and result %v, although call %d returned an error", show, calls, err, limit)
	}
	l.u.Eval()
	// the number of words that are accepted
	cnt := make([]*big.Int, a.k)
	cnt[0] = big.NewInt(1)
	for i := range l.lv {
		nx := make([]*big.Int, a.k)
		for s, c := range cnt {
			if c == nil {
				continue
			}
			for b := 0; b < 2; b++ {
				t := a.next(i, s, b)
				if nx[t] == nil {
					nx[t] = new(big.Int)
				}
				nx[t].Add(nx[t], c)
			}
		}
		cnt = nx
	}
	want := new(big.Int)
	for s, c := range cnt {
		if c != nil && a.acc(s) {
			want.Add(want, c)
		}
	}
	want.Lsh(want, uint(l.Varnum()-len(l.lv)))
	l.satcountIs(ns[0], want, "Satcount(%s)", show)
	l.u.Eval()
}
