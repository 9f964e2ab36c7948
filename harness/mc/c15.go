package main

import (
	"fmt"
	"hash/fnv"
	"sort"
	"strings"

	"github.com/dalzilio/rudd"
)

func init() { checks["C15"] = c15 }

// C15: the same calls in all builds and all configurations.

// player runs one history on one BDD with a given configuration.
type player struct {
	e    *Env
	fl   *filler
	slot []rudd.Node
	reps []rudd.Replacer
}

// act is one call; it returns the observable outcome.
type act struct {
	name string
	f    func(p *player) string
}

func (p *player) get(k int) rudd.Node { return p.slot[k] }

func (p *player) put(k int, n rudd.Node) string {
	p.e.take(n)
	p.e.drop(p.slot[k])
	p.slot[k] = n
	return p.show(n)
}

// show is everything that can be observed of a node, except its identity.
func (p *player) show(n rudd.Node) string {
	e := p.e
	if n == nil {
		return "nil"
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%x sat=%v", uint64(e.apiTT(n)), e.Satcount(n))
	k := 0
	lv := map[int]int{}
	if err := e.Allnodes(func(id, l, lo, hi int) error { k++; lv[l]++; return nil }, n); err != nil {
		b.WriteString(" Allnodes: error")
	}
	fmt.Fprintf(&b, " nodes=%d", k)
	for l := 0; l < e.varnum; l++ {
		fmt.Fprintf(&b, ",%d", lv[l])
	}
	var as []string
	if err := e.Allsat(func(a []int) error { as = append(as, fmt.Sprint(a)); return nil }, n); err != nil {
		b.WriteString(" Allsat: error")
	}
	sort.Strings(as)
	fmt.Fprintf(&b, " allsat=%v scan=%v", as, e.Scanset(n))
	if *n > 1 {
		fmt.Fprintf(&b, " label=%d", e.Label(n))
	}
	return b.String()
}

// state is what can be observed between calls.
func (p *player) state() string {
	var b strings.Builder
	for i := range p.slot {
		for j := range p.slot[:i] {
			if p.e.Equal(p.slot[i], p.slot[j]) {
				b.WriteByte('=')
			} else {
				b.WriteByte('#')
			}
		}
	}
	fmt.Fprintf(&b, " err=%v", p.e.Errored())
	return b.String()
}

func newPlayer(u *U, cfg Cfg) *player {
	e := u.NewEnv(5, []int{1, 2, 3, 4}, cfg)
	p := &player{e: e, fl: e.newFiller(0), slot: make([]rudd.Node, 3)}
	for i, f := range []T{0xca53, 0x9669, 0x8ef0} {
		p.slot[i] = e.mk(f)
	}
	for _, m := range [][]int{{0, 3, 2, 3}, {1, 1, 2, 3}} {
		p.reps = append(p.reps, e.replacer(m))
	}
	return p
}

func (p *player) replacer(k int) rudd.Replacer { return p.reps[k] }

func acts() []act {
	var res []act
	add := func(name string, f func(p *player) string) { res = append(res, act{name, f}) }
	for op, o := range ops {
		add("2 = 0 "+opname[op]+" 1", func(p *player) string { return p.put(2, p.e.Apply(p.get(0), p.get(1), o)) })
	}
	add("0 = 2 xor 1", func(p *player) string { return p.put(0, p.e.Apply(p.get(2), p.get(1), rudd.OPxor)) })
	add("1 = 2 diff 0", func(p *player) string { return p.put(1, p.e.Apply(p.get(2), p.get(0), rudd.OPdiff)) })
	add("0 = not 0", func(p *player) string { return p.put(0, p.e.Not(p.get(0))) })
	add("1 = ite 0 1 2", func(p *player) string { return p.put(1, p.e.Ite(p.get(0), p.get(1), p.get(2))) })
	add("0 = ite 2 0 1", func(p *player) string { return p.put(0, p.e.Ite(p.get(2), p.get(0), p.get(1))) })
	add("0 = and 0 1 2", func(p *player) string { return p.put(0, p.e.And(p.get(0), p.get(1), p.get(2))) })
	add("1 = or 2 1", func(p *player) string { return p.put(1, p.e.Or(p.get(2), p.get(1))) })
	for k, s := range [][]int{{2}, {1, 4}, {}, {3, 2, 3}} {
		add(fmt.Sprintf("0 = exist 2 %v", s), func(p *player) string { return p.put(0, p.e.Exist(p.get(2), p.e.Makeset(s))) })
		add(fmt.Sprintf("2 = appex 0 1 %v", s), func(p *player) string {
			return p.put(2, p.e.AppEx(p.get(0), p.get(1), ops[k%4], p.e.Makeset(s)))
		})
	}
	add("1 = exist 0 scanset", func(p *player) string { return p.put(1, p.e.Exist(p.get(0), p.e.Makeset(p.e.Scanset(p.get(1))))) })
	add("0 = replace 0", func(p *player) string {
		return p.put(0, p.e.Replace(p.e.Exist(p.get(0), p.e.Ithvar(4)), p.replacer(0)))
	})
	add("2 = replace 1", func(p *player) string {
		return p.put(2, p.e.Replace(p.e.Exist(p.get(1), p.e.Ithvar(2)), p.replacer(1)))
	})
	add("0 = low 2", func(p *player) string { return p.put(0, p.e.Low(p.get(2))) })
	add("1 = high 2", func(p *player) string { return p.put(1, p.e.High(p.get(2))) })
	add("1 = makecube", func(p *player) string { return p.put(1, p.e.Makecube([]int{1, 3, 4}, []bool{true, false, true})) })
	add("2 = literals", func(p *player) string { return p.put(2, p.e.Imp(p.e.NIthvar(3), p.e.Ithvar(2))) })
	add("0 = true", func(p *player) string { return p.put(0, p.e.From(true)) })
	add("garbage", func(p *player) string {
		for i := 0; i < 8; i++ {
			if p.fl.add() < 0 {
				return "fails"
			}
		}
		return "ok"
	})
	add("much garbage", func(p *player) string {
		for i := 0; i < 40; i++ {
			if p.fl.add() < 0 {
				return "fails"
			}
		}
		return "ok"
	})
	add("nil operand", func(p *player) string {
		n := p.e.And(p.get(0), p.e.Not(nil))
		return fmt.Sprint(n == nil, p.e.Errored())
	})
	add("bad arguments", func(p *player) string {
		e := p.e
		_, err := e.NewReplacer([]int{1, 1}, []int{2, 3})
		return fmt.Sprint(e.Ithvar(5) == nil, e.NIthvar(-1) == nil, e.Apply(p.get(0), p.get(1), 40) == nil, e.Makecube([]int{1}, nil) == nil,
			e.Label(e.True()), e.AppEx(p.get(0), p.get(1), rudd.OPbiimp, e.Ithvar(1)) == nil, err != nil, e.Errored(), *e.Makeset([]int{9}), e.Satcount(nil))
	})
	return res
}

func variants(all bool) []Cfg {
	v := []Cfg{
		{},
		{Nodesize: 23, Cache: 3, Minfree: 1, Maxinc: 2},
		{Nodesize: 1, Cache: 11, Minfree: 100, Maxinc: 4},
		{Nodesize: 61, Cache: 101, Ratio: 60, Minfree: 21},
		{Nodesize: 10007, Cache: 20011},
		{Nodesize: 40, Cache: 1, Ratio: 1, Minfree: 50, Maxinc: 1},
		{Nodesize: 127, Cache: 7, Minfree: 1, Maxnodesize: 100000},
		{Nodesize: 50, Cache: 37, Ratio: 300, Minfree: 101, Maxinc: 12},
	}
	if all {
		v = append(v, Cfg{Nodesize: -7, Cache: -3, Ratio: -20}, Cfg{Nodesize: 29, Minfree: 250, Maxinc: 3, Cache: 2}, Cfg{Nodesize: 12, Minfree: 1, Maxinc: 3, Cache: 211, Ratio: 7, Maxnodesize: 1 << 30},
			Cfg{Nodesize: 997, Cache: 2, Minfree: 1})
	}
	return v
}

func c15(c *Ctx) {
	as := acts()
	depth := 3
	digest := func(u *U, h uint64) {
		if c.Expired() { // incomplete
			return
		}
		c.Res.Digests[u.name] = fmt.Sprintf("%016x", h)
	}
	cfgs := variants(true)
	for i := range as {
		c.Unit(fmt.Sprintf("H.%d", i), func(u *U) {
			h := fnv.New64a()
			var rec func(hist []int)
			play := func(cfg Cfg, hist []int) []string {
				p := newPlayer(u, cfg)
				var out []string
				for _, k := range hist {
					out = append(out, as[k].f(p), p.state())
				}
				// what became of the nodes
				for _, n := range p.slot {
					out = append(out, p.show(n))
				}
				return out
			}
			rec = func(hist []int) {
				if c.Expired() {
					c.Cap("deadline")
					return
				}
				if len(hist) == depth {
					u.trace = u.trace[:0]
					for _, k := range hist {
						u.T("%s", as[k].name)
					}
					var base []string
					for ci, cfg := range cfgs {
						if !c.Thorough() && ci > 0 && (hist[1]*3+hist[2]+ci)%4 != 0 {
							continue
						}
						u.Reset()
						for _, k := range hist {
							u.T("%s", as[k].name)
						}
						out := play(cfg, hist)
						u.Trans(len(hist))
						if ci == 0 {
							base = out
							continue
						}
						for k := range out {
							if out[k] != base[k] {
								u.Fail("with %v the outcome is %q, with the default configuration %q (outcome %d of the history)", cfg, out[k], base[k], k)
							}
						}
						u.Eval()
						u.Nontrivial()
					}
					for _, s := range base {
						h.Write([]byte(s))
					}
					u.Done()
					return
				}
				for k := range as {
					rec(append(hist[:len(hist):len(hist)], k))
				}
			}
			rec([]int{i})
			digest(u, h.Sum64())
			u.Sample("all histories of %d calls that begin with %q", depth, as[i].name)
		})
	}
	// long histories, all the configurations in step
	long := 150
	if c.Thorough() {
		long = 600
	}
	for seed := 0; seed < 64; seed++ {
		c.Unit(fmt.Sprintf("L.%d", seed), func(u *U) {
			u.Reset()
			h := fnv.New64a()
			var ps []*player
			for _, cfg := range cfgs {
				ps = append(ps, newPlayer(u, cfg))
			}
			x := uint32(seed*2654435761 + 12345)
			for k := 0; k < long; k++ {
				x = x*1664525 + 1013904223
				a := int(x>>16) % len(as)
				if as[a].name == "bad arguments" && k > 20 {
					a = 3 // the error text grows
				}
				u.T("%s", as[a].name)
				var base string
				for i, p := range ps {
					out := as[a].f(p) + " " + p.state()
					if i == 0 {
						base = out
						h.Write([]byte(out))
					} else if out != base {
						u.Fail("after %d calls, with %v the outcome is %q, with the default configuration %q", k+1, cfgs[i], out, base)
					}
					u.Eval()
					u.Trans(1)
				}
			}
			digest(u, h.Sum64())
			u.Done()
		})
	}
	// construction: the same errors
	c.Unit("New", func(u *U) {
		h := fnv.New64a()
		for _, n := range []int{-1, 0, 1, 2, 3, 17, 100, 2097151, 2097152, 1 << 31, 1 << 33} {
			if n == 2097151 {
				continue // C20
			}
			for _, cfg := range cfgs {
				b, err := newBDD(n, cfg)
				fmt.Fprintln(h, n, b == nil, err != nil)
				if b != nil {
					fmt.Fprintln(h, b.Varnum(), b.Errored(), *b.Ithvar(0) != *b.NIthvar(0), *b.True(), *b.False(), b.Satcount(b.Ithvar(n-1)))
				}
				u.Eval()
			}
		}
		digest(u, h.Sum64())
	})
	// all operations over 3 variables, compared between builds
	for ci, cfg := range variants(false) {
		c.Unit(fmt.Sprintf("O.%d", ci), func(u *U) {
			u.Reset()
			h := fnv.New64a()
			fs := sampleOf(24)
			e := u.NewEnv(6, []int{4, 0, 3}, cfg)
			node := map[T]rudd.Node{}
			for _, f := range fs {
				node[f] = e.mk(f)
			}
			memo := map[int]T{}
			for _, k := range append(callsOver(3, fs, fs[:8], []uint{0, 1, 2, 3, 4, 5, 6, 7}, renamings(3)), moreCalls(3, fs[:6])...) {
				var a Args
				for _, f := range k.F {
					a.F = append(a.F, node[f&e.mask()])
					if node[f&e.mask()] == nil {
						node[f&e.mask()] = e.mk(f & e.mask())
						a.F[len(a.F)-1] = node[f&e.mask()]
					}
				}
				if k.needset() {
					a.Set = e.mkset(k.Set)
				}
				if k.K == kReplace {
					a.R = e.replacer(k.M)
				}
				r := e.exec(k, a)
				fmt.Fprint(h, k.K, r == nil)
				if r != nil {
					fmt.Fprint(h, uint64(e.apiTT(r)), e.Satcount(r))
				}
				e.drop(e.take(r))
				if a.Set != nil {
					e.drop(a.Set)
				}
				u.Eval()
			}
			_ = memo
			fmt.Fprint(h, e.Errored())
			digest(u, h.Sum64())
		})
	}
}
