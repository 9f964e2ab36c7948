package main

import (
	"fmt"

	"github.com/dalzilio/rudd"

	"verif/vrt"
)

func init() { checks["C06"] = c06 }

// bound is a call with its arguments.
type bound struct {
	c    Call
	a    Args
	want T
}

func (f *full) bind(cs []Call) []bound {
	sets := map[uint]rudd.Node{}
	reps := map[string]rudd.Replacer{}
	var res []bound
	for _, c := range cs {
		b := bound{c: c, want: c.want(f.n)}
		for _, t := range c.F {
			b.a.F = append(b.a.F, f.node[t])
		}
		if c.needset() {
			if sets[c.Set] == nil {
				sets[c.Set] = f.mkset(c.Set)
			}
			b.a.Set = sets[c.Set]
		}
		if c.K == kReplace {
			k := fmt.Sprint(c.M)
			if reps[k] == nil {
				reps[k] = f.replacer(c.M)
			}
			b.a.R = reps[k]
		}
		res = append(res, b)
	}
	return res
}

// spread selects functions of n variables of every shape.
func spread(n int) []T {
	switch n {
	case 2:
		var r []T
		for t := T(0); t < 16; t++ {
			r = append(r, t)
		}
		return r
	case 3:
		return []T{0x00, 0xff, 0xaa, 0xcc, 0xf0, 0x55, 0x0f, 0x88, 0xc0, 0xa0, 0xee, 0xfa, 0x66, 0x5a, 0x3c, 0x96, 0x69, 0xe8, 0xca, 0xd8, 0x80, 0xfe, 0x01, 0x72}
	}
	panic("spread")
}

func c06(c *Ctx) {
	// A: all ordered pairs of adjacent calls, on a BDD that has already executed
	// many others
	type conf struct {
		cache int
		cs    []Call
		n     int
		vn    int
		lv    []int
		name  string
		perm  int
	}
	two := callsOver(2, spread(2), []T{0, 0xf, 0xA, 0xC, 0x5, 0x8, 0xE, 0x6}, []uint{1, 2, 3}, nil)
	three := callsOver(3, []T{0xaa, 0xcc, 0xf0, 0x55, 0x88, 0xfa, 0x3c, 0x96, 0xe8, 0xca}, []T{0xaa, 0x33, 0x88, 0x96, 0xca, 0xff}, []uint{1, 2, 4, 3, 5, 6, 7}, renamings(3))
	var confs []conf
	for _, cache := range []int{1, 11, 101} {
		confs = append(confs, conf{cache, two, 2, 3, []int{0, 2}, "A2", 0})
	}
	for _, cache := range []int{1, 7, 211} {
		confs = append(confs, conf{cache, three, 3, 3, nil, "A3", 0})
	}
	confs = append(confs, conf{31, three, 3, 16, permutedLevels, "A3.descending", 2}, conf{53, three, 3, 16, permutedLevels, "A3.mixed", 3})
	const blocks = 32
	for ci, cf := range confs {
		cf := cf
		stride := 1
		if !c.Thorough() && (ci == 1 || ci == 4 || ci >= 6) {
			stride = 4 // these caches are sampled in the first call only
		}
		for blk := 0; blk < blocks; blk++ {
			blk := blk
			c.Unit(fmt.Sprintf("%s.%d.%d", cf.name, cf.cache, blk), func(u *U) {
				e := u.newFull(cf.vn, cf.lv, Cfg{Nodesize: 2000, Cache: cf.cache, Perm: cf.perm})
				bs := e.bind(cf.cs)
				u.Sample("all ordered pairs (c1;c2) of %d calls over %d variables, cache %d, e.g. %s ; %s", len(bs), cf.n, cf.cache, bs[blk].c.show(e.Env), bs[len(bs)-1-blk].c.show(e.Env))
				for i := blk * stride; i < len(bs); i += blocks * stride {
					x := bs[i]
					for j := range bs {
						y := bs[j]
						e.is2(x, nil)
						e.is2(y, &x)
						u.c.Res.Evals++
						if x.want != y.want {
							u.Nontrivial()
						}
					}
					tick()
					vrt.Reset()
				}
				e.noerror()
				u.Trans(2 * (len(bs) / blocks) * len(bs))
			})
		}
	}
	// B: same call again after its result was reclaimed and its slots were
	// given to other nodes
	fs3 := spread(3)
	calls := callsOver(3, fs3, []T{0xaa, 0xcc, 0x55, 0x88, 0x96, 0xca, 0x0f, 0xff, 0x00}, []uint{1, 2, 4, 3, 5, 6, 7}, renamings(3))
	for _, mode := range []string{"gc", "resize", "ratio"} {
		for blk := 0; blk < 16; blk++ {
			mode, blk := mode, blk
			c.Unit(fmt.Sprintf("B.%s.%d", mode, blk), func(u *U) {
				for i := blk; i < len(calls); i += 16 {
					c06B(u, mode, calls[i])
				}
			})
		}
	}
	// F: collections that reclaim only what the call has made, in large tables
	// that are full of nodes in use
	for _, size := range []int{67, 211, 1009} {
		for blk := 0; blk < 32; blk++ {
			size, blk := size, blk
			c.Unit(fmt.Sprintf("F.%d.%d", size, blk), func(u *U) {
				stride := 1
				if size > 500 {
					stride = c.Quick(8, 1)
				}
				for i := blk; i < len(calls); i += 32 * stride {
					for v := 0; v < 4; v++ {
						c06F(u, size, calls[i], v&1 == 1, v&2 == 2)
					}
				}
			})
		}
	}
	// C: operands reclaimed too: the same call on nodes with the same ids that
	// now denote other functions
	fams := [][]T{
		{0x88, 0xee, 0x66, 0x96, 0xca, 0xe8, 0xa0, 0x5a},
		{0xe8, 0x96, 0xfa, 0x3c, 0x88, 0xd8, 0x66, 0x72},
		{0x3c, 0xc0, 0xfc, 0xac, 0x69, 0x17, 0x0e, 0x7e},
		{0x01, 0x80, 0xfe, 0x7f, 0x18, 0x42, 0x24, 0x99},
	}
	for k := kNot; k <= kReplace; k++ {
		for _, mode := range []string{"gc", "resize", "ratio"} {
			k, mode := k, mode
			c.Unit(fmt.Sprintf("C.%s.%s", kindname[k], mode), func(u *U) {
				for _, f1 := range fams {
					for _, f2 := range fams {
						c06C(u, mode, k, f1, f2)
					}
				}
			})
		}
	}
	// D: replacers and quantification ids: long sequences of different sets
	for _, cache := range []int{1, 13, 503} {
		cache := cache
		c.Unit(fmt.Sprintf("D.%d", cache), func(u *U) {
			e := u.newFull(4, []int{0, 1, 3}, Cfg{Nodesize: 3000, Cache: cache})
			rs := renamings(3)
			var reps []rudd.Replacer
			for _, m := range rs {
				reps = append(reps, e.replacer(m))
			}
			for f := T(0); f < 256; f++ {
				for i := range rs {
					if !(Call{K: kReplace, F: []T{f}, M: rs[i]}).defined(3) {
						continue
					}
					for j := range rs {
						if !(Call{K: kReplace, F: []T{f}, M: rs[j]}).defined(3) {
							continue
						}
						u.Eval()
						u.Nontrivial()
						e.is(e.Replace(e.node[f], reps[i]), substT(f, rs[i], 3), "Replace(%02x,%v) after %v", f, rs[i], rs[j])
						e.is(e.Replace(e.node[f], reps[j]), substT(f, rs[j], 3), "Replace(%02x,%v) after %v", f, rs[j], rs[i])
					}
				}
				// the same with a replacer made between the calls
				for i := range rs {
					if (Call{K: kReplace, F: []T{f}, M: rs[i]}).defined(3) {
						r := e.replacer(rs[i])
						e.is(e.Replace(e.node[f], r), substT(f, rs[i], 3), "Replace(%02x,%v) with a new replacer", f, rs[i])
					}
				}
				vrt.Reset()
			}
			e.noerror()
		})
	}
	// E: the counter that identifies variable sets wraps around
	c.Unit("E.wrap", func(u *U) {
		for _, start := range []int32{1<<31 - 12, -3, 1<<8 - 4, 1<<15 - 4, 1<<16 - 4, 1<<24 - 4, 1<<30 - 4} {
			u.Reset()
			e := u.newFull(3, nil, Cfg{Nodesize: 3000, Cache: 3})
			sets := []uint{1, 2, 4, 3, 5, 6, 7}
			ns := map[uint]rudd.Node{}
			for _, s := range sets {
				ns[s] = e.mkset(s)
			}
			p := quantID(e.BDD)
			if p == nil {
				u.Count("no_quantsetID", 1)
				return
			}
			for _, s := range sets { // fill the set table with small ids
				e.is(e.Exist(e.node[0x96], ns[s]), existT(0x96, s, 3), "Exist(96,%03b)", s)
			}
			if start < 0 {
				continue
			}
			*p = start
			for round := 0; round < 6; round++ {
				for _, s := range sets {
					for _, f := range []T{0x96, 0xe8, 0xca, 0x80, 0x01} {
						u.Eval()
						u.Nontrivial()
						e.is(e.Exist(e.node[f], ns[s]), existT(f, s, 3), "Exist(%02x,%03b) with set number %d", f, s, *p)
						e.is(e.AndExist(e.node[f], e.node[0xfe], ns[s]), existT(f&0xfe, s, 3), "AndExist(%02x,fe,%03b) with set number %d", f, s, *p)
					}
				}
			}
			e.noerror()
		}
	})
}

func (f *full) is2(b bound, prev *bound) {
	res := f.exec(b.c, b.a)
	if res == nil || *res != *f.node[b.want] {
		what := b.c.show(f.Env)
		if prev != nil {
			what += " after " + prev.c.show(f.Env)
		}
		f.bad(res, b.want, what)
	}
	if f.own[res] == 0 { // not one of the nodes that are held
		vrt.Drop(res)
	}
}

// level 0 is for the filler nodes, levels 1, 2 and 4 for the functions
func gcEnv(u *U, mode string, free int) (*Env, *filler) {
	cfg := Cfg{Nodesize: 67, Cache: 211, Minfree: 1, Maxinc: 13}
	switch mode {
	case "resize":
		cfg.Minfree = 100
	case "ratio":
		cfg.Minfree, cfg.Ratio = 100, 60
	}
	e := u.NewEnv(9, []int{1, 2, 4}, cfg)
	return e, e.newFiller(0)
}

func c06B(u *U, mode string, c Call) {
	u.Reset()
	e, fl := gcEnv(u, mode, 0)
	a := e.prepare(c)
	want := c.want(e.n)
	u.T("%s", c.show(e))
	r := e.take(e.exec(c, a))
	s := e.Snapshot()
	e.want(s, r, want, c.show(e))
	old := *r
	e.drop(r)
	u.T("drop the result (node %d); collection (%s)", old, mode)
	fl.gc()
	// give every free slot but a few to nodes that are held
	st := e.stat()
	for k := st.Free; k > 0; k-- {
		e.take(e.Retnode(fl.add()))
	}
	u.T("fill the table with held nodes; %s again", c.show(e))
	r = e.take(e.exec(c, a))
	s = e.Snapshot()
	e.want(s, r, want, c.show(e)+" again, after a collection")
	e.wellformed(s)
	for i, f := range c.F {
		e.want(s, a.F[i], f, fmt.Sprintf("operand %d", i))
	}
	u.Eval()
	u.Trans(4)
	u.Done()
	if old > 11 {
		u.Nontrivial()
	}
}

func c06F(u *U, size int, c Call, refill, grow bool) {
	u.Reset()
	e := u.NewEnv(24, []int{1, 2, 4}, Cfg{Nodesize: size, Cache: 211, Never: !grow, Minfree: 1})
	fl := e.newFiller(0)
	a := e.prepare(c)
	want := c.want(e.n)
	u.T("%s", c.show(e))
	r := e.take(e.exec(c, a))
	e.want(e.Snapshot(), r, want, c.show(e))
	old := *r
	e.drop(r)
	var held []rudd.Node
	hold := func(left int) {
		for k := e.stat().Free; k > left; k-- {
			if n := fl.add(); n > 1 {
				held = append(held, e.take(e.Retnode(n)))
			}
		}
	}
	for e.stat().Free > 1 {
		hold(1)
	}
	fl.fillTo(0)
	u.T("drop the result (node %d); fill the table with nodes in use; collection", old)
	fl.gc()
	if refill {
		hold(0)
		u.T("fill again; drop %d of the nodes in use", len(held)*2/3)
		for _, n := range held[:len(held)*2/3] {
			e.drop(n)
		}
	}
	u.T("%s again", c.show(e))
	r = e.take(e.exec(c, a))
	if r == nil && !refill && !grow {
		u.Count("no_space", 1)
		return
	}
	s := e.Snapshot()
	e.want(s, r, want, c.show(e)+" again, after a collection")
	e.wellformed(s)
	for i, f := range c.F {
		e.want(s, a.F[i], f, fmt.Sprintf("operand %d", i))
	}
	u.Eval()
	u.Trans(4)
	u.Done()
	if old > 2*e.varnum+1 {
		u.Nontrivial()
	}
}

func c06C(u *U, mode string, k kind, f1, f2 []T) {
	u.Reset()
	e, fl := gcEnv(u, mode, 0)
	var cs func(fs []T) []Call
	cs = func(fs []T) []Call {
		var res []Call
		for _, c := range callsOver(3, fs, fs[:5], []uint{1, 2, 4, 3, 5, 6, 7}, renamings(3)) {
			if c.K == k {
				res = append(res, c)
			}
		}
		return res
	}
	run := func(fs []T) {
		node := map[T]rudd.Node{}
		for _, f := range fs {
			node[f] = e.mk(f)
		}
		for _, c := range cs(fs) {
			var a Args
			for _, f := range c.F {
				a.F = append(a.F, node[f])
			}
			if c.needset() {
				a.Set = e.mkset(c.Set)
			}
			if c.K == kReplace {
				a.R = e.replacer(c.M)
			}
			r := e.take(e.exec(c, a))
			u.Eval()
			u.Nontrivial()
			u.Trans(1)
			s := e.Snapshot()
			e.want(s, r, c.want(e.n), c.show(e)+fmt.Sprintf(" (functions %x then %x, %s)", f1, f2, mode))
			e.drop(r)
			if c.needset() {
				e.drop(a.Set)
			}
		}
		for _, f := range fs {
			e.drop(node[f])
		}
	}
	run(f1)
	fl.gc()
	fl2 := *fl
	run(f2)
	fl2.gc()
	run(f1)
	u.Done()
	if e.Errored() {
		u.Fail("error status set: %q", clip(e.Error()))
	}
}
