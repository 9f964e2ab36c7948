package main

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/dalzilio/rudd"

	"verif/vrt"
)

func init() {
	checks["C12"] = c12
	checks["C13"] = c13
	checks["C14"] = c14
	checks["C21"] = c21
	checks["C22"] = c22
}

const maxint = 1<<63 - 1

// misuse is a call that has to fail. It returns what is wrong with its outcome,
// apart from the error status.
type misuse struct {
	name   string
	f      func(e *full) string
	status bool // the error status has to be set
}

// badnodes gives the kinds of illegal nodes.
var badkinds = []string{"nil", "-1", "-2^63", "size", "size+1", "2^40", "2^63-1", "2^32+2", "free"}

func (f *full) bad1(kind string) rudd.Node {
	switch kind {
	case "nil":
		return nil
	case "-1":
		return ptr(-1)
	case "-2^63":
		return ptr(-maxint - 1)
	case "size":
		return ptr(f.stat().Alloc)
	case "size+1":
		return ptr(f.stat().Alloc + 1)
	case "2^40":
		return ptr(1 << 40)
	case "2^63-1":
		return ptr(maxint)
	case "2^32+2":
		return ptr(1<<32 + 2)
	case "free":
		s := f.Snapshot()
		for id := 2; ; id++ {
			if s.node(id) == nil {
				if id >= f.stat().Alloc {
					f.u.Fail("harness: no free slot")
				}
				return ptr(id)
			}
		}
	}
	panic(kind)
}

func isnil(n rudd.Node) string {
	if n != nil {
		return fmt.Sprintf("yields node %d instead of nil", *n)
	}
	return ""
}

// misuses gives the misuses of a BDD with vn variables.
func misuses(vn int) []misuse {
	var res []misuse
	add := func(name string, f func(e *full) string) { res = append(res, misuse{name, f, true}) }
	addE := func(name string, f func(e *full) string) { res = append(res, misuse{name, f, false}) }
	node := func(name string, f func(e *full, n rudd.Node) string) {
		for _, k := range badkinds {
			k := k
			add(fmt.Sprintf(name, k), func(e *full) string { return f(e, e.bad1(k)) })
		}
	}
	nodeE := func(name string, f func(e *full, n rudd.Node) string) {
		for _, k := range badkinds {
			k := k
			addE(fmt.Sprintf(name, k), func(e *full) string { return f(e, e.bad1(k)) })
		}
	}
	node("Low(%s)", func(e *full, n rudd.Node) string { return isnil(e.Low(n)) })
	node("High(%s)", func(e *full, n rudd.Node) string { return isnil(e.High(n)) })
	node("Label(%s)", func(e *full, n rudd.Node) string {
		if l := e.Label(n); l != -1 {
			return fmt.Sprintf("yields %d instead of -1", l)
		}
		return ""
	})
	node("Scanset(%s)", func(e *full, n rudd.Node) string {
		if l := e.Scanset(n); l != nil {
			return fmt.Sprintf("yields %v instead of nil", l)
		}
		return ""
	})
	node("Satcount(%s)", func(e *full, n rudd.Node) string {
		if r := e.Satcount(n); r == nil || r.Cmp(big.NewInt(0)) != 0 {
			return fmt.Sprintf("yields %v instead of 0", r)
		}
		return ""
	})
	node("Not(%s)", func(e *full, n rudd.Node) string { return isnil(e.Not(n)) })
	node("Imp(%s,a)", func(e *full, n rudd.Node) string { return isnil(e.Imp(n, e.node[6])) })
	node("Imp(a,%s)", func(e *full, n rudd.Node) string { return isnil(e.Imp(e.node[6], n)) })
	node("Equiv(%s,a)", func(e *full, n rudd.Node) string { return isnil(e.Equiv(n, e.node[6])) })
	node("Equiv(a,%s)", func(e *full, n rudd.Node) string { return isnil(e.Equiv(e.node[6], n)) })
	for _, other := range []T{0, 0xf, 6} {
		other := other
		for op := range ops {
			op := op
			if other == 6 && op > 1 {
				continue
			}
			node(fmt.Sprintf("Apply(%%s,%x,%s)", other, opname[op]), func(e *full, n rudd.Node) string { return isnil(e.Apply(n, e.node[other], ops[op])) })
			node(fmt.Sprintf("Apply(%x,%%s,%s)", other, opname[op]), func(e *full, n rudd.Node) string { return isnil(e.Apply(e.node[other], n, ops[op])) })
		}
		node(fmt.Sprintf("Ite(%%s,%x,9)", other), func(e *full, n rudd.Node) string { return isnil(e.Ite(n, e.node[other], e.node[9])) })
		node(fmt.Sprintf("Ite(%x,%%s,9)", other), func(e *full, n rudd.Node) string { return isnil(e.Ite(e.node[other], n, e.node[9])) })
		node(fmt.Sprintf("Ite(%x,9,%%s)", other), func(e *full, n rudd.Node) string { return isnil(e.Ite(e.node[other], e.node[9], n)) })
		node(fmt.Sprintf("And(%x,%%s,9)", other), func(e *full, n rudd.Node) string { return isnil(e.And(e.node[other], n, e.node[9])) })
		node(fmt.Sprintf("Or(%x,%%s,9)", other), func(e *full, n rudd.Node) string { return isnil(e.Or(e.node[other], n, e.node[9])) })
	}
	node("Apply(%[1]s,%[1]s,and)", func(e *full, n rudd.Node) string { return isnil(e.Apply(n, n, rudd.OPand)) })
	node("Ite(%[1]s,%[1]s,%[1]s)", func(e *full, n rudd.Node) string { return isnil(e.Ite(n, n, n)) })
	node("And(%s)", func(e *full, n rudd.Node) string { return isnil(e.And(n)) })
	node("Or(%s)", func(e *full, n rudd.Node) string { return isnil(e.Or(n)) })
	node("And(%s,a)", func(e *full, n rudd.Node) string { return isnil(e.And(n, e.node[6])) })
	node("Or(%s,a)", func(e *full, n rudd.Node) string { return isnil(e.Or(n, e.node[6])) })
	node("And(a,b,%s)", func(e *full, n rudd.Node) string { return isnil(e.And(e.node[6], e.node[9], n)) })
	node("Or(a,b,%s)", func(e *full, n rudd.Node) string { return isnil(e.Or(e.node[6], e.node[9], n)) })
	for _, set := range []T{0xf, 0xa, 8} { // the empty set and two others
		set := set
		node(fmt.Sprintf("Exist(%%s,%x)", set), func(e *full, n rudd.Node) string { return isnil(e.Exist(n, e.node[set])) })
		node(fmt.Sprintf("AndExist(%%s,6,%x)", set), func(e *full, n rudd.Node) string { return isnil(e.AndExist(n, e.node[6], e.node[set])) })
		node(fmt.Sprintf("AndExist(6,%%s,%x)", set), func(e *full, n rudd.Node) string { return isnil(e.AndExist(e.node[6], n, e.node[set])) })
		for _, op := range []int{1, 2, 3} {
			op := op
			node(fmt.Sprintf("AppEx(%%s,6,%s,%x)", opname[op], set), func(e *full, n rudd.Node) string { return isnil(e.AppEx(n, e.node[6], ops[op], e.node[set])) })
			node(fmt.Sprintf("AppEx(6,%%s,%s,%x)", opname[op], set), func(e *full, n rudd.Node) string { return isnil(e.AppEx(e.node[6], n, ops[op], e.node[set])) })
		}
	}
	node("Exist(a,%s)", func(e *full, n rudd.Node) string { return isnil(e.Exist(e.node[6], n)) })
	node("Exist(True,%s)", func(e *full, n rudd.Node) string { return isnil(e.Exist(e.True(), n)) })
	node("AndExist(a,b,%s)", func(e *full, n rudd.Node) string { return isnil(e.AndExist(e.node[6], e.node[9], n)) })
	node("AppEx(a,b,xor,%s)", func(e *full, n rudd.Node) string { return isnil(e.AppEx(e.node[6], e.node[9], rudd.OPxor, n)) })
	node("Replace(%s,r)", func(e *full, n rudd.Node) string { return isnil(e.Replace(n, e.replacer([]int{1, 1}))) })
	add("Replace(a,nil)", func(e *full) string { return isnil(e.Replace(e.node[6], nil)) })
	add("Replace(True,nil)", func(e *full) string { return isnil(e.Replace(e.True(), nil)) })
	nodeE("Allsat(%s)", func(e *full, n rudd.Node) string {
		if err := e.Allsat(func([]int) error { return nil }, n); err == nil {
			return "returns no error"
		}
		return ""
	})
	nodeE("Allnodes(%s)", func(e *full, n rudd.Node) string {
		if err := e.Allnodes(func(a, b, c, d int) error { return nil }, n); err == nil {
			return "returns no error"
		}
		return ""
	})
	nodeE("Allnodes(a,b,%s)", func(e *full, n rudd.Node) string {
		if err := e.Allnodes(func(a, b, c, d int) error { return nil }, e.node[6], e.node[9], n); err == nil {
			return "returns no error"
		}
		return ""
	})
	nodeE("Dot(a,%s)", func(e *full, n rudd.Node) string {
		var w bytes.Buffer
		if err := e.Dot(&w, e.node[6], n); err == nil {
			return "returns no error"
		}
		return ""
	})
	node("Print(a,%s)", func(e *full, n rudd.Node) string {
		var w bytes.Buffer
		e.Print(&w, e.node[6], n)
		return ""
	})
	node("Print(%s)", func(e *full, n rudd.Node) string {
		var w bytes.Buffer
		e.Print(&w, n)
		return ""
	})
	nodeE("Equal(a,%s)", func(e *full, n rudd.Node) string {
		if e.Equal(e.node[6], n) || e.Equal(n, e.node[6]) {
			return "yields true"
		}
		return ""
	})
	// indices
	for _, i := range []int{-1, -2, vn, vn + 1, 1<<31 - 1, 1 << 31, 1<<31 + 1, -1 << 31, -1<<31 - 1, 1 << 32, 1<<32 + 1, -1 << 32, maxint, -maxint - 1} {
		i := i
		add(fmt.Sprintf("Ithvar(%d)", i), func(e *full) string { return isnil(e.Ithvar(i)) })
		add(fmt.Sprintf("NIthvar(%d)", i), func(e *full) string { return isnil(e.NIthvar(i)) })
		for _, s := range [][]int{{i}, {0, i}, {i, 0}, {1, i, 0}, {0, 1, i}, {i, i}} {
			s := s
			add(fmt.Sprintf("Makeset(%v)", s), func(e *full) string {
				if n := e.Makeset(append([]int{}, s...)); n != nil && *n != 0 {
					return fmt.Sprintf("yields node %d", *n)
				}
				return ""
			})
			add(fmt.Sprintf("Makecube(%v)", s), func(e *full) string {
				return isnil(e.Makecube(append([]int{}, s...), make([]bool, len(s))))
			})
		}
		for _, s := range [][2][]int{{{i}, {0}}, {{0}, {i}}, {{0, i}, {1, 1}}, {{0, 1}, {1, i}}} {
			s := s
			addE(fmt.Sprintf("NewReplacer(%v)", s), func(e *full) string {
				if r, err := e.NewReplacer(s[0], s[1]); err == nil {
					return fmt.Sprintf("returns %v and no error", r)
				}
				return ""
			})
		}
	}
	// lengths
	for a := 0; a <= 3; a++ {
		for b := 0; b <= 4; b++ {
			a, b := a, b
			if a == b && a > 0 || a == 0 && b == 2 || a > 2 {
				continue
			}
			add(fmt.Sprintf("Makecube lengths %d,%d", a, b), func(e *full) string {
				return isnil(e.Makecube([]int{0, 1, 2}[:a], make([]bool, b)))
			})
		}
	}
	addE("NewReplacer lengths 1,0", func(e *full) string { return rerr(e, []int{0}, nil) })
	addE("NewReplacer lengths 0,1", func(e *full) string { return rerr(e, nil, []int{0}) })
	addE("NewReplacer lengths 2,1", func(e *full) string { return rerr(e, []int{0, 1}, []int{0}) })
	addE("NewReplacer lengths 1,2", func(e *full) string { return rerr(e, []int{0}, []int{0, 1}) })
	addE("NewReplacer duplicates", func(e *full) string { return rerr(e, []int{0, 0}, []int{0, 1}) })
	// operators
	for _, o := range []int{-1, 4, 10, 11, 12, 13, 100, 1 << 32, maxint, -maxint - 1} {
		o := rudd.Operator(o)
		if o > 9 || o < 0 {
			add(fmt.Sprintf("Apply(a,b,%d)", int(o)), func(e *full) string { return isnil(e.Apply(e.node[6], e.node[9], o)) })
			add(fmt.Sprintf("Apply(0,1,%d)", int(o)), func(e *full) string { return isnil(e.Apply(e.False(), e.True(), o)) })
		}
		add(fmt.Sprintf("AppEx(a,b,%d,S)", int(o)), func(e *full) string { return isnil(e.AppEx(e.node[6], e.node[9], o, e.node[8])) })
		add(fmt.Sprintf("AppEx(1,0,%d,S)", int(o)), func(e *full) string { return isnil(e.AppEx(e.True(), e.False(), o, e.node[8])) })
		add(fmt.Sprintf("AppEx(a,b,%d,{})", int(o)), func(e *full) string { return isnil(e.AppEx(e.node[6], e.node[9], o, e.True())) })
	}
	add("Label(True)", func(e *full) string { return minus1(e.Label(e.True())) })
	add("Label(False)", func(e *full) string { return minus1(e.Label(e.False())) })
	return res
}

func rerr(e *full, a, b []int) string {
	if r, err := e.NewReplacer(a, b); err == nil {
		return fmt.Sprintf("returns %v and no error", r)
	}
	return ""
}

func minus1(l int) string {
	if l != -1 {
		return fmt.Sprintf("yields %d instead of -1", l)
	}
	return ""
}

// afterMisuse checks that a BDD works.
func (e *full) works(i int) {
	what := "after misuse"
	for o := range ops {
		f, g := T(i*5+o*3)&0xf, T(i*11+o*7)&0xf
		e.is(e.Apply(e.node[f], e.node[g], ops[o]), applyT(o, f, g, 2), "%s: Apply(%x,%x,%s)", what, f, g, opname[o])
	}
	f, g, h := T(i)&0xf, T(i*3+6)&0xf, T(i*7+9)&0xf
	s := uint(i)&3 | 1
	set := e.node[[]T{0xf, 0xa, 0xc, 8}[s]]
	e.is(e.Not(e.node[f]), ^f&0xf, "%s: Not(%x)", what, f)
	e.is(e.Ite(e.node[f], e.node[g], e.node[h]), f&g|^f&h&0xf, "%s: Ite(%x,%x,%x)", what, f, g, h)
	e.is(e.Exist(e.node[6], set), existT(6, s, 2), "%s: Exist(6,%b)", what, s)
	e.is(e.AndExist(e.node[g], e.node[h], set), existT(g&h, s, 2), "%s: AndExist(%x,%x,%b)", what, g, h, s)
	e.is(e.And(e.node[f], e.node[g], e.node[h]), f&g&h, "%s: And(%x,%x,%x)", what, f, g, h)
	e.is(e.Or(e.node[f], e.node[g], e.node[h]), f|g|h, "%s: Or(%x,%x,%x)", what, f, g, h)
	e.is(e.Replace(e.node[0xa], e.replacer([]int{1, 1})), 0xc, "%s: Replace", what)
	e.is(e.Makeset([]int{1, 0}), 8, "%s: Makeset", what)
	e.is(e.Makecube([]int{0, 1}, []bool{true, false}), 2, "%s: Makecube", what)
	e.satcountIs(e.node[f], big.NewInt(int64(popcount(uint(f)))), "%x %s", f, what)
	var cs []cube
	if err := e.Allsat(e.collect(&cs, nil), e.node[f]); err != nil {
		e.u.Fail("%s: Allsat fails: %v", what, err)
	}
	e.enumerated(cs, f, what)
	e.releaseTemps()
}

func c12(c *Ctx) {
	ms := misuses(2)
	run := func(u *U, e *full, m misuse, k int) {
		before := e.Error()
		u.T("%s", m.name)
		why := m.f(e)
		if why != "" {
			u.Fail("%s %s", m.name, why)
		}
		if m.status && (!e.Errored() || e.Error() == "") {
			u.Fail("%s does not set the error status", m.name)
		}
		if before != "" && !e.Errored() {
			u.Fail("%s clears the error status", m.name)
		}
	}
	mkenv := func(u *U, i int) *full {
		u.Reset()
		cfg := []Cfg{{Nodesize: 60, Cache: 13}, {Nodesize: 1, Cache: 1, Minfree: 1, Maxinc: 3}, {Nodesize: 30, Cache: 101, Ratio: 20}}[i%3]
		return u.newFull(2, nil, cfg)
	}
	// A: each misuse alone and three times
	for i, m := range ms {
		i, m := i, m
		if i%8 != 0 {
			continue
		}
		c.Unit(fmt.Sprintf("A.%d", i), func(u *U) {
			for j := i; j < i+8 && j < len(ms); j++ {
				m = ms[j]
				for v := 0; v < 3; v++ {
					if v == 1 && strings.Contains(m.name, "free") {
						continue
					}
					e := mkenv(u, v)
					run(u, e, m, 0)
					u.Eval()
					u.Nontrivial()
					s := e.Snapshot()
					e.wellformed(s)
					for t, n := range e.node {
						e.want(s, n, T(t), "node held")
					}
					for k := 0; k < 16; k++ {
						e.works(k)
					}
					run(u, e, m, 1)
					run(u, e, m, 2)
					e.works(3)
					s = e.Snapshot()
					e.wellformed(s)
					for t, n := range e.node {
						e.want(s, n, T(t), "node held")
					}
				}
			}
		})
	}
	// B: all ordered pairs
	stride := 1
	for i := 0; i < len(ms); i += 4 {
		i := i
		c.Unit(fmt.Sprintf("B.%d", i), func(u *U) {
			u.Sample("%d misuses, all ordered pairs, e.g. %s ; %s", len(ms), ms[i].name, ms[len(ms)-1-i].name)
			for x := i; x < i+4 && x < len(ms); x++ {
				for j := 0; j < len(ms); j += stride {
					v := 0
					if (x+j)%7 == 0 {
						v = 2
					}
					if strings.Contains(ms[x].name+ms[j].name, "free") {
						v = 0
					}
					e := mkenv(u, v)
					run(u, e, ms[x], 0)
					run(u, e, ms[j], 1)
					u.Eval()
					u.Nontrivial()
					e.works(x + j)
					s := e.Snapshot()
					e.wellformed(s)
					for t, n := range e.node {
						e.want(s, n, T(t), "node held")
					}
				}
			}
		})
	}
	// Z: operations with illegal nodes in every non-empty set of positions, and
	// all constants and some functions in the others
	vals := []T{0, 0xf, 6, 0xa, 8}
	type operation struct {
		name  string
		arity int
		f     func(e *full, a []rudd.Node) rudd.Node
	}
	var zs []operation
	addz := func(name string, k int, f func(e *full, a []rudd.Node) rudd.Node) {
		zs = append(zs, operation{name, k, f})
	}
	addz("Not", 1, func(e *full, a []rudd.Node) rudd.Node { return e.Not(a[0]) })
	addz("Imp", 2, func(e *full, a []rudd.Node) rudd.Node { return e.Imp(a[0], a[1]) })
	addz("Equiv", 2, func(e *full, a []rudd.Node) rudd.Node { return e.Equiv(a[0], a[1]) })
	for op := range ops {
		op := op
		addz("Apply "+opname[op], 2, func(e *full, a []rudd.Node) rudd.Node { return e.Apply(a[0], a[1], ops[op]) })
	}
	for op := 0; op < 4; op++ {
		op := op
		addz("AppEx "+opname[op], 3, func(e *full, a []rudd.Node) rudd.Node { return e.AppEx(a[0], a[1], ops[op], a[2]) })
	}
	addz("AndExist", 3, func(e *full, a []rudd.Node) rudd.Node { return e.AndExist(a[0], a[1], a[2]) })
	addz("Exist", 2, func(e *full, a []rudd.Node) rudd.Node { return e.Exist(a[0], a[1]) })
	addz("Ite", 3, func(e *full, a []rudd.Node) rudd.Node { return e.Ite(a[0], a[1], a[2]) })
	addz("Replace", 1, func(e *full, a []rudd.Node) rudd.Node { return e.Replace(a[0], e.replacer([]int{1, 1})) })
	for k := 1; k <= 4; k++ {
		addz("And", k, func(e *full, a []rudd.Node) rudd.Node { return e.And(a...) })
		addz("Or", k, func(e *full, a []rudd.Node) rudd.Node { return e.Or(a...) })
	}
	for _, z := range zs {
		z := z
		c.Unit(fmt.Sprintf("Z.%s.%d", z.name, z.arity), func(u *U) {
			var e *full
			n := 0
			for _, bad := range badkinds {
				for set := 1; set < 1<<z.arity; set++ {
					for x := 0; x < pow(len(vals), z.arity); x++ {
						skip := false
						for i, y := 0, x; i < z.arity; i, y = i+1, y/len(vals) {
							skip = skip || set>>i&1 == 1 && y%len(vals) != 0
						}
						if skip {
							continue
						}
						if n++; e == nil || n%30 == 0 {
							e = mkenv(u, 0)
						} else {
							e.releaseTemps()
						}
						b := e.bad1(bad)
						a := make([]rudd.Node, z.arity)
						what := z.name + "("
						for i, y := 0, x; i < z.arity; i, y = i+1, y/len(vals) {
							if set>>i&1 == 1 {
								a[i] = b
								what += " " + bad
							} else {
								a[i] = e.node[vals[y%len(vals)]]
								what += fmt.Sprintf(" %x", vals[y%len(vals)])
							}
						}
						what += ")"
						had := e.Error()
						u.Eval()
						u.Nontrivial()
						if r := z.f(e, a); r != nil {
							u.Fail("%s yields node %d instead of nil", what, *r)
						}
						if !e.Errored() || e.Error() == had {
							u.Fail("%s does not report an error", what)
						}
						if n%10 == 0 {
							e.works(n)
							s := e.Snapshot()
							e.wellformed(s)
							for t, n := range e.node {
								e.want(s, n, T(t), "node held")
							}
						}
					}
				}
			}
		})
	}
	// K: kernel functions
	c.Unit("K", func(u *U) {
		e := mkenv(u, 0)
		for _, n := range []int{-1, e.stat().Alloc, e.stat().Alloc + 1, 1 << 40, maxint, -2, -maxint - 1} {
			if n != -1 && strings.Contains(u.c.Tags, "debug") {
				continue // a debug build stops on purpose
			}
			if r := e.Retnode(n); r != nil {
				u.Fail("Retnode(%d) yields node %d", n, *r)
			}
			u.Eval()
		}
		for l := int32(0); l < 2; l++ {
			e.Initref()
			if r := e.Makenode(l, -1, 0); r != -1 {
				u.Fail("Makenode(%d,-1,0) yields %d", l, r)
			}
			if r := e.Makenode(l, 1, -1); r != -1 {
				u.Fail("Makenode(%d,1,-1) yields %d", l, r)
			}
			e.Pushref(-1)
			e.works(1)
		}
	})
}

// ------------------------------------------------------------------ node limit

// isPrime and the largest size that the buddy implementation can use.
func isPrime(n int) bool {
	if n < 2 {
		return false
	}
	for d := 2; d*d <= n; d++ {
		if n%d == 0 {
			return false
		}
	}
	return true
}

func nextPrime(n int) int {
	for !isPrime(n) {
		n++
	}
	return n
}

func prevPrime(n int) int {
	for !isPrime(n) {
		n--
	}
	return n
}

func (u *U) buddy() bool { return strings.Contains(u.c.Tags, "buddy") }

// capacity is the size up to which the table can grow under a limit.
func (u *U) capacity(initial, limit int) int {
	if limit <= initial {
		return initial
	}
	if u.buddy() {
		if p := prevPrime(limit); p > initial {
			return p
		}
		return initial
	}
	return limit
}

func c13(c *Ctx) {
	calls := callsOver(3, []T{0xaa, 0xcc, 0xf0, 0x96, 0xe8, 0xca, 0x1b, 0x66}, []T{0xaa, 0xcc, 0x96, 0xca, 0x1b}, []uint{1, 3, 5, 7}, renamings(3))
	for s := uint(0); s < 8; s++ {
		calls = append(calls, Call{K: kMakeset, Set: s})
		for p := uint(0); p < 8; p++ {
			if p&^s == 0 && s != 0 {
				calls = append(calls, Call{K: kMakecube, Set: s, Pol: p})
			}
		}
	}
	for _, fs := range [][]T{{0xaa, 0xcc, 0xf0}, {0x96, 0xe8, 0xca}, {0xca, 0x1b, 0x66, 0x96}} {
		calls = append(calls, Call{K: kAnd, F: fs}, Call{K: kOr, F: fs})
	}
	const blocks = 32
	for blk := 0; blk < blocks; blk++ {
		blk := blk
		c.Unit(fmt.Sprintf("L.%d", blk), func(u *U) {
			for i := blk; i < len(calls); i += blocks {
				limited(u, calls[i], []int{1, 2, 4}, 5)
			}
		})
	}
	for t := 0; t < 4; t++ {
		for blk := 0; blk < 8; blk++ {
			t, blk := t, blk
			c.Unit(fmt.Sprintf("R.%d.%d", t, blk), func(u *U) {
				for i, cl := range outwards(t) {
					if i%8 == blk && (c.Thorough() || i/8%3 == t%3) {
						limited(u, cl, []int{1, 2, 3, 5}, 7)
					}
				}
			})
		}
	}
	// H: histories under a limit
	for _, lim := range []int{14, 16, 17, 18, 19, 20, 22, 23, 25, 29, 30, 31, 37, 41, 60} {
		for _, mi := range []int{0, 2, 5} {
			for _, mf := range []int{0, 1, 51} {
				lim, mi, mf := lim, mi, mf
				c.Unit(fmt.Sprintf("H.%d.%d.%d", lim, mi, mf), func(u *U) {
					for seed := uint32(0); seed < 4; seed++ {
						limitedHistory(u, Cfg{Nodesize: 1, Maxnodesize: lim, Maxinc: mi, Minfree: mf, Cache: 7}, seed, 400)
					}
				})
			}
		}
	}
	// B: large tables
	for _, lim := range []int{3000, 9999, 16384, 20001, 40000, 65535, 65536, 70000, 120000, 131072, 150001, 262144, 270000, 524288, 800000, 1 << 20, 1200000} {
		if lim > 400000 && !c.Thorough() && lim != 1<<20 && lim != 800000 {
			continue
		}
		for _, mi := range []int{-1, 0, 5000, 100000} {
			lim, mi := lim, mi
			if mi == 5000 && lim > 200000 {
				continue
			}
			c.Unit(fmt.Sprintf("B.%d.%d", lim, mi), func(u *U) {
				for _, ns := range []int{0, lim / 3, lim - 1, lim} {
					if mi == 5000 && ns < lim/2 && lim > 30000 {
						continue
					}
					bigLimit(u, Cfg{Nodesize: ns, Maxnodesize: lim, Maxinc: mi + 1, Cache: 3})
				}
			})
		}
	}
	// N: the limit against the initial size
	c.Unit("N", func(u *U) {
		for varnum := 1; varnum <= 6; varnum++ {
			for lim := -3; lim <= 40; lim++ {
				for _, ns := range []int{0, 1, 2*varnum + 2, 2*varnum + 3, 20, 37} {
					u.Reset()
					e := u.NewEnv(varnum, []int{}, Cfg{Nodesize: ns, Maxnodesize: lim, Cache: 3})
					initial := e.stat().Alloc
					top := initial
					if lim > top {
						top = lim
					}
					if lim <= 0 {
						top = 1 << 30
					}
					u.Eval()
					fails := 0
					for a := 0; a < 60; a++ {
						e.Initref()
						ids := []int{0, 1}
						for v := varnum - 1; v >= 1; v-- {
							ids = append(ids, *e.Ithvar(v), *e.NIthvar(v))
						}
						x, y := ids[a%len(ids)], ids[a/len(ids)%len(ids)]
						r := e.Makenode(0, x, y)
						if r < 0 {
							fails++
							if !e.Errored() {
								u.Fail("Makenode fails but the error status is not set")
							}
						} else if n := e.take(e.Retnode(r)); n == nil {
							u.Fail("Retnode(%d) is nil", r)
						}
						st := e.stat()
						if st.Alloc > top {
							u.Fail("varnum %d, %v: the table has %d slots", varnum, e.cfg, st.Alloc)
						}
						if r < 0 && (st.Free > 0 || lim <= 0) {
							u.Fail("varnum %d, %v: Makenode fails, but %v", varnum, e.cfg, st)
						}
					}
					s := e.Snapshot()
					e.wellformed(s)
					e.accounting(s)
				}
			}
		}
	})
}

// bigLimit fills a large table up to the limit, twice.
func bigLimit(u *U, cfg Cfg) {
	u.Reset()
	const varnum = 1400
	e := u.NewEnv(varnum, []int{}, cfg)
	initial := e.stat().Alloc
	top := u.capacity(initial, cfg.Maxnodesize)
	fl := e.newFiller(0)
	for round := 0; round < 2; round++ {
		e.Initref()
		var rs []int
		for i := 2*varnum + 2; ; i++ {
			x, y := fl.next()
			r := e.Makenode(0, x, y)
			if r < 0 {
				break
			}
			e.Pushref(r)
			rs = append(rs, r, x, y)
			if i%65536 == 0 {
				tick()
				if st := e.stat(); st.Alloc > top {
					u.Fail("%v: the table has %d slots", cfg, st.Alloc)
				}
			}
			if i > top+2*varnum {
				u.Fail("%v: no failure although %d nodes are in use: %v", cfg, i, e.stat())
			}
		}
		u.Eval()
		u.Nontrivial()
		st := e.stat()
		if st.Alloc > top {
			u.Fail("%v: the table has %d slots", cfg, st.Alloc)
		}
		if !e.Errored() {
			u.Fail("%v: Makenode fails but the error status is not set", cfg)
		}
		if have := len(rs)/3 + 2*varnum + 2; have != top {
			u.Fail("%v: Makenode fails when %d nodes are in use, but the table can have %d", cfg, have, top)
		}
		// all nodes are as they were made
		seen := make(map[int][3]int, top)
		if err := e.Allnodes(func(id, level, low, high int) error { seen[id] = [3]int{level, low, high}; return nil }); err != nil {
			u.Fail("%v: Allnodes fails: %v", cfg, err)
		}
		for i := 0; i < len(rs); i += 3 {
			if seen[rs[i]] != [3]int{0, rs[i+1], rs[i+2]} {
				u.Fail("%v: node %d is %v, it was made as (0, %d, %d)", cfg, rs[i], seen[rs[i]], rs[i+1], rs[i+2])
			}
		}
	}
	u.Done()
}

// limited runs a call under every limit from the smallest table to one where
// it must fit.
func limited(u *U, c Call, lv []int, varnum int) {
	// how many nodes are live and how many does the call create
	u.Reset()
	e := u.NewEnv(varnum, lv, Cfg{Nodesize: 2000, Cache: 1009})
	a := e.prepare(c)
	var roots []rudd.Node
	for v := 0; v < varnum; v++ {
		roots = append(roots, e.Ithvar(v), e.NIthvar(v))
	}
	e.mk(0x6a)
	for n := range e.own {
		roots = append(roots, n)
	}
	s := e.Snapshot()
	live := len(e.below(s, roots...)) + 2
	st := e.stat()
	if st.Used != live {
		u.Fail("harness: %d nodes are used, %d are live", st.Used, live)
	}
	r := e.exec(c, a)
	if r == nil {
		u.Fail("%s fails without a limit", c.show(e))
	}
	made := e.stat().Produced - st.Produced
	base := 2*varnum + 2
	for _, mi := range []int{0, 2} {
		for lim := live; lim <= live+made+3; lim++ {
			for _, garbage := range []int{0, 1, 3} {
				if garbage > 0 && mi > 0 {
					continue
				}
				u.Reset()
				e := u.NewEnv(varnum, lv, Cfg{Nodesize: 1, Maxnodesize: lim, Maxinc: mi, Cache: 11})
				initial := e.stat().Alloc
				capa := u.capacity(initial, lim)
				if live > capa {
					continue // not even the operands fit
				}
				u.T("%s with limit %d (live %d, makes %d, capacity %d), %d unreferenced nodes", c.show(e), lim, live, made, capa, garbage)
				a := e.prepare(c)
				keep := e.mk(0x6a)
				fl := e.newFiller(0)
				for k := 0; k < garbage; k++ {
					if e.stat().Free == 0 {
						break
					}
					fl.add()
				}
				if e.Errored() {
					u.Fail("the construction of the operands fails: %s", clip(e.Error()))
				}
				res := e.take(e.exec(c, a))
				st := e.stat()
				u.Eval()
				u.Trans(1)
				if max := lim; st.Alloc > max && st.Alloc > initial {
					u.Fail("the table has %d slots", st.Alloc)
				}
				if res == nil {
					u.Nontrivial()
					if live+made <= capa {
						u.Fail("the call fails (%q) although %d live nodes and %d new ones fit in %d slots", clip(e.Error()), live, made, capa)
					}
					if !e.Errored() || e.Error() == "" {
						u.Fail("the call yields nil but the error status is not set")
					}
				}
				s := e.Snapshot()
				e.wellformed(s)
				e.accounting(s)
				if res != nil {
					e.want(s, res, c.want(e.n), c.show(e))
				}
				for i, f := range c.F {
					e.want(s, a.F[i], f, fmt.Sprintf("operand %d", i))
				}
				e.want(s, keep, 0x6a, "node held")
				// again: right or nil
				for _, c2 := range []Call{c, {K: kNot, F: []T{0x6a}}, {K: kApply, Op: 0, F: []T{0x6a, 0xaa}}} {
					a2 := a
					if c2.K == kNot || c2.K == kApply {
						a2 = Args{F: []rudd.Node{keep, e.Ithvar(lv[0])}}
					}
					if c2.K == c.K {
						a2 = a
						c2 = c
					}
					e.releaseTemps()
					r2 := e.take(e.exec(c2, a2))
					s := e.Snapshot()
					e.wellformed(s)
					if r2 != nil {
						e.want(s, r2, c2.want(e.n), c2.show(e)+" afterwards")
					} else if !e.Errored() {
						u.Fail("%s afterwards yields nil but the error status is not set", c2.show(e))
					}
					e.drop(r2)
				}
				for i, f := range c.F {
					e.want(e.Snapshot(), a.F[i], f, fmt.Sprintf("operand %d", i))
				}
				// everything is dropped: the same call on small operands succeeds
				e.drop(res)
				e.drop(keep)
				e.release(a)
				e.releaseTemps()
				if base+2+3 <= capa {
					x := e.take(e.And(e.Ithvar(lv[0]), e.Ithvar(lv[1])))
					if x == nil {
						u.Fail("And of two variables fails although all references were dropped and %d slots are available: %s", capa, clip(e.Error()))
					}
					s := e.Snapshot()
					e.want(s, x, varTT[0]&varTT[1]&e.mask(), "And of two variables afterwards")
					e.wellformed(s)
				}
			}
		}
	}
	u.Done()
}

// limitedHistory runs a history where some operations fail.
func limitedHistory(u *U, cfg Cfg, seed uint32, steps int) {
	u.Reset()
	e := u.NewEnv(5, []int{0, 1, 3}, cfg)
	initial := e.stat().Alloc
	top := initial
	if cfg.Maxnodesize > top {
		top = cfg.Maxnodesize
	}
	capa := u.capacity(initial, cfg.Maxnodesize)
	var slot [5]rudd.Node
	var tt [5]T
	for i := range slot {
		slot[i], tt[i] = e.take(e.Ithvar(e.lv[i%3])), varTT[i%3]&0xff
	}
	x := seed*7919 + 99
	rnd := func(n int) int {
		x = x*1664525 + 1013904223
		return int(x>>16) % n
	}
	fails := 0
	for i := 0; i < steps; i++ {
		a, b, d := rnd(5), rnd(5), rnd(5)
		var r rudd.Node
		var want T
		switch k := rnd(12); {
		case k < 8:
			op := rnd(10)
			u.T("s%d = Apply(s%d,s%d,%s)", d, a, b, opname[op])
			r, want = e.Apply(slot[a], slot[b], ops[op]), applyT(op, tt[a], tt[b], 3)
		case k == 8:
			u.T("s%d = Ite(s%d,s%d,s%d)", d, a, b, d)
			r, want = e.Ite(slot[a], slot[b], slot[d]), (tt[a]&tt[b]|^tt[a]&tt[d])&0xff
		case k == 9:
			u.T("s%d = Exist(s%d)", d, a)
			r, want = e.Exist(slot[a], e.Ithvar(e.lv[1])), existT(tt[a], 2, 3)
		case k == 10:
			u.T("s%d = variable %d", d, d%3)
			r, want = e.Ithvar(e.lv[d%3]), varTT[d%3]&0xff
		case k == 11:
			u.T("s%d = And(s0,s1,s2)", d)
			r, want = e.And(slot[0], slot[1], slot[2]), tt[0]&tt[1]&tt[2]
		}
		st := e.stat()
		if st.Alloc > top {
			u.Fail("the table has %d slots, the limit is %d and it had %d at the beginning", st.Alloc, cfg.Maxnodesize, initial)
		}
		if r == nil {
			fails++
			if !e.Errored() {
				u.Fail("the result is nil but the error status is not set")
			}
			if st.Alloc != capa {
				u.Fail("the operation fails, but the table has only %d slots of %d possible ones", st.Alloc, capa)
			}
			e.releaseTemps()
			// the failure costs references: start again from variables
			for j := range slot {
				if rnd(2) == 0 {
					e.drop(slot[j])
					slot[j], tt[j] = e.take(e.Ithvar(e.lv[j%3])), varTT[j%3]&0xff
				}
			}
		} else {
			e.take(r)
			e.releaseTemps()
			e.drop(slot[d])
			slot[d], tt[d] = r, want
		}
		s := e.Snapshot()
		e.wellformed(s)
		e.accounting(s)
		for j := range slot {
			e.want(s, slot[j], tt[j], fmt.Sprintf("slot %d", j))
		}
		u.Eval()
		u.Trans(1)
		u.State(mix(hashOf(e.BDD), uint64(tt[0])<<32|uint64(tt[1])<<16|uint64(tt[2])))
		if i%50 == 49 {
			fails = 0
			// the text of the error status grows with each failure: new BDD
			if e.Errored() && len(e.Error()) > 20000 {
				break
			}
		}
	}
	u.Done()
}

// ----------------------------------------------------- construction of nodes

// apiTT is the function of a node, computed with Label, Low and High only.
func (e *Env) apiTT(n rudd.Node) T {
	memo := map[int]T{0: 0, 1: e.mask()}
	var rec func(n rudd.Node, above int) T
	rec = func(n rudd.Node, above int) T {
		if n == nil {
			e.u.Fail("Low or High yields nil: %s", clip(e.Error()))
		}
		if t, ok := memo[*n]; ok {
			return t
		}
		l := e.Label(n)
		if l <= above {
			e.u.Fail("node %d below a node of variable %d has label %d", *n, above, l)
		}
		v, ok := e.logic[l]
		if !ok {
			e.u.Fail("node %d has label %d, which is not one of %v", *n, l, e.lv)
		}
		lo, hi := e.Low(n), e.High(n)
		t := rec(lo, l)&^varTT[v] | rec(hi, l)&varTT[v]
		vrt.Drop(lo)
		vrt.Drop(hi)
		memo[*n] = t & e.mask()
		return t & e.mask()
	}
	return rec(n, -1)
}

func equalInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (e *Env) cubeT(set []int) T {
	r := e.mask()
	for _, l := range set {
		r &= varTT[e.logic[l]]
	}
	return r & e.mask()
}

func c14(c *Ctx) {
	// A: every sequence of variables
	const blk = 8
	seqLen := 6
	for first := 0; first < 5; first++ {
		for second := 0; second < 5; second++ {
			first, second := first, second
			c.Unit(fmt.Sprintf("A.%d.%d", first, second), func(u *U) {
				e := u.NewEnv(5, nil, Cfg{Nodesize: 300, Cache: 1})
				u.Sample("Makeset and Scanset on all sequences of up to %d variables that start with %d, %d", seqLen, first, second)
				one := func(seq []int) {
					u.Eval()
					n := e.take(e.makeset(seq))
					want := append([]int{}, seq...)
					sort.Ints(want)
					k := 0
					for i, v := range want {
						if i == 0 || v != want[i-1] {
							want[k] = v
							k++
						}
					}
					want = want[:k]
					if n == nil {
						u.Fail("Makeset(%v) is nil: %s", seq, clip(e.Error()))
					}
					if t := e.apiTT(n); t != e.cubeT(want) {
						u.Fail("Makeset(%v) denotes %s, expected %s", seq, e.show(t), e.show(e.cubeT(want)))
					}
					if got := e.scanset(n); !equalInts(got, want) {
						u.Fail("Scanset(Makeset(%v)) is %v", seq, got)
					}
					if len(want) != len(seq) {
						u.Nontrivial()
					}
					e.drop(n)
				}
				var rec func(seq []int)
				rec = func(seq []int) {
					one(seq)
					if len(seq) == seqLen {
						return
					}
					for v := 0; v < 5; v++ {
						rec(append(append([]int{}, seq...), v))
					}
				}
				if first == 0 && second == 0 {
					one(nil)
				}
				if second == 0 {
					one([]int{first})
				}
				rec([]int{first, second})
				if e.Errored() {
					u.Fail("error status set: %s", clip(e.Error()))
				}
			})
		}
	}
	// B: every set of 12 variables, in three orders
	for b := 0; b < blk; b++ {
		b := b
		c.Unit(fmt.Sprintf("B.%d", b), func(u *U) {
			e := u.NewEnv(14, []int{}, Cfg{Nodesize: 30000, Cache: 1})
			for m := b; m < 1<<12; m += blk {
				var set []int
				for v := 0; v < 12; v++ {
					if m>>uint(v)&1 != 0 {
						set = append(set, v+v/6)
					}
				}
				for order := 0; order < 3; order++ {
					arg := append([]int{}, set...)
					for i := range arg {
						switch order {
						case 1:
							arg[i] = set[len(set)-1-i]
						case 2:
							arg[i] = set[(i*7+3)%len(set)]
						}
					}
					if order == 2 && len(set)%7 == 0 {
						continue
					}
					n := e.take(e.makeset(arg))
					u.Eval()
					if got := e.scanset(n); n == nil || !equalInts(got, set) {
						u.Fail("Scanset(Makeset(%v)) is %v", arg, got)
					}
					e.drop(n)
				}
			}
		})
	}
	// C: cubes
	for s := uint(0); s < 64; s += 8 {
		s := s
		c.Unit(fmt.Sprintf("C.%d", s), func(u *U) {
			for _, em := range [][]int{{0, 1, 2, 3, 4, 5}, {1, 2, 4, 5, 6, 8}} {
				e := u.NewEnv(em[5]+1, em, Cfg{Nodesize: 3000, Cache: 1})
				for set := s; set < s+8; set++ {
					for pol := uint(0); pol < 64; pol++ {
						if pol&^set != 0 || set == 0 {
							continue
						}
						cl := Call{K: kMakecube, Set: set, Pol: pol}
						u.Eval()
						u.Nontrivial()
						n := e.take(e.exec(cl, Args{}))
						if n == nil {
							u.Fail("%s is nil: %s", cl.show(e), clip(e.Error()))
						}
						if t := e.apiTT(n); t != cl.want(6) {
							u.Fail("%s denotes %s, expected %s", cl.show(e), e.show(t), e.show(cl.want(6)))
						}
						e.drop(n)
					}
				}
				u.Reset()
			}
		})
	}
	c.Unit("C.all", func(u *U) {
		for N := 1; N <= 6; N++ {
			e := u.NewEnv(N, nil, Cfg{Nodesize: 3000, Cache: 1})
			for pol := 0; pol < 1<<uint(N); pol++ {
				ps := make([]bool, N)
				for i := range ps {
					ps[i] = pol>>uint(i)&1 != 0
				}
				for _, vs := range [][]int{nil, {}} {
					u.Eval()
					n := e.take(e.Makecube(vs, ps))
					if n == nil {
						u.Fail("Makecube({},%v) is nil: %s", ps, clip(e.Error()))
					}
					if t := e.apiTT(n); t != T(1)<<uint(pol) {
						u.Fail("Makecube({},%v) denotes %s", ps, e.show(t))
					}
				}
			}
			u.Reset()
		}
	})
	// D: literals and constants
	c.Unit("D", func(u *U) {
		for N := 1; N <= 6; N++ {
			for _, ns := range []int{0, 3, 50} {
				e := u.NewEnv(N, nil, Cfg{Nodesize: ns, Cache: 1})
				for v := 0; v < N; v++ {
					u.Eval()
					if t := e.apiTT(e.Ithvar(v)); t != varTT[v]&e.mask() {
						u.Fail("Ithvar(%d) denotes %s", v, e.show(t))
					}
					if t := e.apiTT(e.NIthvar(v)); t != ^varTT[v]&e.mask() {
						u.Fail("NIthvar(%d) denotes %s", v, e.show(t))
					}
				}
				if e.apiTT(e.True()) != e.mask() || e.apiTT(e.False()) != 0 || e.apiTT(e.From(true)) != e.mask() || e.apiTT(e.From(false)) != 0 {
					u.Fail("wrong constants")
				}
				if !e.Equal(e.From(true), e.True()) || !e.Equal(e.From(false), e.False()) || e.Equal(e.True(), e.False()) {
					u.Fail("wrong constants")
				}
				if s := e.Scanset(e.True()); len(s) != 0 {
					u.Fail("Scanset(True) is %v", s)
				}
				u.Reset()
			}
		}
		for _, N := range []int{100, 1000, 40000} {
			e := u.NewEnv(N, []int{}, Cfg{Nodesize: 10, Cache: 1})
			for v := 0; v < N; v++ {
				p, q := e.Ithvar(v), e.NIthvar(v)
				u.Eval()
				if e.Label(p) != v || e.Label(q) != v || *e.Low(p) != 0 || *e.High(p) != 1 || *e.Low(q) != 1 || *e.High(q) != 0 {
					u.Fail("Ithvar(%d) or NIthvar is wrong", v)
				}
			}
			u.Reset()
		}
	})
	// H: nodes that take the place of others
	reuseNodes(c, "H", func(e *Env, s *Snap, n rudd.Node, f T, what string) {
		if t := e.apiTT(n); t != f {
			e.u.Fail("%s: Label, Low and High describe %02x, expected %02x", what, t, f)
		}
		set := support(f, 3)
		lv := e.levels(set)
		v := e.makeset(lv)
		if t := e.apiTT(v); t != (Call{K: kMakeset, Set: set}).want(3) {
			e.u.Fail("%s: Makeset(%v) denotes %s", what, lv, e.show(t))
		}
		if got := e.scanset(v); fmt.Sprint(got) != fmt.Sprint(lv) && len(got)+len(lv) > 0 {
			e.u.Fail("%s: Scanset(Makeset(%v)) is %v", what, lv, got)
		}
	})
	// E: Shannon expansion of all functions of 4 variables
	for _, em := range []struct {
		varnum int
		lv     []int
	}{{4, nil}, {9, []int{0, 3, 4, 8}}} {
		for b := 0; b < 8; b++ {
			em, b := em, b
			c.Unit(fmt.Sprintf("E.%d.%d", em.varnum, b), func(u *U) {
				e := u.newFull(em.varnum, em.lv, Cfg{Nodesize: 70000, Cache: 1})
				h := e.observe()
				for f := T(b * 8192); f < T(b*8192+8192); f++ {
					if f == 0 || f == e.mask() {
						continue
					}
					u.Eval()
					u.Nontrivial()
					v := 0
					for !depends(f, v, 4) {
						v++
					}
					n := e.node[f]
					if l := e.Label(n); l != e.lv[v] {
						u.Fail("Label(%04x) is %d, expected %d", f, l, e.lv[v])
					}
					e.is(e.Low(n), cof(f, v, false)&e.mask(), "Low(%04x)", f)
					e.is(e.High(n), cof(f, v, true)&e.mask(), "High(%04x)", f)
				}
				e.unchanged(h, "Label, Low or High (with their results dropped) change the BDD")
				e.noerror()
			})
		}
	}
}

// ------------------------------------------------------------------- replacers

func c21(c *Ctx) {
	const N = 3
	vals := []int{-1, 0, 1, 2, 3}
	var seqs func(l int) [][]int
	seqs = func(l int) [][]int {
		if l == 0 {
			return [][]int{{}}
		}
		var r [][]int
		for _, s := range seqs(l - 1) {
			for _, v := range vals {
				r = append(r, append(append([]int{}, s...), v))
			}
		}
		return r
	}
	for l1 := 0; l1 <= 3; l1++ {
		for l2 := 0; l2 <= 3; l2++ {
			l1, l2 := l1, l2
			c.Unit(fmt.Sprintf("A.%d.%d", l1, l2), func(u *U) {
				e := u.newFull(N, nil, Cfg{Nodesize: 700, Cache: 31})
				ids := map[int]bool{}
				u.Sample("NewReplacer on all pairs of slices of lengths %d and %d over %v (%d variables)", l1, l2, vals, N)
				for _, a := range seqs(l1) {
					for _, b := range seqs(l2) {
						e.newReplacer(a, b, N, ids)
					}
				}
			})
		}
	}
	// B: four variables of five
	for first := 0; first < 5; first++ {
		first := first
		c.Unit(fmt.Sprintf("B.%d", first), func(u *U) {
			e := u.NewEnv(5, nil, Cfg{Nodesize: 700, Cache: 31})
			f := &full{Env: e}
			ids := map[int]bool{}
			var all [][]int
			for x := 0; x < 625; x++ {
				all = append(all, []int{x % 5, x / 5 % 5, x / 25 % 5, x / 125})
			}
			for _, a := range all {
				if a[0] != first {
					continue
				}
				dup := a[0] == a[1] || a[0] == a[2] || a[0] == a[3] || a[1] == a[2] || a[1] == a[3] || a[2] == a[3]
				for i, b := range all {
					if dup && i%7 != 0 {
						continue
					}
					f.newReplacer(a, b, 5, ids)
				}
				ids = map[int]bool{}
			}
		})
	}
	// X: large indices and other BDDs
	c.Unit("X", func(u *U) {
		ids := map[int]bool{}
		for _, varnum := range []int{1, 2, 3, 70, 300, 70000} {
			e := u.NewEnv(varnum, []int{}, Cfg{Nodesize: 10, Cache: 1})
			f := &full{Env: e}
			xs := []int{-maxint - 1, -1 << 32, -1 << 31, -1<<31 - 1, -1, 0, 1, varnum - 1, varnum, varnum + 1, 2 * varnum, 63, 64, 65, 127, 128, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, 1 << 32, 1<<32 + 1, maxint}
			for _, x := range xs {
				for _, y := range xs {
					f.newReplacer([]int{x}, []int{y}, varnum, ids)
					f.newReplacer([]int{x, 0}, []int{y, 1}, varnum, ids)
					f.newReplacer([]int{0, x}, []int{1, y}, varnum, ids)
					f.newReplacer([]int{x, y}, []int{y, x}, varnum, ids)
				}
			}
			vrt.Reset() // the package-level state stays: identities are not used again
		}
	})
}

// newReplacer checks one call of NewReplacer.
func (f *full) newReplacer(a, b []int, N int, ids map[int]bool) {
	u := f.u
	u.Eval()
	valid := len(a) == len(b)
	m := map[int]int{}
	if valid {
		tgt := map[int]bool{}
		for i := range a {
			if a[i] < 0 || a[i] >= N || b[i] < 0 || b[i] >= N {
				valid = false
				break
			}
			if _, dup := m[a[i]]; dup || tgt[b[i]] {
				valid = false
				break
			}
			m[a[i]], tgt[b[i]] = b[i], true
		}
		if valid {
			for _, y := range b {
				if z, ok := m[y]; ok && z != y {
					valid = false
				}
			}
		}
	}
	ca, cb := append([]int{}, a...), append([]int{}, b...)
	r, err := f.NewReplacer(ca, cb)
	if !valid {
		if err == nil {
			u.Fail("NewReplacer(%v,%v) with %d variables returns no error", a, b, N)
		}
		return
	}
	if !equalInts(ca, a) || !equalInts(cb, b) {
		u.Fail("NewReplacer(%v,%v) changes its arguments to %v, %v", a, b, ca, cb)
	}
	for i := range ca { // the caller uses them for something else
		ca[i] = (a[i] + 1) % N
	}
	for i := range cb {
		cb[i] = (b[i] + 2) % N
	}
	if err != nil || r == nil {
		u.Fail("NewReplacer(%v,%v) with %d variables fails: %v", a, b, N, err)
	}
	u.Nontrivial()
	if ids[r.Id()] {
		u.Fail("NewReplacer(%v,%v): the identity %d is used twice", a, b, r.Id())
	}
	ids[r.Id()] = true
	if st, ok := r.(fmt.Stringer); ok {
		var want []int
		for x, y := range m {
			if x != y {
				want = append(want, x)
			}
		}
		sort.Ints(want)
		var pairs []string
		for _, x := range want {
			pairs = append(pairs, fmt.Sprintf("%d<-%d", x, m[x]))
		}
		text := st.String()
		if i, k := strings.Index(text, "["), strings.LastIndex(text, "]"); i < 0 || k < i || text[i+1:k] != strings.Join(pairs, ", ") {
			u.Fail("NewReplacer(%v,%v) is written %s", a, b, clip(text))
		}
	}
	check := func(v int) {
		want, ok := m[v]
		if !ok {
			want = v
		}
		got, _ := r.Replace(int32(v))
		if int(got) != want {
			u.Fail("NewReplacer(%v,%v) maps variable %d to %d", a, b, v, got)
		}
		res := f.Replace(f.Ithvar(v), r)
		if res == nil || f.Label(res) != want || *res != *f.Ithvar(want) {
			u.Fail("Replace of variable %d with NewReplacer(%v,%v) is node %d, expected variable %d", v, a, b, idOf(res), want)
		}
	}
	if N <= 8 {
		for v := 0; v < N; v++ {
			check(v)
		}
	} else {
		for x, y := range m {
			check(x)
			check(y)
		}
		for _, v := range []int{0, 1, N / 2, N - 2, N - 1} {
			if v >= 0 {
				check(v)
			}
		}
	}
	if f.node != nil {
		mm := []int{0, 1, 2}
		for x, y := range m {
			mm[x] = y
		}
		for _, t := range []T{0x96, 0xe8, 0xca, 0x80, 0x01} {
			if !(Call{K: kReplace, F: []T{t}, M: mm}).defined(3) {
				continue
			}
			f.is(f.Replace(f.node[t], r), substT(t, mm, 3), "Replace(%02x) with NewReplacer(%v,%v)", t, a, b)
		}
	}
}

// ---------------------------------------------------------------------- growth

// grew checks one allocation of at most one node.
func grew(u *U, cfg Cfg, varnum int, before, after Stat, made int) {
	mf := 20
	if cfg.Minfree != 0 {
		mf = cfg.Minfree - 1
	}
	mi := 1 << 20
	if cfg.Maxinc != 0 {
		mi = cfg.Maxinc - 1
	}
	if after.Alloc < before.Alloc {
		u.Fail("the table shrinks: %+v -> %+v", before, after)
	}
	if after.Alloc == before.Alloc {
		if left := after.Free + made; after.GC == before.GC+1 && left*100 < mf*before.Alloc {
			u.Fail("the table does not grow although a collection left only %d of %d slots free (Minfreenodes %d): %+v -> %+v", left, before.Alloc, mf, before, after)
		}
		return
	}
	u.Nontrivial()
	if after.GC == before.GC {
		u.Fail("the table grows without a collection: %+v -> %+v", before, after)
	}
	left := after.Free - (after.Alloc - before.Alloc) + made
	if left*100 >= (mf+1)*before.Alloc {
		u.Fail("the table grows although a collection left %d of %d slots free (Minfreenodes %d): %+v -> %+v", left, before.Alloc, mf, before, after)
	}
	if after.Alloc > 2*before.Alloc {
		u.Fail("the table more than doubles: %+v -> %+v", before, after)
	}
	if mi > 0 {
		lim := before.Alloc + mi
		if u.buddy() {
			if p := nextPrime(before.Alloc + 1); p > lim {
				lim = p
			}
		}
		if after.Alloc > lim {
			u.Fail("the table grows by %d slots, Maxnodeincrease is %d: %+v -> %+v", after.Alloc-before.Alloc, mi, before, after)
		}
	}
}

func c22(c *Ctx) {
	for _, ns := range []int{0, 1, 12, 13, 24, 30, 50, 101, 300} {
		for _, mf := range []int{-1, 0, 1, 10, 20, 33, 50, 80, 99, 100, 150} {
			ns, mf := ns, mf
			c.Unit(fmt.Sprintf("A.%d.%d", ns, mf), func(u *U) {
				for _, mi := range []int{-1, 0, 1, 2, 3, 5, 10, 100, 1 << 20} {
					for hold := 0; hold < 6; hold++ {
						growth(u, Cfg{Nodesize: ns, Minfree: mf + 1, Maxinc: mi + 1, Cache: 7, Ratio: hold % 2 * 25}, hold)
					}
				}
			})
		}
	}
	// O: with the default options, and growth inside of operations
	for hold := 0; hold < 6; hold++ {
		hold := hold
		c.Unit(fmt.Sprintf("O.%d", hold), func(u *U) {
			growth(u, Cfg{}, hold)
			growth(u, Cfg{Nodesize: 20}, hold)
			growth(u, Cfg{Minfree: 31}, hold)
			growth(u, Cfg{Maxinc: 8}, hold)
		})
	}
	for _, mf := range []int{0, 20, 60, 100} {
		for _, mi := range []int{0, 1, 7} {
			mf, mi := mf, mi
			c.Unit(fmt.Sprintf("P.%d.%d", mf, mi), func(u *U) {
				cfg := Cfg{Nodesize: 1, Minfree: mf + 1, Maxinc: mi + 1, Cache: 50}
				e := u.NewEnv(8, []int{0, 1, 2, 4, 5, 7}, cfg)
				var held []rudd.Node
				fs := symmetric(6)
				last := e.stat()
				for i := range fs {
					n := e.take(e.Ithvar(e.lv[i%6]))
					for k := 0; k < 5; k++ {
						r := e.Apply(n, e.Ithvar(e.lv[(i*k+k)%6]), ops[(i+k)%10])
						if r == nil {
							u.Fail("an operation fails without a node limit: %s", clip(e.Error()))
						}
						if k%2 == 0 {
							held = append(held, e.take(r))
						}
						n = r
						u.Eval()
						now := e.stat()
						if now.Alloc < last.Alloc {
							u.Fail("the table shrinks: %+v -> %+v", last, now)
						}
						if now.Alloc > last.Alloc && now.GC == last.GC {
							u.Fail("the table grows without a collection: %+v -> %+v", last, now)
						}
						last = now
					}
					if i%16 == 15 {
						for _, h := range held {
							e.drop(h)
						}
						held = held[:0]
					}
				}
				if e.Errored() {
					u.Fail("error status: %s", clip(e.Error()))
				}
			})
		}
	}
	// B: large tables
	for _, ns := range []int{1000, 5000, 10007, 16384, 32749, 65000, 65536, 100000, 131072, 140000, 200003, 262144, 500000, 524287, 700000, 1<<20 - 3, 1<<20 + 9, 1500000} {
		if ns > 300000 && !c.Thorough() && ns != 700000 && ns != 1<<20+9 {
			continue
		}
		for _, mi := range []int{-1, 0, 1, 1000, 60000, 1 << 17} {
			if ns > 300000 && mi == 1 {
				continue
			}
			ns, mi := ns, mi
			c.Unit(fmt.Sprintf("B.%d.%d", ns, mi), func(u *U) {
				for part := 0; part < 3; part++ {
					bigTable(u, Cfg{Nodesize: ns, Maxinc: mi + 1, Cache: 3}, part)
				}
			})
		}
	}
	// N: the size at the beginning
	c.Unit("N", func(u *U) {
		for varnum := 1; varnum <= 40; varnum++ {
			for ns := -5; ns <= 130; ns++ {
				u.Reset()
				e := u.NewEnv(varnum, []int{}, Cfg{Nodesize: ns, Cache: 1})
				st := e.stat()
				u.Eval()
				if st.Alloc < ns || st.Alloc < 2*varnum+2 {
					u.Fail("New(%d, Nodesize(%d)) makes a table of %d slots", varnum, ns, st.Alloc)
				}
				if st.Used != 2*varnum+2 {
					u.Fail("New(%d, Nodesize(%d)): %d nodes are used", varnum, ns, st.Used)
				}
				for v := 0; v < varnum; v++ {
					if e.Ithvar(v) == nil || e.NIthvar(v) == nil || e.Label(e.Ithvar(v)) != v || e.Label(e.NIthvar(v)) != v {
						u.Fail("New(%d, Nodesize(%d)): variable %d is wrong", varnum, ns, v)
					}
				}
			}
		}
	})
}

// bigTable fills a large table, of which a part of is in use, until it has
// grown twice.
func bigTable(u *U, cfg Cfg, part int) {
	u.Reset()
	const varnum = 1400
	e := u.NewEnv(varnum, []int{}, cfg)
	st := e.stat()
	if st.Alloc < cfg.Nodesize || st.Alloc < 2*varnum+2 {
		u.Fail("New makes a table of %d slots", st.Alloc)
	}
	fl := e.newFiller(0)
	grown := 0
	for k := 0; grown < 2 && k < 3; k++ {
		e.Initref()
		before := e.stat()
		for i := before.Free; i > 0; i-- {
			x, y := fl.next()
			r := e.Makenode(0, x, y)
			if r < 0 {
				u.Fail("an allocation fails without a node limit (%+v): %s", e.stat(), clip(e.Error()))
			}
			switch {
			case part == 0, part == 1 && i%10 != 0, part == 2 && i%100 < 79:
				e.Pushref(r)
			}
		}
		tick()
		for i := 0; i < 3; i++ {
			before = e.stat()
			x, y := fl.next()
			r := e.Makenode(0, x, y)
			after := e.stat()
			u.Eval()
			u.Trans(1)
			if r < 0 {
				u.Fail("an allocation fails without a node limit (%+v -> %+v): %s", before, after, clip(e.Error()))
			}
			grew(u, cfg, varnum, before, after, after.Produced-before.Produced)
			if after.Alloc > before.Alloc {
				grown++
			}
		}
	}
	u.Done()
}

// growth allocates nodes one by one; hold says which of them are kept.
func growth(u *U, cfg Cfg, hold int) {
	u.Reset()
	const varnum = 11
	e := u.NewEnv(varnum, []int{}, cfg)
	st := e.stat()
	if st.Alloc < cfg.Nodesize || st.Alloc < 2*varnum+2 {
		u.Fail("New makes a table of %d slots", st.Alloc)
	}
	fl := e.newFiller(0)
	var held []rudd.Node
	limit := 250
	if cfg.Nodesize > 200 {
		limit = 500
	}
	for i := 0; i < limit; i++ {
		before := e.stat()
		r := fl.add()
		after := e.stat()
		u.Eval()
		u.Trans(1)
		made := after.Produced - before.Produced
		if r < 0 {
			if cfg.Minfree == 0 || cfg.Minfree > 0 {
				u.Fail("an allocation fails without a node limit (%+v -> %+v): %s", before, after, clip(e.Error()))
			}
		}
		if made > 1 || made < 0 {
			u.Fail("one call of Makenode makes %d nodes", made)
		}
		grew(u, cfg, varnum, before, after, made)
		keep := false
		switch hold {
		case 0:
			keep = true
		case 1:
			keep = false
		case 2:
			keep = i%2 == 0
		case 3:
			keep = i%10 < 9
		case 4:
			keep = i%5 == 0
		case 5:
			keep = true
			if i%60 == 59 {
				for _, h := range held {
					e.drop(h)
				}
				held = held[:0]
			}
		}
		if keep {
			held = append(held, e.take(e.Retnode(r)))
		}
	}
	if u.c.Expired() {
		u.c.Cap("deadline")
	}
	u.Done()
}

func pow(b, k int) int {
	r := 1
	for ; k > 0; k-- {
		r *= b
	}
	return r
}
