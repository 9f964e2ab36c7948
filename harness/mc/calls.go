package main

import (
	"fmt"
	"strings"

	"github.com/dalzilio/rudd"
)

type kind int

const (
	kNot kind = iota
	kApply
	kIte
	kExist
	kAppex
	kReplace
	kAnd
	kOr
	kMakeset
	kMakecube
	kImp
	kEquiv
	kAndExist
)

var kindname = []string{"Not", "Apply", "Ite", "Exist", "AppEx", "Replace", "And", "Or", "Makeset", "Makecube", "Imp", "Equiv", "AndExist"}

// Call is one call of the API on given functions.
type Call struct {
	K   kind
	Op  int
	F   []T
	Set uint  // variables of a quantification, of Makeset, of Makecube
	M   []int // logical variable i is replaced by M[i]
	Pol uint  // polarities of Makecube
}

func (c Call) show(e *Env) string {
	var fs []string
	for _, f := range c.F {
		fs = append(fs, e.show(f))
	}
	s := kindname[c.K] + "(" + strings.Join(fs, ",")
	switch c.K {
	case kApply:
		s += "," + opname[c.Op]
	case kAppex:
		s += fmt.Sprintf(",%s,{%0*b}", opname[c.Op], e.n, c.Set)
	case kExist, kAndExist, kMakeset:
		s += fmt.Sprintf(",{%0*b}", e.n, c.Set)
	case kMakecube:
		s += fmt.Sprintf(",{%0*b},{%0*b}", e.n, c.Set, e.n, c.Pol)
	case kReplace:
		s += fmt.Sprintf(",%v", c.M)
	}
	return s + ")"
}

// want is the function of the result.
func (c Call) want(n int) T {
	m := maskOf(n)
	switch c.K {
	case kNot:
		return ^c.F[0] & m
	case kApply:
		return applyT(c.Op, c.F[0], c.F[1], n)
	case kIte:
		return (c.F[0]&c.F[1] | ^c.F[0]&c.F[2]) & m
	case kExist:
		return existT(c.F[0], c.Set, n)
	case kAppex:
		return existT(applyT(c.Op, c.F[0], c.F[1], n), c.Set, n)
	case kAndExist:
		return existT(c.F[0]&c.F[1], c.Set, n)
	case kReplace:
		return substT(c.F[0], c.M, n) & m
	case kAnd:
		r := m
		for _, f := range c.F {
			r &= f
		}
		return r
	case kOr:
		r := T(0)
		for _, f := range c.F {
			r |= f
		}
		return r
	case kImp:
		return applyT(5, c.F[0], c.F[1], n)
	case kEquiv:
		return applyT(6, c.F[0], c.F[1], n)
	case kMakeset, kMakecube:
		r := m
		for i := 0; i < n; i++ {
			if c.Set>>uint(i)&1 != 0 {
				if c.K == kMakeset || c.Pol>>uint(i)&1 != 0 {
					r &= varTT[i]
				} else {
					r &^= varTT[i]
				}
			}
		}
		return r & m
	}
	panic("want")
}

// needset tells if the call has a variable set operand.
func (c Call) needset() bool { return c.K == kExist || c.K == kAppex || c.K == kAndExist }

// defined tells if a substitution is well defined: no new variable occurs in
// the function.
func (c Call) defined(n int) bool {
	if c.K != kReplace {
		return true
	}
	s := support(c.F[0], n)
	for i, j := range c.M {
		if i != j && s>>uint(j)&1 != 0 {
			return false
		}
	}
	return true
}

// Args are the concrete arguments of a call.
type Args struct {
	F   []rudd.Node
	Set rudd.Node
	R   rudd.Replacer
}

// replacer makes the replacer of the substitution m.
func (e *Env) replacer(m []int) rudd.Replacer {
	var from, to []int
	for i, j := range m {
		if i != j {
			from = append(from, e.lv[i])
			to = append(to, e.lv[j])
		}
	}
	r, err := e.NewReplacer(from, to)
	if err != nil || r == nil {
		e.u.Fail("NewReplacer(%v, %v) fails: %v", from, to, err)
	}
	return r
}

// prepare builds the arguments; the references are owned by the caller.
func (e *Env) prepare(c Call) Args {
	var a Args
	for _, f := range c.F {
		a.F = append(a.F, e.mk(f))
	}
	if c.needset() {
		a.Set = e.mkset(c.Set)
	}
	if c.K == kReplace {
		a.R = e.replacer(c.M)
	}
	return a
}

// release drops the arguments.
func (e *Env) release(a Args) {
	for _, n := range a.F {
		e.drop(n)
	}
	if a.Set != nil {
		e.drop(a.Set)
	}
}

// exec performs the call. The result is not yet owned.
func (e *Env) exec(c Call, a Args) rudd.Node {
	switch c.K {
	case kNot:
		return e.Not(a.F[0])
	case kApply:
		return e.Apply(a.F[0], a.F[1], ops[c.Op])
	case kIte:
		return e.Ite(a.F[0], a.F[1], a.F[2])
	case kExist:
		return e.Exist(a.F[0], a.Set)
	case kAppex:
		return e.AppEx(a.F[0], a.F[1], ops[c.Op], a.Set)
	case kAndExist:
		return e.AndExist(a.F[0], a.F[1], a.Set)
	case kReplace:
		return e.Replace(a.F[0], a.R)
	case kAnd:
		return e.And(a.F...)
	case kOr:
		return e.Or(a.F...)
	case kImp:
		return e.Imp(a.F[0], a.F[1])
	case kEquiv:
		return e.Equiv(a.F[0], a.F[1])
	case kMakeset:
		return e.makeset(e.levels(c.Set))
	case kMakecube:
		// in the order of levels, as documented
		var pol []bool
		var set []int
		for k := 0; k < e.n; k++ {
			if i := e.order(k); c.Set>>uint(i)&1 != 0 {
				pol = append(pol, c.Pol>>uint(i)&1 != 0)
				set = append(set, e.lv[i])
			}
		}
		cs, cp := append([]int{}, set...), append([]bool{}, pol...)
		n := e.Makecube(set, pol)
		if !equalInts(cs, set) || fmt.Sprint(cp) != fmt.Sprint(pol) {
			e.u.Fail("Makecube(%v,%v) changes its arguments to %v and %v", cs, cp, set, pol)
		}
		return n
	}
	panic("exec")
}

// levels gives the levels of the logical variables of a set.
func (e *Env) levels(set uint) []int {
	res := []int{}
	for i := 0; i < e.n; i++ {
		if set>>uint(i)&1 != 0 {
			res = append(res, e.lv[i])
		}
	}
	return res
}

// renamings gives all the substitutions that NewReplacer accepts over n logical
// variables: partial injections whose targets are not moved variables.
func renamings(n int) [][]int {
	var res [][]int
	m := make([]int, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			used := map[int]bool{}
			for a, b := range m {
				if a != b {
					if used[b] || m[b] != b {
						return
					}
					used[b] = true
				}
			}
			res = append(res, append([]int{}, m...))
			return
		}
		for j := 0; j < n; j++ {
			m[i] = j
			rec(i + 1)
		}
	}
	rec(0)
	return res
}

// callsOver gives the calls over the functions fs of n variables.
func callsOver(n int, fs []T, ite []T, sets []uint, reps [][]int) []Call {
	var res []Call
	for _, f := range fs {
		res = append(res, Call{K: kNot, F: []T{f}})
		for _, g := range fs {
			for op := range ops {
				res = append(res, Call{K: kApply, Op: op, F: []T{f, g}})
			}
			for op := 0; op < 4; op++ {
				for _, s := range sets {
					res = append(res, Call{K: kAppex, Op: op, F: []T{f, g}, Set: s})
				}
			}
		}
		for _, s := range sets {
			res = append(res, Call{K: kExist, F: []T{f}, Set: s})
		}
		for _, m := range reps {
			c := Call{K: kReplace, F: []T{f}, M: m}
			if c.defined(n) {
				res = append(res, c)
			}
		}
	}
	for _, f := range ite {
		for _, g := range ite {
			for _, h := range ite {
				res = append(res, Call{K: kIte, F: []T{f, g, h}})
			}
		}
	}
	return res
}

func lowest(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// sampleOf gives k functions of 3 variables in a fixed order, with different
// shapes first.
func sampleOf(k int) []T {
	res := []T{0x00, 0xff, 0xaa, 0xf0, 0x96, 0xe8, 0xca, 0x72, 0x01, 0xfe, 0x5a, 0x88, 0x69, 0xd8, 0x3c, 0x0f}
	seen := map[T]bool{}
	for _, f := range res {
		seen[f] = true
	}
	for x := T(0x59); len(res) < k; x = (x*5 + 0x6b) & 0xff {
		if !seen[x] {
			seen[x] = true
			res = append(res, x)
		}
	}
	return res[:k]
}
