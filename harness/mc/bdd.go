package main

import (
	"fmt"
	"math/big"
	"math/bits"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unsafe"

	"github.com/dalzilio/rudd"

	"verif/vrt"
)

// T is the truth table of a function of at most 6 variables: bit a is the value
// on the assignment a, where bit i of a is the value of variable i.
type T uint64

var varTT = [6]T{0xAAAAAAAAAAAAAAAA, 0xCCCCCCCCCCCCCCCC, 0xF0F0F0F0F0F0F0F0, 0xFF00FF00FF00FF00, 0xFFFF0000FFFF0000, 0xFFFFFFFF00000000}

func maskOf(n int) T {
	if n >= 6 {
		return ^T(0)
	}
	return T(1)<<(1<<uint(n)) - 1
}

func cof(f T, i int, v bool) T {
	sh := uint(1) << uint(i)
	if v {
		h := f & varTT[i]
		return h | h>>sh
	}
	l := f &^ varTT[i]
	return l | l<<sh
}

func depends(f T, i, n int) bool { return (cof(f, i, false)^cof(f, i, true))&maskOf(n) != 0 }

func existT(f T, set uint, n int) T {
	for i := 0; i < n; i++ {
		if set&(1<<uint(i)) != 0 {
			f = cof(f, i, false) | cof(f, i, true)
		}
	}
	return f & maskOf(n)
}

func support(f T, n int) uint {
	var s uint
	for i := 0; i < n; i++ {
		if depends(f, i, n) {
			s |= 1 << uint(i)
		}
	}
	return s
}

// substT substitutes simultaneously variable m[i] for variable i.
func substT(f T, m []int, n int) T {
	var res T
	for a := 0; a < 1<<uint(n); a++ {
		b := 0
		for i := 0; i < n; i++ {
			if a>>uint(m[i])&1 != 0 {
				b |= 1 << uint(i)
			}
		}
		if f>>uint(b)&1 != 0 {
			res |= 1 << uint(a)
		}
	}
	return res
}

var ops = []rudd.Operator{rudd.OPand, rudd.OPxor, rudd.OPor, rudd.OPnand, rudd.OPnor, rudd.OPimp, rudd.OPbiimp, rudd.OPdiff, rudd.OPless, rudd.OPinvimp}
var opname = []string{"and", "xor", "or", "nand", "nor", "imp", "biimp", "diff", "less", "invimp"}

// applyT is the documented truth table of operator number op.
func applyT(op int, f, g T, n int) T {
	var r T
	switch op {
	case 0:
		r = f & g
	case 1:
		r = f ^ g
	case 2:
		r = f | g
	case 3:
		r = ^(f & g)
	case 4:
		r = ^(f | g)
	case 5:
		r = ^f | g
	case 6:
		r = ^(f ^ g)
	case 7:
		r = f &^ g
	case 8:
		r = g &^ f
	case 9:
		r = f | ^g
	}
	return r & maskOf(n)
}

// Cfg gives the options of a BDD. Zero values are the defaults.
type Cfg struct {
	Nodesize, Maxnodesize, Cache, Ratio int
	Maxinc, Minfree                     int  // value plus one; 0 for the default
	Never                               bool // the table never grows (a negative value for Minfreenodes)
	Perm                                int  // see newFull
}

func (c Cfg) String() string {
	var s []string
	add := func(n string, v int) { s = append(s, fmt.Sprintf("%s(%d)", n, v)) }
	if c.Nodesize != 0 {
		add("Nodesize", c.Nodesize)
	}
	if c.Maxnodesize != 0 {
		add("Maxnodesize", c.Maxnodesize)
	}
	if c.Maxinc != 0 {
		add("Maxnodeincrease", c.Maxinc-1)
	}
	if c.Minfree != 0 {
		add("Minfreenodes", c.Minfree-1)
	}
	if c.Never {
		add("Minfreenodes", -1)
	}
	if c.Perm != 0 {
		add("identities", c.Perm)
	}
	if c.Cache != 0 {
		add("Cachesize", c.Cache)
	}
	if c.Ratio != 0 {
		add("Cacheratio", c.Ratio)
	}
	return "{" + strings.Join(s, " ") + "}"
}

func list[X any](x ...X) []X { return x }

func newBDD(varnum int, c Cfg) (*rudd.BDD, error) {
	o := list(rudd.Nodesize(0))[:0]
	if c.Nodesize != 0 {
		o = append(o, rudd.Nodesize(c.Nodesize))
	}
	if c.Maxnodesize != 0 {
		o = append(o, rudd.Maxnodesize(c.Maxnodesize))
	}
	if c.Maxinc != 0 {
		o = append(o, rudd.Maxnodeincrease(c.Maxinc-1))
	}
	if c.Minfree != 0 {
		o = append(o, rudd.Minfreenodes(c.Minfree-1))
	}
	if c.Never {
		o = append(o, rudd.Minfreenodes(-1))
	}
	if c.Cache != 0 {
		o = append(o, rudd.Cachesize(c.Cache))
	}
	if c.Ratio != 0 {
		o = append(o, rudd.Cacheratio(c.Ratio))
	}
	return rudd.New(varnum, o...)
}

// Env is a BDD with logical variables 0..n-1 that live at levels lv.
type Env struct {
	scan             aliased // last result of Scanset
	count, countWant *big.Int
	*rudd.BDD
	u      *U
	varnum int
	n      int
	lv     []int
	logic  map[int]int // level -> logical variable
	cfg    Cfg
	own    map[*int]int // references held by the harness
	snap   Snap
	lits   [][2]int // identities of the literals
}

// NewEnv creates a BDD with varnum variables.
func (u *U) NewEnv(varnum int, lv []int, cfg Cfg) *Env {
	b, err := newBDD(varnum, cfg)
	if err != nil || b == nil {
		u.Fail("New(%d, %v) fails: %v", varnum, cfg, err)
	}
	if lv == nil {
		for i := 0; i < varnum; i++ {
			lv = append(lv, i)
		}
	}
	e := &Env{BDD: b, u: u, varnum: varnum, n: len(lv), lv: lv, cfg: cfg, logic: map[int]int{}, own: map[*int]int{}}
	for i, l := range lv {
		e.logic[l] = i
	}
	if varnum <= 64 {
		for i := 0; i < varnum; i++ {
			p, q := e.Ithvar(i), e.NIthvar(i)
			if p == nil || q == nil {
				u.Fail("Ithvar/NIthvar(%d) is nil", i)
			}
			e.lits = append(e.lits, [2]int{*p, *q})
		}
	}
	return e
}

func (e *Env) mask() T { return maskOf(e.n) }

// aliased is a slice that was given to the caller, and what it contained.
type aliased struct{ got, was []int }

// scanset calls Scanset; its results belong to the caller, who changes them, and
// the next call does not change them.
func (e *Env) scanset(n rudd.Node) []int {
	got := e.Scanset(n)
	if !equalInts(e.scan.got, e.scan.was) {
		e.u.Fail("the previous result %v of Scanset has become %v", e.scan.was, e.scan.got)
	}
	for i := range e.scan.got {
		e.scan.got[i] = -7 - i
	}
	e.scan = aliased{got, append([]int{}, got...)}
	return e.scan.was
}

// makeset calls Makeset with a slice that is used for something else afterwards.
func (e *Env) makeset(s []int) rudd.Node {
	arg := append(make([]int, 0, len(s)+2), s...)
	if s == nil {
		arg = nil
	}
	n := e.Makeset(arg)
	if !equalInts(arg, s) {
		e.u.Fail("Makeset(%v) changes its argument to %v", s, arg)
	}
	for i := range arg {
		arg[i] = -7 - i
	}
	return n
}

// satcount calls Satcount; its results belong to the caller, like those of Scanset.
func (e *Env) satcount(n rudd.Node) *big.Int {
	got := e.Satcount(n)
	if e.count != nil {
		if e.count.Cmp(e.countWant) != 0 {
			e.u.Fail("the previous result %v of Satcount has become %v", e.countWant, e.count)
		}
		e.count.Add(e.count, big.NewInt(1<<40+7))
	}
	if got == nil {
		e.count = nil
		return nil
	}
	e.count, e.countWant = got, new(big.Int).Set(got)
	return e.countWant
}

// take records a reference obtained from the library.
func (e *Env) take(n rudd.Node) rudd.Node {
	if n != nil {
		e.own[n]++
	}
	return n
}

// drop forgets a reference; the finalizer runs at once when it was the last use
// of the pointer.
func (e *Env) drop(n rudd.Node) {
	if n == nil {
		return
	}
	e.own[n]--
	if e.own[n] <= 0 {
		delete(e.own, n)
		vrt.Drop(n)
	}
}

// id builds the function f with the kernel functions and returns its id,
// unprotected.
func (e *Env) build(f T) int {
	memo := map[T]int{}
	e.Initref()
	r := e.buildrec(f&e.mask(), 0, memo)
	return r
}

func (e *Env) buildrec(f T, k int, memo map[T]int) int {
	if f == 0 {
		return 0
	}
	if f == e.mask() {
		return 1
	}
	if r, ok := memo[f]; ok {
		return r
	}
	i := k
	for !depends(f, e.order(i), e.n) {
		i++
	}
	v := e.order(i)
	lo := e.buildrec(cof(f, v, false)&e.mask(), i+1, memo)
	hi := e.buildrec(cof(f, v, true)&e.mask(), i+1, memo)
	r := e.Makenode(int32(e.lv[v]), lo, hi)
	if r < 0 {
		return r
	}
	e.Pushref(r)
	memo[f] = r
	return r
}

// order gives the logical variable at rank k in the order of levels.
func (e *Env) order(k int) int {
	if sorted(e.lv) {
		return k
	}
	idx := make([]int, e.n)
	for i := range idx {
		idx[i] = i
	}
	sort.Slice(idx, func(a, b int) bool { return e.lv[idx[a]] < e.lv[idx[b]] })
	return idx[k]
}

func sorted(l []int) bool {
	for i := 1; i < len(l); i++ {
		if l[i-1] > l[i] {
			return false
		}
	}
	return true
}

// mk returns a new reference on the node of f.
func (e *Env) mk(f T) rudd.Node {
	r := e.build(f)
	if r < 0 {
		e.u.Fail("cannot build %s: %s", e.show(f), e.Error())
	}
	return e.take(e.Retnode(r))
}

// mkset returns a new reference on the cube of the logical variables in set.
func (e *Env) mkset(set uint) rudd.Node {
	f := e.mask()
	for i := 0; i < e.n; i++ {
		if set&(1<<uint(i)) != 0 {
			f &= varTT[i]
		}
	}
	return e.mk(f & e.mask())
}

func (e *Env) show(f T) string { return fmt.Sprintf("%0*x", (1<<uint(e.n)+3)/4, uint64(f&e.mask())) }

// SNode is an active node.
type SNode struct{ ID, Level, Low, High int }

// Snap is a snapshot of the table.
type Snap struct {
	Nodes []SNode
	pos   []int32 // id -> position + 1
	tt    []T
	ok    []int8 // 0 unknown, 1 known, 2 foreign variable
}

func (s *Snap) node(id int) *SNode {
	if id < 0 || id >= len(s.pos) || s.pos[id] == 0 {
		return nil
	}
	return &s.Nodes[s.pos[id]-1]
}

// Snapshot reads the active nodes.
func (e *Env) Snapshot() *Snap {
	s := &e.snap
	s.Nodes = s.Nodes[:0]
	max := 0
	if err := e.Allnodes(func(id, level, low, high int) error {
		if id > max {
			max = id
		}
		s.Nodes = append(s.Nodes, SNode{id, level, low, high})
		return nil
	}); err != nil {
		e.u.Fail("Allnodes fails: %v", err)
	}
	if cap(s.pos) < max+1 {
		s.pos = make([]int32, (max+1)*2)
		s.tt = make([]T, (max+1)*2)
		s.ok = make([]int8, (max+1)*2)
	}
	s.pos, s.tt, s.ok = s.pos[:max+1], s.tt[:max+1], s.ok[:max+1]
	for i := range s.pos {
		s.pos[i] = 0
		s.ok[i] = 0
	}
	for i, x := range s.Nodes {
		if x.ID < 0 {
			e.u.Fail("Allnodes gives the id %d", x.ID)
		}
		if s.pos[x.ID] != 0 {
			e.u.Fail("Allnodes visits node %d twice", x.ID)
		}
		s.pos[x.ID] = int32(i + 1)
	}
	return s
}

// tt returns the function of a node of the snapshot. ok is false when it
// depends on variables that are not logical variables of e. The table has to
// be well formed (see invariants), or else the result is a violation.
func (e *Env) tt(s *Snap, id int) (T, bool) { return e.ttd(s, id, 0) }

func (e *Env) ttd(s *Snap, id int, depth int) (T, bool) {
	switch id {
	case 0:
		return 0, true
	case 1:
		return e.mask(), true
	}
	x := s.node(id)
	if x == nil {
		e.u.Fail("node %d is used but not active", id)
	}
	if s.ok[id] != 0 {
		return s.tt[id], s.ok[id] == 1
	}
	if depth > 10000 {
		e.u.Fail("node %d has a cycle below", id)
	}
	lo, a := e.ttd(s, x.Low, depth+1)
	hi, b := e.ttd(s, x.High, depth+1)
	v, c := e.logic[x.Level]
	if !a || !b || !c {
		s.ok[id] = 2
		return 0, false
	}
	r := (lo &^ varTT[v]) | (hi & varTT[v])
	s.tt[id], s.ok[id] = r&e.mask(), 1
	return s.tt[id], true
}

// idOf returns the id of a node.
func idOf(n rudd.Node) int {
	if n == nil {
		return -1
	}
	return *n
}

// wellformed checks the structural invariants of the table on a snapshot.
func (e *Env) wellformed(s *Snap) {
	type key struct{ l, a, b int }
	seen := make(map[key]int, len(s.Nodes))
	for _, x := range s.Nodes {
		if x.ID < 2 {
			if x.Low != x.ID || x.High != x.ID || x.Level != e.varnum {
				e.u.Fail("constant %d is (level %d, low %d, high %d)", x.ID, x.Level, x.Low, x.High)
			}
			continue
		}
		if x.Level < 0 || x.Level >= e.varnum {
			e.u.Fail("node %d has level %d (varnum %d)", x.ID, x.Level, e.varnum)
		}
		lo, hi := s.node(x.Low), s.node(x.High)
		if lo == nil || hi == nil {
			e.u.Fail("node %d (level %d, low %d, high %d) has a successor that is not active", x.ID, x.Level, x.Low, x.High)
		}
		if x.Low == x.High {
			e.u.Fail("node %d is redundant (low = high = %d)", x.ID, x.Low)
		}
		if lo.Level <= x.Level || hi.Level <= x.Level {
			e.u.Fail("node %d (level %d) is not ordered: successors at levels %d, %d", x.ID, x.Level, lo.Level, hi.Level)
		}
		k := key{x.Level, x.Low, x.High}
		if o, ok := seen[k]; ok {
			e.u.Fail("nodes %d and %d are both (level %d, low %d, high %d)", o, x.ID, x.Level, x.Low, x.High)
		}
		seen[k] = x.ID
	}
	if s.node(0) == nil || s.node(1) == nil {
		e.u.Fail("a constant is not active")
	}
	if e.lits != nil {
		for i := 0; i < e.varnum; i++ {
			p, q := e.Ithvar(i), e.NIthvar(i)
			if p == nil || q == nil {
				e.u.Fail("Ithvar/NIthvar(%d) is nil", i)
			}
			if *p != e.lits[i][0] || *q != e.lits[i][1] {
				e.u.Fail("the literals of variable %d were nodes %v, now %d and %d", i, e.lits[i], *p, *q)
			}
			if x := s.node(*p); x == nil || x.Level != i || x.Low != 0 || x.High != 1 {
				e.u.Fail("Ithvar(%d) is node %d = %v", i, *p, x)
			}
			if x := s.node(*q); x == nil || x.Level != i || x.Low != 1 || x.High != 0 {
				e.u.Fail("NIthvar(%d) is node %d = %v", i, *q, x)
			}
		}
	}
}

// Statistics of the table.
type Stat struct{ Alloc, Produced, Free, Used, GC int }

var statRE = regexp.MustCompile(`(Allocated|Produced|Free|Used|# of GC):\s*(\d+)`)

// stat parses Stats.
func (e *Env) stat() Stat { return statOf(e.u, e.BDD) }

func statOf(u *U, b *rudd.BDD) Stat {
	var r Stat
	n := 0
	text := b.Stats()
	field := func(name string, p *int) {
		i := strings.Index(text, name)
		if i < 0 {
			return
		}
		i += len(name)
		for i < len(text) && text[i] == ' ' {
			i++
		}
		j := i
		for j < len(text) && (text[j] >= '0' && text[j] <= '9' || (j == i && text[j] == '-')) {
			j++
		}
		v, err := strconv.Atoi(text[i:j])
		if err != nil {
			return
		}
		*p = v
		n++
	}
	field("Allocated:", &r.Alloc)
	field("Produced:", &r.Produced)
	field("Free:", &r.Free)
	field("Used:", &r.Used)
	field("# of GC:", &r.GC)
	if n != 5 {
		u.Fail("cannot read the result of Stats: %q", text)
	}
	return r
}

// accounting checks that Stats agrees with the table.
func (e *Env) accounting(s *Snap) Stat {
	st := e.stat()
	if st.Free+st.Used != st.Alloc || st.Free < 0 {
		e.u.Fail("Stats: allocated %d, free %d, used %d", st.Alloc, st.Free, st.Used)
	}
	if st.Used != len(s.Nodes) {
		e.u.Fail("Stats says %d nodes are used, but %d are active", st.Used, len(s.Nodes))
	}
	return st
}

// observed is what can be seen of a BDD, and a hash of all its state.
type observed struct {
	hash  uint64
	nodes []SNode
	stat  Stat
	err   string
}

func (e *Env) observe() *observed {
	o := &observed{hash: hashOf(e.BDD), stat: e.stat(), err: e.Error()}
	o.nodes = append(o.nodes, e.Snapshot().Nodes...)
	sort.Slice(o.nodes, func(i, j int) bool { return o.nodes[i].ID < o.nodes[j].ID })
	return o
}

// unchanged checks that nothing that can be seen has changed since o. (Private
// state may change, like the contents of a cache.)
func (e *Env) unchanged(o *observed, what string) {
	if hashOf(e.BDD) == o.hash {
		return
	}
	e.u.Count("observably unchanged, with a change of private state", 1)
	n := e.observe()
	if n.stat != o.stat {
		e.u.Fail("%s: Stats was %+v, is %+v", what, o.stat, n.stat)
	}
	if n.err != o.err {
		e.u.Fail("%s: the error status was %q, is %q", what, clip(o.err), clip(n.err))
	}
	for i := range n.nodes {
		if i >= len(o.nodes) || n.nodes[i] != o.nodes[i] {
			e.u.Fail("%s: the table has changed at node %d", what, n.nodes[i].ID)
		}
	}
	if len(n.nodes) != len(o.nodes) {
		e.u.Fail("%s: there were %d nodes, now %d", what, len(o.nodes), len(n.nodes))
	}
}

// want checks that node n denotes f.
func (e *Env) want(s *Snap, n rudd.Node, f T, what string) {
	if n == nil {
		e.u.Fail("%s: result is nil (error: %q), expected %s", what, clip(e.Error()), e.show(f))
	}
	if s.node(*n) == nil {
		e.u.Fail("%s: node %d is not active, expected %s", what, *n, e.show(f))
	}
	t, ok := e.tt(s, *n)
	if !ok {
		e.u.Fail("%s: node %d depends on a foreign variable, expected %s", what, *n, e.show(f))
	}
	if t != f&e.mask() {
		e.u.Fail("%s: node %d denotes %s, expected %s", what, *n, e.show(t), e.show(f))
	}
}

func clip(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

// fresh supplies distinct triples for filler nodes: nodes at level fl (above
// all the logical variables) whose successors are literals of other variables
// or constants.
type filler struct {
	e     *Env
	fl    int
	ids   []int
	i, j  int
	wraps int
}

// newFiller makes a supply of filler nodes over level fl.
func (e *Env) newFiller(fl int) *filler {
	f := &filler{e: e, fl: fl}
	f.ids = append(f.ids, 0, 1)
	for v := fl + 1; v < e.varnum; v++ {
		f.ids = append(f.ids, *e.Ithvar(v), *e.NIthvar(v))
	}
	f.i, f.j = 0, 2 // (0,1) and (1,0) are literals
	return f
}

// next returns a triple that was not used yet.
func (f *filler) next() (int, int) {
	for {
		if f.i >= len(f.ids) {
			f.i, f.j = 0, 2
			if f.wraps++; f.wraps > 1000 {
				f.e.u.Fail("harness: no more filler nodes")
			}
		}
		a, b := f.ids[f.i], f.ids[f.j]
		f.j++
		if f.j == len(f.ids) {
			f.i, f.j = f.i+1, 0
		}
		if f.i < len(f.ids) && f.i < 2 && f.j < 2 {
			f.j = 2
		}
		if a != b {
			return a, b
		}
	}
}

// add makes one filler node, unreferenced.
func (f *filler) add() int {
	a, b := f.next()
	f.e.Initref()
	r := f.e.Makenode(int32(f.fl), a, b)
	return r
}

// fillTo makes unreferenced filler nodes until exactly free slots are left. It
// never triggers a collection.
func (f *filler) fillTo(free int) {
	for round := 0; round < 100; round++ { // some triples may exist already
		st := f.e.stat()
		if st.Free <= free {
			return
		}
		for k := st.Free; k > free; k-- {
			if f.add() < 0 {
				f.e.u.Fail("harness: cannot make a filler node: %s", f.e.Error())
			}
		}
	}
	f.e.u.Fail("harness: cannot fill the table")
}

// gc makes filler nodes until a collection happens.
func (f *filler) gc() {
	st := f.e.stat()
	f.fillTo(0)
	for k := 0; k < 500; k++ {
		if f.add() < 0 {
			f.e.u.Fail("allocation fails although no limit was set: %s", clip(f.e.Error()))
		}
		if now := f.e.stat(); now.GC > st.GC {
			return
		}
	}
	f.e.u.Fail("an allocation in a full table does not trigger a collection (%v -> %v)", st, f.e.stat())
}

// quantID finds field quantsetID of the BDD (nil if there is none).
func quantID(b *rudd.BDD) *int32 {
	defer func() { recover() }()
	v := reflect.ValueOf(b).Elem()
	f := v.FieldByName("quantsetID")
	if !f.IsValid() || f.Kind() != reflect.Int32 {
		return nil
	}
	return (*int32)(unsafe.Pointer(f.UnsafeAddr()))
}

// reachable tells which of the pointers are reachable from the BDD.
func reachable(b *rudd.BDD, ptrs map[uintptr]bool) map[uintptr]bool {
	res := map[uintptr]bool{}
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value, d int)
	walk = func(v reflect.Value, d int) {
		if d > 30 {
			return
		}
		switch v.Kind() {
		case reflect.Pointer:
			if v.IsNil() {
				return
			}
			p := v.Pointer()
			if ptrs[p] {
				res[p] = true
			}
			if seen[p] {
				return
			}
			seen[p] = true
			walk(v.Elem(), d+1)
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem(), d+1)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), d+1)
			}
		case reflect.Slice, reflect.Array:
			switch v.Type().Elem().Kind() {
			case reflect.Pointer, reflect.Interface, reflect.Slice, reflect.Map, reflect.Struct, reflect.Array:
				if !hasPointers(v.Type().Elem(), 0) {
					return
				}
				for i := 0; i < v.Len(); i++ {
					walk(v.Index(i), d+1)
				}
			}
		case reflect.Map:
			if hasPointers(v.Type().Elem(), 0) || hasPointers(v.Type().Key(), 0) {
				it := v.MapRange()
				for it.Next() {
					walk(it.Key(), d+1)
					walk(it.Value(), d+1)
				}
			}
		}
	}
	walk(reflect.ValueOf(b), 0)
	return res
}

func hasPointers(t reflect.Type, d int) bool {
	switch t.Kind() {
	case reflect.Pointer, reflect.Interface, reflect.Map, reflect.Slice, reflect.Func, reflect.Chan, reflect.UnsafePointer:
		return true
	case reflect.Array:
		return hasPointers(t.Elem(), d+1)
	case reflect.Struct:
		if d > 5 {
			return true
		}
		for i := 0; i < t.NumField(); i++ {
			if hasPointers(t.Field(i).Type, d+1) {
				return true
			}
		}
	}
	return false
}

// releaseTemps runs the finalizers of the references that the library created
// for itself since vrt.ResetFresh and did not keep.
func (e *Env) releaseTemps() {
	var temps []*int
	ptrs := map[uintptr]bool{}
	for _, p := range vrt.Fresh {
		if e.own[p] == 0 && vrt.HasFinalizer(p) {
			temps = append(temps, p)
			ptrs[uintptr(unsafe.Pointer(p))] = true
		}
	}
	vrt.ResetFresh()
	if len(temps) == 0 {
		return
	}
	kept := reachable(e.BDD, ptrs)
	for _, p := range temps {
		if !kept[uintptr(unsafe.Pointer(p))] {
			vrt.Drop(p)
		}
	}
}

func popcount(x uint) int { return bits.OnesCount(x) }
