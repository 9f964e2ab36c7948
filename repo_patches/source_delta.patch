From 4be679ef23c129878c8e6880ac5a3aedab239b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:43 +0000
Subject: [PATCH 01/21] fix: set difference with an empty left operand is empty

Apply(False, x, OPdiff) returned x instead of False.
---
 operations.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operations.go b/operations.go
index e4ccd8b..3c7cd77 100644
--- a/operations.go
+++ b/operations.go
@@ -236,7 +236,7 @@ func (b *BDD) apply(left int, right int) int {
 			return 0
 		}
 		if left == 0 {
-			return right
+			return 0
 		}
 	case OPless:
 		if (left == right) || (left == 1) {
-- 
2.43.0


From 4e68a00ac52693c5f8e7db9d1409698e607dc413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:44 +0000
Subject: [PATCH 02/21] fix: Exist over the empty variable set returns its
 operand

The test for an empty set came after quantset2cache, which rejects it, so
Exist(n, Makeset(nil)) returned nil and set the error status.
---
 operations.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/operations.go b/operations.go
index 3c7cd77..315c4a9 100644
--- a/operations.go
+++ b/operations.go
@@ -398,12 +398,12 @@ func (b *BDD) Exist(n, varset Node) Node {
 	if b.checkptr(varset) != nil {
 		return b.seterror("Wrong varset in call to Exist (%d)", *varset)
 	}
-	if err := b.quantset2cache(*varset); err != nil {
-		return nil
-	}
 	if *varset < 2 { // we have an empty set or a constant
 		return n
 	}
+	if err := b.quantset2cache(*varset); err != nil {
+		return nil
+	}
 
 	b.quantcache.id = cacheidEXIST
 	b.applycache.op = int(OPor)
-- 
2.43.0


From 0ca5f88628623369f3956a75ee87ac2b1a60e5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:45 +0000
Subject: [PATCH 03/21] fix: Allsat stops and returns the error of its callback

The recursion dropped the error, so the enumeration went on with other
branches and Allsat returned nil.
---
 operations.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/operations.go b/operations.go
index 315c4a9..89a6dd9 100644
--- a/operations.go
+++ b/operations.go
@@ -723,7 +723,7 @@ func (b *BDD) allsat(n int, prof []int, f func([]int) error) error {
 			prof[v] = -1
 		}
 		if err := b.allsat(low, prof, f); err != nil {
-			return nil
+			return err
 		}
 	}
 
@@ -733,7 +733,7 @@ func (b *BDD) allsat(n int, prof []int, f func([]int) error) error {
 			prof[v] = -1
 		}
 		if err := b.allsat(high, prof, f); err != nil {
-			return nil
+			return err
 		}
 	}
 	return nil
-- 
2.43.0


From 1651d07a42bc67a59088cf157b6ccb28bae28b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:46 +0000
Subject: [PATCH 04/21] fix: operations on a nil node report an error instead
 of panicking

The error messages dereferenced the node that had just been found to be nil,
so a chain of operations could not carry on after an error.
---
 operations.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/operations.go b/operations.go
index 89a6dd9..8996a8e 100644
--- a/operations.go
+++ b/operations.go
@@ -101,7 +101,7 @@ func (b *BDD) Makecube(varset []int, polarity []bool) Node {
 // the zero-terminal with references to the one-terminal and vice versa.
 func (b *BDD) Not(n Node) Node {
 	if b.checkptr(n) != nil {
-		return b.seterror("Wrong operand in call to Not (%d)", *n)
+		return b.seterror("Wrong operand in call to Not (%v)", n)
 	}
 	b.Initref()
 	b.Pushref(*n)
@@ -145,10 +145,10 @@ func (b *BDD) not(n int) int {
 //    OPinvimp      reverse implication      [1,0,1,1]
 func (b *BDD) Apply(n1, n2 Node, op Operator) Node {
 	if b.checkptr(n1) != nil {
-		return b.seterror("Wrong operand in call to Apply %s(n1: %d, n2: ...)", op, *n1)
+		return b.seterror("Wrong operand in call to Apply %s(n1: %v, n2: ...)", op, n1)
 	}
 	if b.checkptr(n2) != nil {
-		return b.seterror("Wrong operand in call to Apply %s(n1: ..., n2: %d)", op, *n2)
+		return b.seterror("Wrong operand in call to Apply %s(n1: ..., n2: %v)", op, n2)
 	}
 	b.applycache.op = int(op)
 	b.Initref()
@@ -305,13 +305,13 @@ func (b *BDD) apply(left int, right int) int {
 // & g) | (!f & h)] more efficiently than doing the three operations separately.
 func (b *BDD) Ite(f, g, h Node) Node {
 	if b.checkptr(f) != nil {
-		return b.seterror("Wrong operand in call to Ite (f: %d)", *f)
+		return b.seterror("Wrong operand in call to Ite (f: %v)", f)
 	}
 	if b.checkptr(g) != nil {
-		return b.seterror("Wrong operand in call to Ite (g: %d)", *g)
+		return b.seterror("Wrong operand in call to Ite (g: %v)", g)
 	}
 	if b.checkptr(h) != nil {
-		return b.seterror("Wrong operand in call to Ite (h: %d)", *h)
+		return b.seterror("Wrong operand in call to Ite (h: %v)", h)
 	}
 	b.Initref()
 	b.Pushref(*f)
@@ -393,10 +393,10 @@ func (b *BDD) ite(f, g, h int) int {
 // nil and set the error flag in b if there is an error.
 func (b *BDD) Exist(n, varset Node) Node {
 	if b.checkptr(n) != nil {
-		return b.seterror("Wrong node in call to Exist (n: %d)", *n)
+		return b.seterror("Wrong node in call to Exist (n: %v)", n)
 	}
 	if b.checkptr(varset) != nil {
-		return b.seterror("Wrong varset in call to Exist (%d)", *varset)
+		return b.seterror("Wrong varset in call to Exist (%v)", varset)
 	}
 	if *varset < 2 { // we have an empty set or a constant
 		return n
@@ -448,16 +448,16 @@ func (b *BDD) AppEx(n1, n2 Node, op Operator, varset Node) Node {
 		return b.seterror("operator %s not supported in call to AppEx")
 	}
 	if b.checkptr(varset) != nil {
-		return b.seterror("wrong varset in call to AppEx (%d)", *varset)
+		return b.seterror("wrong varset in call to AppEx (%v)", varset)
 	}
 	if *varset < 2 { // we have an empty set
 		return b.Apply(n1, n2, op)
 	}
 	if b.checkptr(n1) != nil {
-		return b.seterror("wrong operand in call to AppEx %s(left: %d)", op, *n1)
+		return b.seterror("wrong operand in call to AppEx %s(left: %v)", op, n1)
 	}
 	if b.checkptr(n2) != nil {
-		return b.seterror("wrong operand in call to AppEx %s(right: %d)", op, *n2)
+		return b.seterror("wrong operand in call to AppEx %s(right: %v)", op, n2)
 	}
 	if err := b.quantset2cache(*varset); err != nil {
 		return nil
@@ -592,7 +592,7 @@ func (b *BDD) appquant(left, right, varset int) int {
 // variables with new ones. See type Replacer.
 func (b *BDD) Replace(n Node, r Replacer) Node {
 	if b.checkptr(n) != nil {
-		return b.seterror("wrong operand in call to Replace (%d)", *n)
+		return b.seterror("wrong operand in call to Replace (%v)", n)
 	}
 	b.Initref()
 	b.Pushref(*n)
@@ -658,7 +658,7 @@ func (b *BDD) correctify(level int32, low, high int) int {
 func (b *BDD) Satcount(n Node) *big.Int {
 	res := big.NewInt(0)
 	if b.checkptr(n) != nil {
-		b.seterror("Wrong operand in call to Satcount (%d)", *n)
+		b.seterror("Wrong operand in call to Satcount (%v)", n)
 		return res
 	}
 	// We compute 2^level with a bit shift 1 << level
@@ -698,7 +698,7 @@ func (b *BDD) satcount(n int, satc map[int]*big.Int) *big.Int {
 // point.
 func (b *BDD) Allsat(f func([]int) error, n Node) error {
 	if b.checkptr(n) != nil {
-		return fmt.Errorf("wrong node in call to Allsat (%d)", *n)
+		return fmt.Errorf("wrong node in call to Allsat (%v)", n)
 	}
 	prof := make([]int, b.varnum)
 	for k := range prof {
-- 
2.43.0


From fb25c5aa171ba23bb4cd7478471867e7d4e25a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:26 +0000
Subject: [PATCH 05/21] fix: Ithvar and NIthvar reject indices that overflow an
 int32

The index was truncated before the range check, so Ithvar(1<<32) panicked.
---
 bdd.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bdd.go b/bdd.go
index 002580d..4b24291 100644
--- a/bdd.go
+++ b/bdd.go
@@ -263,7 +263,7 @@ func (b *BDD) checkptr(n Node) error {
 // expression xi), otherwise we set the error status in the BDD and returns the
 // nil node. The requested variable must be in the range [0..Varnum).
 func (b *BDD) Ithvar(i int) Node {
-	if (i < 0) || (int32(i) >= b.varnum) {
+	if (i < 0) || (i >= int(b.varnum)) {
 		return b.seterror("Unknown variable used (%d) in call to ithvar", i)
 	}
 	// we do not need to reference count variables
@@ -274,7 +274,7 @@ func (b *BDD) Ithvar(i int) Node {
 // success (the expression !xi), otherwise the nil node. See *ithvar* for
 // further info.
 func (b *BDD) NIthvar(i int) Node {
-	if (i < 0) || (int32(i) >= b.varnum) {
+	if (i < 0) || (i >= int(b.varnum)) {
 		return b.seterror("Unknown variable used (%d) in call to nithvar", i)
 	}
 	// we do not need to reference count variables
-- 
2.43.0


From 09163cf60b37e03237352e8b26ccfbb8a7418bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:26 +0000
Subject: [PATCH 06/21] fix: Makeset checks its variables and accepts them in
 any order

An index outside [0..Varnum) silently created a malformed node, and an unsorted
or repeating slice created a node that violates the variable order.
---
 operations.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/operations.go b/operations.go
index 8996a8e..043e13f 100644
--- a/operations.go
+++ b/operations.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"log"
 	"math/big"
+	"sort"
 )
 
 // Scanset returns the set of variables (levels) found when following the high
@@ -43,6 +44,19 @@ func (b *BDD) Makeset(varset []int) Node {
 	// 	res = tmp
 	// }
 	// return res
+	for _, v := range varset {
+		if (v < 0) || (v >= int(b.varnum)) {
+			b.seterror("Unknown variable used (%d) in call to Makeset", v)
+			return bddzero
+		}
+	}
+	// the construction below needs increasing levels
+	for k := 1; k < len(varset); k++ {
+		if varset[k-1] >= varset[k] {
+			varset = sortedset(varset)
+			break
+		}
+	}
 	res := 1
 	b.Initref()
 	for k := len(varset) - 1; k >= 0; k-- {
@@ -53,6 +67,20 @@ func (b *BDD) Makeset(varset []int) Node {
 	return b.Retnode(res)
 }
 
+// sortedset returns the elements of varset in increasing order and without
+// duplicates. The result is a fresh slice.
+func sortedset(varset []int) []int {
+	sorted := append([]int{}, varset...)
+	sort.Ints(sorted)
+	res := sorted[:0]
+	for k, v := range sorted {
+		if k == 0 || v != sorted[k-1] {
+			res = append(res, v)
+		}
+	}
+	return res
+}
+
 // Makecube returns a node corresponding to the conjunction (the cube) of all
 // the variables in varset. Unlike with Makeset, variable varset[k] occurs in
 // positive form in the result if polarity[k] is true, and in negative form if
-- 
2.43.0


From 8ab2852512f62474cf1fc79bfe7448678f1d1f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:27 +0000
Subject: [PATCH 07/21] fix: Makecube rejects variables outside [0..Varnum)

It silently created malformed nodes.
---
 operations.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/operations.go b/operations.go
index 043e13f..0bddc54 100644
--- a/operations.go
+++ b/operations.go
@@ -111,6 +111,11 @@ func (b *BDD) Makecube(varset []int, polarity []bool) Node {
 	if len(varset) != len(polarity) {
 		return b.seterror("wrong size for slices in Makecube")
 	}
+	for _, v := range varset {
+		if (v < 0) || (v >= int(b.varnum)) {
+			return b.seterror("Unknown variable used (%d) in call to Makecube", v)
+		}
+	}
 	b.Initref()
 	for k := len(polarity) - 1; k >= 0; k-- {
 		if polarity[k] {
-- 
2.43.0


From 705be17fcee26584449d28b24e1fd26347d2cbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:28 +0000
Subject: [PATCH 08/21] fix: NewReplacer checks indices before using them and
 rejects duplicates

An index out of range (or negative) panicked, and an index occurring twice in
newvars was accepted although the documentation promises an error.
---
 replace.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/replace.go b/replace.go
index 6a33658..aab2cba 100644
--- a/replace.go
+++ b/replace.go
@@ -74,14 +74,14 @@ func (b *BDD) NewReplacer(oldvars, newvars []int) (Replacer, error) {
 		res.image[k] = int32(k)
 	}
 	for k, v := range oldvars {
-		if support[v] {
-			return nil, fmt.Errorf("duplicate variable (%d) in oldvars", v)
-		}
-		if v >= varnum {
+		if (v < 0) || (v >= varnum) {
 			return nil, fmt.Errorf("invalid variable in oldvars (%d)", v)
 		}
-		if newvars[k] >= varnum {
-			return nil, fmt.Errorf("invalid variable in newvars (%d)", v)
+		if (newvars[k] < 0) || (newvars[k] >= varnum) {
+			return nil, fmt.Errorf("invalid variable in newvars (%d)", newvars[k])
+		}
+		if support[v] {
+			return nil, fmt.Errorf("duplicate variable (%d) in oldvars", v)
 		}
 		support[v] = true
 		res.image[v] = int32(newvars[k])
@@ -89,7 +89,12 @@ func (b *BDD) NewReplacer(oldvars, newvars []int) (Replacer, error) {
 			res.last = int32(v)
 		}
 	}
+	target := make([]bool, varnum)
 	for _, v := range newvars {
+		if target[v] {
+			return nil, fmt.Errorf("duplicate variable (%d) in newvars", v)
+		}
+		target[v] = true
 		if int(res.image[v]) != v {
 			return nil, fmt.Errorf("variable in newvars (%d) also occur in oldvars", v)
 		}
-- 
2.43.0


From 434649f2659d8b4aa0b61dcb6f103a37e4081d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:28 +0000
Subject: [PATCH 09/21] fix: Replace reports a nil replacer instead of
 panicking

NewReplacer returns nil on errors, so a chained call could not carry on.
---
 operations.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/operations.go b/operations.go
index 0bddc54..679742f 100644
--- a/operations.go
+++ b/operations.go
@@ -627,6 +627,9 @@ func (b *BDD) Replace(n Node, r Replacer) Node {
 	if b.checkptr(n) != nil {
 		return b.seterror("wrong operand in call to Replace (%v)", n)
 	}
+	if r == nil {
+		return b.seterror("nil replacer in call to Replace")
+	}
 	b.Initref()
 	b.Pushref(*n)
 	b.replacecache.id = r.Id()
-- 
2.43.0


From eac642319c7dcc0601ed0a641bf2cd033bec4180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:29 +0000
Subject: [PATCH 10/21] fix: an error inside Replace is propagated to its
 result

The value -1 that stands for an error was used as a node: Replace panicked, or
put nodes with successor -1 in the table and returned them.
---
 bdd.go        | 3 +++
 operations.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/bdd.go b/bdd.go
index 4b24291..eaf69a0 100644
--- a/bdd.go
+++ b/bdd.go
@@ -167,6 +167,9 @@ func (b *BDD) Varnum() int {
 // exist or creates a new one in the BDD. You can create a node from the value
 // returned by Makenode using function Retnode.
 func (b *BDD) Makenode(level int32, low, high int) int {
+	if low < 0 || high < 0 { // an error occurred while building a successor
+		return -1
+	}
 	res, err := b.tables.makenode(level, low, high, b.refstack)
 	if err == nil {
 		return res
diff --git a/operations.go b/operations.go
index 679742f..c26b746 100644
--- a/operations.go
+++ b/operations.go
@@ -654,6 +654,9 @@ func (b *BDD) replace(n int, r Replacer) int {
 }
 
 func (b *BDD) correctify(level int32, low, high int) int {
+	if low < 0 || high < 0 { // an error occurred below
+		return -1
+	}
 	/* FIXME: we do not use the cache here */
 	if (level < b.level(low)) && (level < b.level(high)) {
 		return b.Makenode(level, low, high)
-- 
2.43.0


From d3a450d27c7dd2e76c7644329fc9105ad29c6b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:28 +0000
Subject: [PATCH 11/21] fix: a saturated reference count sticks

References taken beyond _MAXREFCOUNT are not counted, but the finalizers of the
first ones still decremented the counter, so a node could be reclaimed while it
was referenced. In hudd the mark bit shares the word with the counter.
---
 buddy.go | 6 +++++-
 hudd.go  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/buddy.go b/buddy.go
index 3f6e8c3..4109d55 100644
--- a/buddy.go
+++ b/buddy.go
@@ -126,7 +126,11 @@ func New(varnum int, options ...func(*configs)) (*BDD, error) {
 				log.Printf("dec refcou %d\n", *n)
 			}
 		}
-		impl.nodes[*n].refcou--
+		// once the counter has reached its maximum we have lost count, and the
+		// node must stick
+		if impl.nodes[*n].refcou < _MAXREFCOUNT {
+			impl.nodes[*n].refcou--
+		}
 	}
 	for k := 0; k < config.varnum; k++ {
 		v0, _ := impl.makenode(int32(k), 0, 1, nil)
diff --git a/hudd.go b/hudd.go
index bd817d1..885fe9e 100644
--- a/hudd.go
+++ b/hudd.go
@@ -150,7 +150,11 @@ func New(varnum int, options ...func(*configs)) (*BDD, error) {
 				log.Printf("dec refcou %d\n", *n)
 			}
 		}
-		impl.nodes[*n].refcou--
+		// once the counter has reached its maximum we have lost count, and the
+		// node must stick
+		if (impl.nodes[*n].refcou & 0x1FFFFF) < _MAXREFCOUNT {
+			impl.nodes[*n].refcou--
+		}
 	}
 	b.tables = impl
 	b.cacheinit(config)
-- 
2.43.0


From 84d617ef9ebac4d04e570c6bf1eefbdb12a74547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:29 +0000
Subject: [PATCH 12/21] fix: protect reference counts against the finalizer
 goroutine

Retnode incremented the counter without the lock that the finalizer holds while
decrementing it (buddy had no lock at all), so an increment could be lost and a
node reclaimed while referenced; a decrement during the copy of a resize was
lost too.
---
 bkernel.go | 10 +++++++++-
 buddy.go   |  4 ++++
 hkernel.go | 11 ++++++++++-
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/bkernel.go b/bkernel.go
index 9983ede..fa616e7 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -29,6 +29,8 @@ func (b *tables) Retnode(n int) Node {
 		return bddone
 	}
 	x := n
+	b.reflock.Lock()
+	defer b.reflock.Unlock()
 	if b.nodes[n].refcou < _MAXREFCOUNT {
 		b.nodes[n].refcou++
 		runtime.SetFinalizer(&x, b.nodefinalizer)
@@ -134,9 +136,12 @@ func (b *tables) noderesize() error {
 		return errMemory
 	}
 
+	// finalizers should not update the reference counters during the copy
+	b.reflock.Lock()
 	tmp := b.nodes
 	b.nodes = make([]buddynode, nodesize)
 	copy(b.nodes, tmp)
+	b.reflock.Unlock()
 
 	for n := 0; n < oldsize; n++ {
 		b.nodes[n].hash = 0
@@ -218,7 +223,10 @@ func (b *tables) gbc(refstack []int) {
 	// we also protect nodes with a positive refcount (and therefore also the
 	// ones with a MAXREFCOUNT, such has variables)
 	for k := range b.nodes {
-		if b.nodes[k].refcou > 0 {
+		b.reflock.Lock()
+		referenced := b.nodes[k].refcou > 0
+		b.reflock.Unlock()
+		if referenced {
 			b.markrec(k)
 		}
 		b.nodes[k].hash = 0
diff --git a/buddy.go b/buddy.go
index 4109d55..9204fc0 100644
--- a/buddy.go
+++ b/buddy.go
@@ -9,6 +9,7 @@ package rudd
 import (
 	"fmt"
 	"log"
+	"sync"
 	"sync/atomic"
 	"unsafe"
 )
@@ -21,6 +22,7 @@ type tables struct {
 	freenum       int         // Number of free nodes
 	freepos       int         // First free node
 	produced      int         // Total number of new nodes ever produced
+	reflock       sync.Mutex  // Protects the reference counters, since finalizers run on their own goroutine
 	nodefinalizer interface{} // Finalizer used to decrement the ref count of external references
 	uniqueAccess  int         // accesses to the unique node table
 	uniqueChain   int         // iterations through the cache chains in the unique node table
@@ -120,6 +122,8 @@ func New(varnum int, options ...func(*configs)) (*BDD, error) {
 	impl.freenum = nodesize - 2
 	impl.gcstat.history = []gcpoint{}
 	impl.nodefinalizer = func(n *int) {
+		impl.reflock.Lock()
+		defer impl.reflock.Unlock()
 		if _DEBUG {
 			atomic.AddUint64(&(impl.gcstat.calledfinalizers), 1)
 			if _LOGLEVEL > 2 {
diff --git a/hkernel.go b/hkernel.go
index 554c344..b0632ae 100644
--- a/hkernel.go
+++ b/hkernel.go
@@ -29,6 +29,9 @@ func (b *tables) Retnode(n int) Node {
 		return bddone
 	}
 	x := n
+	// finalizers run on their own goroutine
+	b.Lock()
+	defer b.Unlock()
 	if b.nodes[n].refcou < _MAXREFCOUNT {
 		b.nodes[n].refcou++
 		runtime.SetFinalizer(&x, b.nodefinalizer)
@@ -119,7 +122,10 @@ func (b *tables) gbc(refstack []int) {
 	// we also protect nodes with a positive refcount (and therefore also the
 	// ones with a MAXREFCOUNT, such has variables)
 	for k := range b.nodes {
-		if b.nodes[k].refcou > 0 {
+		b.RLock()
+		referenced := b.nodes[k].refcou > 0
+		b.RUnlock()
+		if referenced {
 			b.markrec(k)
 		}
 	}
@@ -176,9 +182,12 @@ func (b *tables) noderesize() error {
 		return errMemory
 	}
 
+	// finalizers should not update the reference counters during the copy
+	b.Lock()
 	tmp := b.nodes
 	b.nodes = make([]huddnode, nodesize)
 	copy(b.nodes, tmp)
+	b.Unlock()
 
 	for n := oldsize; n < nodesize; n++ {
 		b.nodes[n].refcou = 0
-- 
2.43.0


From d7a675941e8bf3c7afa93126d8e7367f0f2a064a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:30 +0000
Subject: [PATCH 13/21] fix: replacer ids are unique when BDDs are used from
 several goroutines

_REPLACEID is shared by all BDDs and was incremented without synchronization:
two replacers of one BDD could get the same id, and then share cached results.
---
 replace.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/replace.go b/replace.go
index aab2cba..e22d4fe 100644
--- a/replace.go
+++ b/replace.go
@@ -7,10 +7,14 @@ package rudd
 import (
 	"fmt"
 	"math"
+	"sync"
 )
 
 var _REPLACEID = 1
 
+// replacelock protects _REPLACEID, which is shared by all the BDDs
+var replacelock sync.Mutex
+
 // Replacer is the types of substitution objects used in a Replace operation,
 // that substitutes variables in a BDD "function". The only method returning an
 // object of this type is the NewReplacer method. The result obtained when using
@@ -62,6 +66,8 @@ func (b *BDD) NewReplacer(oldvars, newvars []int) (Replacer, error) {
 	if len(oldvars) != len(newvars) {
 		return nil, fmt.Errorf("unmatched length of slices")
 	}
+	replacelock.Lock()
+	defer replacelock.Unlock()
 	if _REPLACEID == (math.MaxInt32 >> 2) {
 		return nil, fmt.Errorf("too many replacers created")
 	}
-- 
2.43.0


From 1008f53dd8a5f631e9857739591cf4391db111ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:31 +0000
Subject: [PATCH 14/21] fix: the nodes traversed by Allsat and Allnodes stay
 alive

When the caller keeps no other reference, the node could be finalized during the
traversal and reclaimed by an operation of the callback.
---
 operations.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/operations.go b/operations.go
index c26b746..e07f5cf 100644
--- a/operations.go
+++ b/operations.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"log"
 	"math/big"
+	"runtime"
 	"sort"
 )
 
@@ -739,6 +740,8 @@ func (b *BDD) Allsat(f func([]int) error, n Node) error {
 	if b.checkptr(n) != nil {
 		return fmt.Errorf("wrong node in call to Allsat (%v)", n)
 	}
+	// f may create nodes, in which case n should not be reclaimed
+	defer runtime.KeepAlive(n)
 	prof := make([]int, b.varnum)
 	for k := range prof {
 		prof[k] = -1
@@ -793,7 +796,9 @@ func (b *BDD) Allnodes(f func(id, level, low, high int) error, n ...Node) error
 		}
 	}
 	// the function does not create new nodes, so we do not need to take care of
-	// possible resizing.
+	// possible resizing. But f may create nodes, in which case the nodes in n
+	// should not be reclaimed.
+	defer runtime.KeepAlive(n)
 	if len(n) == 0 {
 		// we call f over all active nodes
 		return b.allnodes(f)
-- 
2.43.0


From 80dcdde6feb9adb3c3722789549fbc10c87fb818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:31 +0000
Subject: [PATCH 15/21] fix: the callback of Allnodes can use the BDD

Nodes not visited yet still carried their mark while the callback ran. The mark
changes the level of a node in buddy, and makes Retnode skip the reference count
in hudd.
---
 bkernel.go |  9 ---------
 buddy.go   | 12 ++++++++----
 hkernel.go |  9 ---------
 hudd.go    | 23 +++++++++--------------
 4 files changed, 17 insertions(+), 36 deletions(-)

diff --git a/bkernel.go b/bkernel.go
index fa616e7..2b20b56 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -264,12 +264,3 @@ func (b *tables) markrec(n int) {
 	b.markrec(b.nodes[n].low)
 	b.markrec(b.nodes[n].high)
 }
-
-func (b *tables) unmarkall() {
-	for k, v := range b.nodes {
-		if k < 2 || !b.ismarked(k) || (v.low == -1) {
-			continue
-		}
-		b.unmarknode(k)
-	}
-}
diff --git a/buddy.go b/buddy.go
index 9204fc0..f134091 100644
--- a/buddy.go
+++ b/buddy.go
@@ -186,13 +186,17 @@ func (b *tables) allnodesfrom(f func(id, level, low, high int) error, n []Node)
 	// 	b.unmarkall()
 	// 	return err
 	// }
+	// we clear all the marks before calling f, which may itself use the BDD
+	marked := []int{}
 	for k := range b.nodes {
 		if b.ismarked(k) {
 			b.unmarknode(k)
-			if err := f(k, int(b.nodes[k].level), b.nodes[k].low, b.nodes[k].high); err != nil {
-				b.unmarkall()
-				return err
-			}
+			marked = append(marked, k)
+		}
+	}
+	for _, k := range marked {
+		if err := f(k, int(b.nodes[k].level), b.nodes[k].low, b.nodes[k].high); err != nil {
+			return err
 		}
 	}
 	return nil
diff --git a/hkernel.go b/hkernel.go
index b0632ae..dcd6c44 100644
--- a/hkernel.go
+++ b/hkernel.go
@@ -216,12 +216,3 @@ func (b *tables) markrec(n int) {
 	b.markrec(b.nodes[n].low)
 	b.markrec(b.nodes[n].high)
 }
-
-func (b *tables) unmarkall() {
-	for k, v := range b.nodes {
-		if k < 2 || !b.ismarked(k) || (v.low == -1) {
-			continue
-		}
-		b.unmarknode(k)
-	}
-}
diff --git a/hudd.go b/hudd.go
index 885fe9e..803c7d3 100644
--- a/hudd.go
+++ b/hudd.go
@@ -256,22 +256,17 @@ func (b *tables) allnodesfrom(f func(id, level, low, high int) error, n []Node)
 	// 	b.unmarkall()
 	// 	return err
 	// }
-	b.RLock()
-	count := len(b.nodes)
-	b.RUnlock()
-
-	for k := 0; k < count; k++ {
-		b.RLock()
-		if k >= len(b.nodes) {
-			break
-		}
-		b.RUnlock()
+	// we clear all the marks before calling f, which may itself use the BDD
+	marked := []int{}
+	for k := range b.nodes {
 		if b.ismarked(k) {
 			b.unmarknode(k)
-			if err := f(k, int(b.nodes[k].level), b.nodes[k].low, b.nodes[k].high); err != nil {
-				b.unmarkall()
-				return err
-			}
+			marked = append(marked, k)
+		}
+	}
+	for _, k := range marked {
+		if err := f(k, int(b.nodes[k].level), b.nodes[k].low, b.nodes[k].high); err != nil {
+			return err
 		}
 	}
 	return nil
-- 
2.43.0


From cf2ba0bd03fe2e11b256b75f95fa115de8c7be2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:22 +0000
Subject: [PATCH 16/21] fix: buddy can grow by less than the gap to the next
 prime

With a small Maxnodeincrease, the largest prime in reach could be the current
size; operations then returned nil, without an error, although there was no
limit on the number of nodes.
---
 bkernel.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bkernel.go b/bkernel.go
index 2b20b56..1b301a4 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -132,6 +132,10 @@ func (b *tables) noderesize() error {
 	}
 	nodesize = primeLte(nodesize)
 	if nodesize <= oldsize {
+		// maxnodeincrease is smaller than the gap to the next prime
+		nodesize = primeGte(oldsize + 1)
+	}
+	if (nodesize > b.maxnodesize) && (b.maxnodesize > 0) {
 		// b.seterror("Unable to grow size of BDD (%d nodes)", nodesize)
 		return errMemory
 	}
-- 
2.43.0


From 90fcd34d216d7995f15bf44d3305fc422e311cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:23 +0000
Subject: [PATCH 17/21] fix: enforce Maxnodesize

The option was never copied to the node table. When it is, an operation that
cannot allocate a node now uses the free nodes left after a collection, then
fails quickly, returns nil and sets the error status; the caches are reset
because there was a collection.
---
 bdd.go        |  9 ++++++++-
 bkernel.go    |  8 ++++----
 buddy.go      |  1 +
 hkernel.go    |  6 +++---
 hudd.go       |  1 +
 operations.go | 20 +++++++++++++++++++-
 6 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/bdd.go b/bdd.go
index eaf69a0..902be27 100644
--- a/bdd.go
+++ b/bdd.go
@@ -153,6 +153,7 @@ type BDD struct {
 	varset   [][2]int // Set of variables used for Ithvar and NIthvar: we have a pair for each variable for its positive and negative occurrence
 	refstack []int    // Internal node reference stack, used to avoid collecting nodes while they are being processed.
 	error             // Error status: we use nil Nodes to signal a problem and store the error in this field. This help chain operations together.
+	nomemory bool     // True if the current operation failed because we could not allocate a node.
 	caches            // Set of caches used for the operations in the BDD
 	*tables           // Underlying struct that encapsulates the list of nodes
 }
@@ -167,7 +168,7 @@ func (b *BDD) Varnum() int {
 // exist or creates a new one in the BDD. You can create a node from the value
 // returned by Makenode using function Retnode.
 func (b *BDD) Makenode(level int32, low, high int) int {
-	if low < 0 || high < 0 { // an error occurred while building a successor
+	if low < 0 || high < 0 || b.nomemory { // an error occurred while building a successor
 		return -1
 	}
 	res, err := b.tables.makenode(level, low, high, b.refstack)
@@ -186,6 +187,11 @@ func (b *BDD) Makenode(level int32, low, high int) int {
 		b.cacheresize(b.size())
 		return res
 	}
+	// There was a garbage collection also in this case. We let the current
+	// operation fail quickly.
+	b.cachereset()
+	b.nomemory = true
+	b.seterror("%s", err)
 	return res
 }
 
@@ -205,6 +211,7 @@ type caches struct {
 // Initref in a function that creates new nodes.
 func (b *BDD) Initref() {
 	b.refstack = b.refstack[:0]
+	b.nomemory = false
 }
 
 // Pushref is a kernel function of the BDD package. Use it at your own risk.
diff --git a/bkernel.go b/bkernel.go
index 1b301a4..abec4a5 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -80,11 +80,11 @@ func (b *tables) makenode(level int32, low, high int, refstack []int) (int, erro
 		err = errReset
 		// We also test if we are under the threshold for resising.
 		if (b.freenum*100)/len(b.nodes) <= b.minfreenodes {
-			err = b.noderesize()
-			if err != errResize {
-				return -1, errMemory
+			// if we cannot resize, we can still use what is left
+			if b.noderesize() == errResize {
+				err = errResize
+				hash = b.nodehash(level, low, high)
 			}
-			hash = b.nodehash(level, low, high)
 		}
 		// Panic if we still have no free positions after all this
 		if b.freepos == 0 {
diff --git a/buddy.go b/buddy.go
index f134091..c3bdb88 100644
--- a/buddy.go
+++ b/buddy.go
@@ -96,6 +96,7 @@ func New(varnum int, options ...func(*configs)) (*BDD, error) {
 	b.error = nil
 	impl := &tables{}
 	impl.minfreenodes = config.minfreenodes
+	impl.maxnodesize = config.maxnodesize
 	impl.maxnodeincrease = config.maxnodeincrease
 	nodesize := primeGte(config.nodesize)
 	impl.nodes = make([]buddynode, nodesize)
diff --git a/hkernel.go b/hkernel.go
index dcd6c44..3efc2e7 100644
--- a/hkernel.go
+++ b/hkernel.go
@@ -73,9 +73,9 @@ func (b *tables) makenode(level int32, low int, high int, refstack []int) (int,
 		err = errReset
 		// We also test if we are under the threshold for resising.
 		if (b.freenum*100)/len(b.nodes) <= b.minfreenodes {
-			err = b.noderesize()
-			if err != errResize {
-				return -1, errMemory
+			// if we cannot resize, we can still use what is left
+			if b.noderesize() == errResize {
+				err = errResize
 			}
 		}
 		// Panic if we still have no free positions after all this
diff --git a/hudd.go b/hudd.go
index 803c7d3..0255dea 100644
--- a/hudd.go
+++ b/hudd.go
@@ -94,6 +94,7 @@ func New(varnum int, options ...func(*configs)) (*BDD, error) {
 	b.error = nil
 	impl := &tables{}
 	impl.minfreenodes = config.minfreenodes
+	impl.maxnodesize = config.maxnodesize
 	impl.maxnodeincrease = config.maxnodeincrease
 	// initializing the list of nodes
 	nodesize := config.nodesize
diff --git a/operations.go b/operations.go
index e07f5cf..c361d22 100644
--- a/operations.go
+++ b/operations.go
@@ -145,6 +145,9 @@ func (b *BDD) Not(n Node) Node {
 }
 
 func (b *BDD) not(n int) int {
+	if b.nomemory {
+		return -1
+	}
 	if n == 0 {
 		return 1
 	}
@@ -194,6 +197,9 @@ func (b *BDD) Apply(n1, n2 Node, op Operator) Node {
 }
 
 func (b *BDD) apply(left int, right int) int {
+	if b.nomemory {
+		return -1
+	}
 	switch Operator(b.applycache.op) {
 	case OPand:
 		if left == right {
@@ -389,6 +395,9 @@ func min3(p, q, r int32) int32 {
 }
 
 func (b *BDD) ite(f, g, h int) int {
+	if b.nomemory {
+		return -1
+	}
 	switch {
 	case f == 1:
 		return g
@@ -450,6 +459,9 @@ func (b *BDD) Exist(n, varset Node) Node {
 }
 
 func (b *BDD) quant(n, varset int) int {
+	if b.nomemory {
+		return -1
+	}
 	if (n < 2) || (b.level(n) > b.quantlast) {
 		return n
 	}
@@ -511,6 +523,9 @@ func (b *BDD) AppEx(n1, n2 Node, op Operator, varset Node) Node {
 }
 
 func (b *BDD) appquant(left, right, varset int) int {
+	if b.nomemory {
+		return -1
+	}
 	switch Operator(b.appexcache.op) {
 	case OPand:
 		if left == 0 || right == 0 {
@@ -640,6 +655,9 @@ func (b *BDD) Replace(n Node, r Replacer) Node {
 }
 
 func (b *BDD) replace(n int, r Replacer) int {
+	if b.nomemory {
+		return -1
+	}
 	image, ok := r.Replace(b.level(n))
 	if !ok {
 		return n
@@ -655,7 +673,7 @@ func (b *BDD) replace(n int, r Replacer) int {
 }
 
 func (b *BDD) correctify(level int32, low, high int) int {
-	if low < 0 || high < 0 { // an error occurred below
+	if low < 0 || high < 0 || b.nomemory { // an error occurred below
 		return -1
 	}
 	/* FIXME: we do not use the cache here */
-- 
2.43.0


From 3140abe0f89a0fe60f434cec297a09c2654bc430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:48 +0000
Subject: [PATCH 18/21] fix: failed operations return nil, not panic, also in
 debug builds

Retnode panicked in debug builds on -1, the value that stands for an operation
that has reported an error.
---
 bkernel.go | 3 +++
 hkernel.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/bkernel.go b/bkernel.go
index abec4a5..7f6f9e8 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -16,6 +16,9 @@ import (
 // Retnode is a kernel function of the BDD package. Use it at your own risk.
 // Retnode returns a valid node from the value returned by a call to Makenode.
 func (b *tables) Retnode(n int) Node {
+	if n == -1 { // the operation failed and has set the error status
+		return nil
+	}
 	if n < 0 || n > len(b.nodes) {
 		if _DEBUG {
 			log.Panicf("unexpected error; b.retnode(%d) not valid\n", n)
diff --git a/hkernel.go b/hkernel.go
index 3efc2e7..c8676bd 100644
--- a/hkernel.go
+++ b/hkernel.go
@@ -16,6 +16,9 @@ import (
 // Retnode is a kernel function of the BDD package. Use it at your own risk.
 // Retnode returns a valid node from the value returned by a call to Makenode.
 func (b *tables) Retnode(n int) Node {
+	if n == -1 { // the operation failed and has set the error status
+		return nil
+	}
 	if n < 0 || n > len(b.nodes) {
 		if _DEBUG {
 			log.Panicf("b.retnode(%d) not valid\n", n)
-- 
2.43.0


From 09eddc110ed66ac09abbe11b5960ffe140077487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:28 +0000
Subject: [PATCH 19/21] fix: And and Or check an operand that is alone

They returned it as it was, also when it is not a node of the BDD.
---
 bdd.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bdd.go b/bdd.go
index 902be27..90d8bca 100644
--- a/bdd.go
+++ b/bdd.go
@@ -327,6 +327,9 @@ func (b *BDD) High(n Node) Node {
 // computes the intersection of a sequence of Boolean vectors.
 func (b *BDD) And(n ...Node) Node {
 	if len(n) == 1 {
+		if b.checkptr(n[0]) != nil {
+			return b.seterror("Wrong operand in call to And (%v)", n[0])
+		}
 		return n[0]
 	}
 	if len(n) == 0 {
@@ -339,6 +342,9 @@ func (b *BDD) And(n ...Node) Node {
 // the union of a sequence of Boolean vectors.
 func (b *BDD) Or(n ...Node) Node {
 	if len(n) == 1 {
+		if b.checkptr(n[0]) != nil {
+			return b.seterror("Wrong operand in call to Or (%v)", n[0])
+		}
 		return n[0]
 	}
 	if len(n) == 0 {
-- 
2.43.0


From 80bc2eb0c8a768643d5dbfcb3ab5609f6626bdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:29 +0000
Subject: [PATCH 20/21] fix: Dot returns an error when it is given an illegal
 node

It ignored the error of Allnodes, and returned nil after writing an empty graph.
---
 stdio.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stdio.go b/stdio.go
index 05686f8..04e3524 100644
--- a/stdio.go
+++ b/stdio.go
@@ -100,7 +100,7 @@ func (b *BDD) Dot(w io.Writer, n ...Node) error {
 	// False constant.
 	fmt.Fprintln(w, "digraph G {")
 	fmt.Fprintln(w, "1 [shape=box, label=\"1\", style=filled, shape=box, height=0.3, width=0.3];")
-	_ = b.Allnodes(func(id, level, low, high int) error {
+	err := b.Allnodes(func(id, level, low, high int) error {
 		if id > 1 {
 			fmt.Fprintf(w, "%d %s\n", id, dotlabel(id, level))
 			if low != 0 {
@@ -113,7 +113,7 @@ func (b *BDD) Dot(w io.Writer, n ...Node) error {
 		return nil
 	}, n...)
 	fmt.Fprintln(w, "}")
-	return nil
+	return err
 }
 
 func dotlabel(a int, b int) string {
-- 
2.43.0


From 86dbcb18a1d39657650a2016c0b77cebe6258374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:08 +0000
Subject: [PATCH 21/21] fix: Retnode rejects an id equal to the size of the
 table

---
 bkernel.go | 2 +-
 hkernel.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bkernel.go b/bkernel.go
index 7f6f9e8..87a144f 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -19,7 +19,7 @@ func (b *tables) Retnode(n int) Node {
 	if n == -1 { // the operation failed and has set the error status
 		return nil
 	}
-	if n < 0 || n > len(b.nodes) {
+	if n < 0 || n >= len(b.nodes) {
 		if _DEBUG {
 			log.Panicf("unexpected error; b.retnode(%d) not valid\n", n)
 		}
diff --git a/hkernel.go b/hkernel.go
index c8676bd..49d5c79 100644
--- a/hkernel.go
+++ b/hkernel.go
@@ -19,7 +19,7 @@ func (b *tables) Retnode(n int) Node {
 	if n == -1 { // the operation failed and has set the error status
 		return nil
 	}
-	if n < 0 || n > len(b.nodes) {
+	if n < 0 || n >= len(b.nodes) {
 		if _DEBUG {
 			log.Panicf("b.retnode(%d) not valid\n", n)
 		}
-- 
2.43.0

