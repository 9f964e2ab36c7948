package main

import (
	"fmt"

	"github.com/dalzilio/rudd"
)

// reuseNodes looks at a function, drops it, lets a collection (and a resize) happen,
// builds another one in the slots that are free again, and looks at that: what
// is seen must be about the node as it is now. look checks what is seen of n,
// whose function is f.
func reuseNodes(c *Ctx, letter string, look func(e *Env, s *Snap, n rudd.Node, f T, what string)) {
	stride := c.Quick(2, 1)
	for _, mode := range []string{"gc", "resize", "ratio"} {
		for blk := 0; blk < 16; blk++ {
			mode, blk := mode, blk
			c.Unit(fmt.Sprintf("%s.%s.%d", letter, mode, blk), func(u *U) {
				var e *Env
				var fl *filler
				for f := T(blk * 16); f < T(blk*16+16); f++ {
					e = nil
					for g := T(0); g < 256; g++ {
						if int(f+g)%stride != 0 {
							continue
						}
						if e == nil || mode != "gc" {
							u.Reset()
							e, fl = gcEnv(u, mode, 0)
						}
						for k := 0; k < int(f)&3; k++ {
							fl.add() // shifts the identities
						}
						n := e.mk(f)
						s := e.Snapshot()
						what := fmt.Sprintf("%02x, then %02x (%s)", f, g, mode)
						u.T("look at %02x, drop it, collection, look at %02x (%s)", f, g, mode)
						look(e, s, n, f, what+", first")
						look(e, s, n, f, what+", first, again")
						held := g&1 == 1
						if !held {
							e.drop(n)
						}
						e.releaseTemps()
						fl.gc()
						for k := 0; k < int(g>>1)&3; k++ {
							fl.add()
						}
						m := e.mk(g)
						s = e.Snapshot()
						if held {
							look(e, s, n, f, what+", first, after the collection")
							e.drop(n)
						}
						look(e, s, m, g, what+", second")
						if e.Errored() {
							u.Fail("%s: an error is reported: %s", what, clip(e.Error()))
						}
						e.drop(m)
						e.releaseTemps()
						u.Eval()
						u.Nontrivial()
						u.Done()
					}
				}
			})
		}
	}
}
