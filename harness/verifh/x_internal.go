//go:build verifx

package main

// Sub tests that call unexported functions through the export hooks of ../verifx.
// If the hooks do not compile against the current source they are left out.

import (
	"fmt"
	"sort"

	"github.com/TopoSimplify/plugin/constdp"
	"github.com/TopoSimplify/plugin/constrain"
	"github.com/TopoSimplify/plugin/hdb"
	"github.com/TopoSimplify/plugin/node"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"
)

func init() {
	internalIndex = hdb.VxEncloses

	reg("C16", "chunks", "0-70 items over 1-17 workers: every item once, in order", func(c *Case) {
		var n, k = c.Intn(2 + c.Size(0, 70)), 1 + c.Intn(17)
		if c.Chance(0.3) {
			k = constdp.ConcurProcs
		}
		c.In("%d items, %d workers", n, k)
		c.Key(fmt.Sprint(n, k))
		var vs = make([]*node.Node, n)
		var ws = make([]*constdp.ConstDP, n)
		for i := range vs {
			vs[i], ws[i] = &node.Node{Id: i}, &constdp.ConstDP{}
		}
		var i = 0
		for _, ch := range constdp.VxChunkTasks(vs, k) {
			for _, o := range ch {
				if i >= n || o != vs[i] {
					c.Fail("chunkTasks: item %d is not the one expected", i)
					return
				}
				i++
			}
		}
		if i != n {
			c.Fail("chunkTasks: %d of %d items", i, n)
		}
		i = 0
		for _, ch := range constdp.VxChunkInstances(ws, k) {
			for _, o := range ch {
				if i >= n || o != ws[i] {
					c.Fail("chunkInstances: item %d is not the one expected", i)
					return
				}
				i++
			}
		}
		if i != n {
			c.Fail("chunkInstances: %d of %d items", i, n)
		}
	})

	// pieces of several lines in one index
	var forest = func(c *Case, id *iter.Igen) ([]node.Node, []*constdp.ConstDP, *hdb.Hdb) {
		var o = genOpts(c)
		var sh = genShapes(c, c.Intn(4), 0, 8)
		var nm, sc = genScore(c)
		c.In("opts %s metric %s contexts %s", optStr(o), nm, shapesStr(sh))
		var all []node.Node
		var selfs []*constdp.ConstDP
		for l := 1 + c.Intn(4); l > 0; l-- {
			var pts = genGrid(c, c.Size(2, 16), 7)
			var cdp = newDP(100+l*3, pts, sh, o, sc)
			var s = 0
			var rs = ""
			for i := 1; i < len(pts); i++ {
				if i == len(pts)-1 || c.Chance(0.4) {
					var p = piece(id, cdp.Polyline, s, i, nil)
					p.Instance = cdp
					rs += fmt.Sprintf(" %d-%d", s, i)
					all = append(all, p)
					s = i
				}
			}
			if c.Chance(0.5) {
				cdp.State().MarkClean()
			}
			selfs = append(selfs, cdp)
			c.In("line %d %s pieces%s clean %v", cdp.Id(), ptsStr(pts), rs, cdp.State().IsClean())
		}
		c.R.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		return all, selfs, hdb.NewHdb().Load(all)
	}

	reg("C16", "find-invalid", "pieces of 1-4 lines: the pieces reported by the parallel search equal those found one by one; non-trivial: some piece is reported", func(c *Case) {
		var id = iter.NewIgen()
		var all, _, db = forest(c, id)
		var want = map[*node.Node]bool{}
		for i := range all {
			var h = &all[i]
			var self = h.Instance.(*constdp.ConstDP)
			if h.Range.Size() == 1 {
				continue
			}
			var sel []*node.Node
			var ok = true
			if self.Opts.AvoidNewSelfIntersects {
				ok = constrain.ByFeatureClassIntersection(self.Opts, h, db, &sel)
			}
			if ok {
				self.ValidateContextRelation(h, &sel)
			}
			for _, o := range sel {
				want[o] = true
			}
		}
		if len(want) == 0 {
			c.Trivial()
		}
		for _, k := range []int{constdp.ConcurProcs, 1, 3} {
			var got = constdp.VxFind(all, db, k)
			for o := range got {
				if !want[o] {
					c.Fail("%d workers: piece %v of line %d is reported", k, o.Range, o.Instance.Id())
				}
			}
			for o := range want {
				if _, ok := got[o]; !ok {
					c.Fail("%d workers: piece %v of line %d is not reported", k, o.Range, o.Instance.Id())
				}
			}
		}
	})

	reg("C17", "round", "a random selection of the pieces of 1-4 lines is refined: two parts per selected piece, meeting inside, lines marked, index updated; non-trivial: something is divided", func(c *Case) {
		var id = iter.NewIgen()
		var all, selfs, db = forest(c, id)
		var sel = map[*node.Node]struct{}{}
		var clean = map[*constdp.ConstDP]bool{}
		for _, s := range selfs {
			clean[s] = s.State().IsClean()
		}
		var divided = map[*constdp.ConstDP]bool{}
		var want, keep []string
		var name = func(h *node.Node) string {
			return fmt.Sprintf("%d:%d-%d", h.Instance.Id(), h.Range.I, h.Range.J)
		}
		for i := range all {
			if c.Chance(0.4) {
				c.In("selected %s", name(&all[i]))
				sel[&all[i]] = struct{}{}
			} else {
				keep = append(keep, name(&all[i]))
			}
		}
		var out = constdp.VxDeform(id, sel)
		var byStart = map[string]*node.Node{}
		for i := range out {
			var k = fmt.Sprintf("%d:%d", out[i].Instance.Id(), out[i].Range.I)
			if byStart[k] != nil {
				c.Fail("two parts start at %s", k)
			}
			byStart[k] = &out[i]
			keep = append(keep, name(&out[i]))
		}
		var n = 0
		for h := range sel {
			var line = h.Instance.(*constdp.ConstDP)
			var a = byStart[fmt.Sprintf("%d:%d", line.Id(), h.Range.I)]
			if a == nil || a.Instance != h.Instance {
				c.Fail("%s has no part at its start", name(h))
				continue
			}
			if h.Range.Size() == 1 {
				n++
				if a.Range != h.Range || a.Id != h.Id {
					c.Fail("%s is not handed on unchanged", name(h))
				}
				continue
			}
			n += 2
			divided[line] = true
			if a.Range.J <= h.Range.I || a.Range.J >= h.Range.J {
				c.Fail("%s is divided at %d", name(h), a.Range.J)
				continue
			}
			var b = byStart[fmt.Sprintf("%d:%d", line.Id(), a.Range.J)]
			if b == nil || b.Range.J != h.Range.J || b.Instance != h.Instance {
				c.Fail("%s is not covered by two parts", name(h))
				continue
			}
			if !samePts(nodePts(a), nodePts(h)[:a.Range.Size()+1]) || !samePts(nodePts(b), nodePts(h)[a.Range.Size():]) {
				c.Fail("the parts of %s carry other vertices", name(h))
			}
		}
		if n != len(out) {
			c.Fail("%d pieces after refining, want %d", len(out), n)
		}
		if len(divided) == 0 {
			c.Trivial()
		}
		for _, s := range selfs {
			if divided[s] && !s.State().IsDirty() {
				c.Fail("line %d was divided and counts as clean", s.Id())
			}
			if !divided[s] && s.State().IsClean() != clean[s] {
				c.Fail("line %d was not divided and its mark changed", s.Id())
			}
		}
		if c.Failed() {
			return
		}
		constdp.VxCleanUp(db, sel)
		db.Load(out)
		for _, h := range db.All() {
			want = append(want, name(h))
		}
		sort.Strings(want)
		sort.Strings(keep)
		if fmt.Sprint(want) != fmt.Sprint(keep) {
			c.Fail("the index holds %v, want %v", want, keep)
		}
	})

	reg("C18", "regroup", "pieces of 1-4 lines in one index go back to their lines; non-trivial: more than one line", func(c *Case) {
		var id = iter.NewIgen()
		var all, selfs, db = forest(c, id)
		var lines = map[*constdp.ConstDP][]geom.Point{}
		for _, s := range selfs {
			lines[s] = coordsOf(s.Polyline.Coordinates)
		}
		if len(selfs) < 2 {
			c.Trivial()
		}
		_ = all
		constdp.VxGroup(db)
		for _, s := range selfs {
			checkLine(c, fmt.Sprintf("line %d", s.Id()), s, lines[s])
		}
	})
}
