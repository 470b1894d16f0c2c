package main

import (
	"fmt"
	"sort"

	"github.com/TopoSimplify/plugin/box"
	"github.com/TopoSimplify/plugin/constdp"
	"github.com/TopoSimplify/plugin/deform"
	"github.com/TopoSimplify/plugin/hdb"
	"github.com/TopoSimplify/plugin/knn"
	"github.com/TopoSimplify/plugin/lnr"
	"github.com/TopoSimplify/plugin/node"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"
	"github.com/intdxdt/mbr"
)

func coincident(pts []geom.Point) []int {
	var m = map[[2]float64][]int{}
	for i, p := range pts {
		m[[2]float64{p[0], p[1]}] = append(m[[2]float64{p[0], p[1]}], i)
	}
	var o []int
	for _, v := range m {
		if len(v) > 1 {
			o = append(o, v...)
		}
	}
	return uniqSorted(o)
}

// crossing: an expected non planar intersection of two segments of a line.
type crossing struct {
	k [4]int
	n int // number of crossing points
}

// crossings lists the pairs of segments that meet away from common vertices, exact on integer grids.
func crossings(pts []geom.Point) []crossing {
	var o []crossing
	for i := 0; i+1 < len(pts); i++ {
		for j := i + 1; j+1 < len(pts); j++ {
			var a, b, p, q = pts[i], pts[i+1], pts[j], pts[j+1]
			if !segsMeet(a, b, p, q) {
				continue
			}
			var cand []geom.Point
			var proper = orient(a, b, p)*orient(a, b, q) < 0 && orient(p, q, a)*orient(p, q, b) < 0
			var n = 0
			if proper {
				n = 1
			} else {
				for _, v := range []geom.Point{a, b} {
					if onSeg(p, q, v) {
						cand = append(cand, v)
					}
				}
				for _, v := range []geom.Point{p, q} {
					if onSeg(a, b, v) {
						cand = append(cand, v)
					}
				}
				var seen = map[[2]float64]bool{}
				for _, v := range cand {
					var key = [2]float64{v[0], v[1]}
					if seen[key] {
						continue
					}
					seen[key] = true
					var va, vb = same2(v, a) || same2(v, b), same2(v, p) || same2(v, q)
					if !(va && vb) {
						n++
					}
				}
			}
			if n > 0 {
				o = append(o, crossing{[4]int{i, i + 1, j, j + 1}, n})
			}
		}
	}
	return o
}

func init() {
	reg("C09", "planar-one", "grid lines with coinciding vertices; planar self-intersection on: reported and retained vertices against a position count; non-trivial: some vertex position occurs twice", func(c *Case) {
		var n = c.Size(2, 24)
		var pts = genGrid(c, n, 3+c.Intn(4))
		var o = genOpts(c)
		o.PlanarSelf = true
		o.NonPlanarSelf = false
		var nm, sc = genScore(c)
		c.In("line %s opts %s metric %s", ptsStr(pts), optStr(o), nm)
		var want = coincident(pts)
		var pln = polyline(pts)
		var got []int
		for _, g := range lnr.SelfIntersection(pln, true, false).DataView() {
			if !g.IsPlanarVertex() {
				c.Fail("reported as %s", g.CtxType)
			}
			for _, v := range g.Meta.Planar {
				if v < 0 || v >= n {
					c.Fail("vertex %d reported", v)
					return
				}
				var p = g.Geom.Geometry()
				if !same2(ptOf(p), pts[v]) {
					c.Fail("vertex %d reported at another position", v)
				}
			}
			got = append(got, g.Meta.Planar...)
		}
		if !eqInts(uniqSorted(got), want) {
			c.Fail("reported %v, want %v", uniqSorted(got), want)
		}
		if len(got) != len(uniqSorted(got)) {
			c.Fail("vertices reported twice: %v", got)
		}
		var cdp = newDP(1, pts, nil, o, sc)
		cdp.Simplify(iter.NewIgen())
		var s = simple(cdp)
		for _, v := range want {
			if !has(s, v) {
				c.Fail("vertex %d coincides with another one but is not retained: %v", v, s)
			}
		}
		if len(want) == 0 {
			c.Trivial()
		}
	})
	reg("C09", "planar-class", "2-4 grid lines sharing positions: junctions against a position count over all lines, retained after simplifying the class", func(c *Case) {
		var nl = 1 + c.Intn(4)
		var o = genOpts(c)
		o.PlanarSelf = true
		o.NonPlanarSelf = false
		var nm, sc = genScore(c)
		var lines [][]geom.Point
		var selfs []*constdp.ConstDP
		var fcs []*lnr.FC
		var cnt = map[[2]float64]int{}
		var span = 3 + c.Intn(6)
		c.In("opts %s metric %s", optStr(o), nm)
		for l := 0; l < nl; l++ {
			var pts = genGrid(c, c.Size(2, 12), span)
			lines = append(lines, pts)
			c.In("line%d %s", l, ptsStr(pts))
			selfs = append(selfs, newDP(20+3*l, pts, nil, o, sc))
			fcs = append(fcs, lnr.NewFC(selfs[l].Coordinates(), selfs[l].Id()))
			for _, p := range pts {
				cnt[[2]float64{p[0], p[1]}]++
			}
		}
		var res = lnr.FCPlanarSelfIntersection(fcs)
		constdp.SimplifyFeatureClass(iter.NewIgen(), selfs, o)
		var any = false
		for l, pts := range lines {
			var want []int
			for i, p := range pts {
				if cnt[[2]float64{p[0], p[1]}] > 1 {
					want = append(want, i)
				}
			}
			any = any || len(want) > 0
			var got = res[selfs[l].Id()]
			if !eqInts(uniqSorted(got), want) || len(got) != len(want) {
				c.Fail("line %d: junctions %v, want %v", l, got, want)
			}
			var s = simple(selfs[l])
			for _, v := range want {
				if !has(s, v) {
					c.Fail("line %d: vertex %d is shared but not retained: %v", l, v, s)
				}
			}
		}
		if !any {
			c.Trivial()
		}
	})

	reg("C10", "non-planar", "grid lines with many crossings: reported pairs and points against an exact pairwise oracle, their ends retained; non-trivial: at least one crossing", func(c *Case) {
		var n = c.Size(2, 18)
		var pts = genGrid(c, n, 3+c.Intn(5))
		var o = genOpts(c)
		o.PlanarSelf, o.NonPlanarSelf = true, true
		var nm, sc = genScore(c)
		c.In("line %s opts %s metric %s", ptsStr(pts), optStr(o), nm)
		var want = crossings(pts)
		var got = map[[4]int]int{}
		for _, g := range lnr.SelfIntersection(polyline(pts), false, true).DataView() {
			if !g.IsNonPlanarVertex() {
				c.Fail("reported as %s", g.CtxType)
			}
			var k [4]int
			var m = g.Meta.NonPlanar
			if len(m) == 4 {
				copy(k[:], m)
			} else if len(m) == 3 {
				k = [4]int{m[0], m[1], m[1], m[2]}
			} else {
				c.Fail("ends %v", m)
				return
			}
			got[k]++
		}
		for _, w := range want {
			if got[w.k] != w.n {
				c.Fail("segments %v cross at %d points, reported %d times", w.k, w.n, got[w.k])
			}
			delete(got, w.k)
		}
		for k := range got {
			c.Fail("segments %v are reported but do not cross away from common vertices", k)
		}
		var cdp = newDP(1, pts, nil, o, sc)
		cdp.Simplify(iter.NewIgen())
		var s = simple(cdp)
		for _, w := range want {
			for _, v := range w.k {
				if !has(s, v) {
					c.Fail("vertex %d of the crossing segments %v is not retained: %v", v, w.k, s)
				}
			}
		}
		if len(want) == 0 {
			c.Trivial()
		}
	})

	reg("C11", "select", "pieces of 1-3 grid lines in one index; the selection of deform.SelectFeatureClass and deform.Select against a pairwise oracle; non-trivial: something is selected", func(c *Case) {
		var id = iter.NewIgen()
		var nl = 1 + c.Intn(3)
		var o = &opts.Opts{NonPlanarDisplacement: []float64{0, 1, 3}[c.Intn(3)], AvoidNewSelfIntersects: true}
		var all []node.Node
		var owners []*inst
		for l := 0; l < nl; l++ {
			var pts = genGrid(c, c.Size(3, 12), 6)
			var in = &inst{id: 30 + l}
			if c.Chance(0.4) {
				in.st.MarkClean()
			}
			owners = append(owners, in)
			all = append(all, cutPieces(c, id, pts, in, 0.4)...)
			c.In("line%d clean=%v %s", l, in.st.IsClean(), ptsStr(pts))
		}
		c.In("pieces %s displacement %v", rngStr(all), o.NonPlanarDisplacement)
		var db = hdb.NewHdb().Load(all)
		var hull = &all[c.Intn(len(all))]
		c.In("examine %v of line %d", hull.Range, hull.Instance.Id())
		var one = nl == 1 && c.Chance(0.5)
		var got []*node.Node
		if one {
			got = deform.Select(o, db, hull)
		} else {
			got = deform.SelectFeatureClass(o, db, hull)
		}
		var want = map[*node.Node]bool{}
		for i := range all {
			var h = &all[i]
			if h == hull || h.Geom.Distance(hull.Geom) > knn.EpsilonDist {
				continue
			}
			var same = h.Instance.Id() == hull.Instance.Id()
			if !one && same && hull.Instance.State().IsClean() {
				continue
			}
			var inters, contig bool
			var n int
			if same {
				inters, contig, n = node.IsContiguous(hull, h)
			} else {
				n = len(hull.Geom.Intersection(h.Geom))
				inters = hull.Geom.Intersects(h.Geom) && n > 0
			}
			if !inters {
				continue
			}
			if contig {
				if n > 1 {
					if !hull.Collapsible(h) {
						want[hull] = true
					}
					if !h.Collapsible(hull) {
						want[h] = true
					}
				}
				continue
			}
			var as, bs, al, bl = hull.Segment(), h.Segment(), hull.Polyline.Geometry(), h.Polyline.Geometry()
			if !al.Intersects(bl) {
				if as.Intersects(bs) {
					if as.Intersects(bl) {
						want[hull] = true
					} else if bs.Intersects(al) {
						want[h] = true
					}
				}
			} else {
				var pl, ps = al.Intersection(bl), as.Intersection(bs)
				var move = len(ps) == 0 && len(pl) > 0
				for i := range pl {
					for j := range ps {
						if pl[i].Distance(ps[j]) > o.NonPlanarDisplacement {
							move = true
						}
					}
				}
				if move {
					want[hull], want[h] = true, true
				}
			}
		}
		var gs, ws []string
		for _, h := range got {
			gs = append(gs, fmt.Sprintf("%d:%v", h.Instance.Id(), h.Range))
		}
		for h := range want {
			ws = append(ws, fmt.Sprintf("%d:%v", h.Instance.Id(), h.Range))
		}
		sort.Strings(gs)
		sort.Strings(ws)
		if fmt.Sprint(gs) != fmt.Sprint(ws) {
			c.Fail("selected %v, want %v", gs, ws)
		}
		if len(want) == 0 {
			c.Trivial()
		}
	})

	reg("C12", "index-ops", "random sequences of loads, removals and clears: listing, box searches, collisions and the structure seen through searches against a list; non-trivial: at least one removal", func(c *Case) {
		var caps = [][]int{{}, {4}, {9}, {1}}[c.Intn(4)]
		var db = hdb.NewHdb(caps...)
		var id = iter.NewIgen()
		var held = map[int]*node.Node{}
		var gone []*node.Node
		var grid = []int{3, 10, 50}[c.Intn(3)]
		var mk = func() node.Node {
			var x, y = float64(c.Intn(grid)), float64(c.Intn(grid))
			var w, h = float64(c.Intn(4)), float64(c.Intn(4))
			return node.Node{Id: id.Next(), MBR: mbr.CreateMBR(x, y, x+w, y+h)}
		}
		var hit = func(a, b mbr.MBR) bool {
			return !(a.MinX > b.MaxX || a.MaxX < b.MinX || a.MinY > b.MaxY || a.MaxY < b.MinY)
		}
		var check = func() {
			var got []int
			for _, n := range db.All() {
				got = append(got, n.Id)
			}
			var want []int
			for k := range held {
				want = append(want, k)
			}
			sort.Ints(want)
			var g2 = append([]int{}, got...)
			sort.Ints(g2)
			if !eqInts(g2, want) {
				c.Fail("All() has %v, want %v", g2, want)
				return
			}
			for t := 0; t < 3; t++ {
				var q = mk().MBR
				if c.Chance(0.2) {
					q = mbr.CreateMBR(-1, -1, float64(grid)+9, float64(grid)+9)
				}
				var w []int
				for k, n := range held {
					if hit(q, n.MBR) {
						w = append(w, k)
					}
				}
				sort.Ints(w)
				var s []int
				for _, n := range db.Search(q) {
					if held[n.Id] != n {
						c.Fail("Search returns another piece for id %d", n.Id)
					}
					s = append(s, n.Id)
				}
				sort.Ints(s)
				if !eqInts(s, w) {
					c.Fail("Search(%v) = %v, want %v", q, s, w)
				}
				if q.MinX < q.MaxX && q.MinY < q.MaxY {
					if db.Collides(q) != (len(w) > 0) {
						c.Fail("Collides(%v) = %v, want %v", q, !(len(w) > 0), len(w) > 0)
					}
				}
			}
			if internalIndex != nil {
				if e := internalIndex(db); e != "" {
					c.Fail("structure: %s", e)
				}
			}
			if db.IsEmpty() != (len(held) == 0) {
				c.Fail("IsEmpty = %v with %d pieces", db.IsEmpty(), len(held))
			}
		}
		c.In("capacity %v", caps)
		var removed = false
		for op := 1 + c.Intn(c.Size(2, 14)); op > 0 && !c.Failed(); op-- {
			switch k := c.Intn(10); {
			case k < 5:
				var m = []int{0, 1, 2, 3, 5, 9, 30, 100, 700}[c.Intn(5+c.Size(0, 4))]
				var items = make([]node.Node, 0, m)
				for i := 0; i < m; i++ {
					items = append(items, mk())
				}
				c.In("load %d", m)
				db.Load(items)
				for i := range items {
					held[items[i].Id] = &items[i]
				}
			case k < 9:
				var m = 1 + c.Intn(4)
				if c.Chance(0.25) {
					m = len(held)
				}
				var ks []int
				for k := range held {
					ks = append(ks, k)
				}
				sort.Ints(ks)
				var rm []int
				for ; m > 0 && len(ks) > 0; m-- {
					var i = c.Intn(len(ks))
					var n = held[ks[i]]
					var cp = *n
					if c.Chance(0.3) {
						n = &cp
					}
					db.Remove(n)
					rm = append(rm, ks[i])
					gone = append(gone, held[ks[i]])
					delete(held, ks[i])
					ks = append(ks[:i], ks[i+1:]...)
					removed = true
				}
				if len(gone) > 0 && c.Chance(0.4) {
					db.Remove(gone[c.Intn(len(gone))])
					c.In("remove an absent piece")
				}
				if c.Chance(0.1) {
					db.Remove(nil)
				}
				c.In("remove %v", rm)
			default:
				if c.Chance(0.3) {
					db.Clear()
					held = map[int]*node.Node{}
					c.In("clear")
				}
			}
			check()
		}
		if !removed {
			c.Trivial()
		}
	})

	reg("C13", "neighbours", "pieces of a line and context geometries in an index; neighbour and context queries with several distances against a scan; non-trivial: the answer is neither empty nor everything", func(c *Case) {
		var id = iter.NewIgen()
		var own = &inst{id: 5}
		var pts = genGrid(c, c.Size(3, 24), 8)
		var ps = cutPieces(c, id, pts, own, 0.5)
		var dist = []float64{knn.EpsilonDist, 0, 0.5, 1, 2.2, 6}[c.Intn(6)]
		c.In("line %s pieces %s distance %v", ptsStr(pts), rngStr(ps), dist)
		var db = hdb.NewHdb().Load(ps)
		var hull = &ps[c.Intn(len(ps))]
		if c.Chance(0.2) {
			db.Remove(hull)
		}
		var got = map[*node.Node]int{}
		var near = func(d float64) bool { return d > dist-1e-9 && d < dist+1e-9 && d != 0 && dist != 0 }
		for _, h := range knn.NodeNeighbours(db, hull, dist) {
			got[h]++
		}
		var total = 0
		for i := range ps {
			var h = &ps[i]
			var d = h.Geom.Distance(hull.Geom)
			var want = 0
			if h != hull && d <= dist {
				want = 1
			}
			total += want
			var exact = d == dist && hull.Geom.Distance(h.Geom) == dist
			if got[h] != want && (exact || !near(d)) {
				c.Fail("NodeNeighbours(%v): piece %v at distance %v returned %d times", hull.Range, h.Range, d, got[h])
			}
			delete(got, h)
		}
		if len(got) > 0 {
			c.Fail("NodeNeighbours returns something that is not in the index")
		}
		if total == 0 || total == len(ps)-1 {
			c.Trivial()
		}
		var pv, nx = node.Neighbours(hull, knn.NodeNeighbours(db, hull, knn.EpsilonDist))
		for i := range ps {
			if &ps[i] == hull {
				continue
			}
			if ps[i].Range.J == hull.Range.I && pv != &ps[i] {
				c.Fail("the preceding piece of %v is not found", hull.Range)
			}
			if ps[i].Range.I == hull.Range.J && nx != &ps[i] {
				c.Fail("the following piece of %v is not found", hull.Range)
			}
		}
		if pv != nil && pv.Range.J != hull.Range.I || nx != nil && nx.Range.I != hull.Range.J {
			c.Fail("wrong neighbours %v %v of %v", pv, nx, hull.Range)
		}
	})
	reg("C13", "contexts", "context geometries in an index; ContextNeighbours against a scan: exactly those within the distance, in order of distance, each once", func(c *Case) {
		var sh = genShapes(c, c.Size(1, 40), 0, 14)
		var cons = shapeGeoms(sh)
		var cdp = constdp.NewConstDP(1, polyline([]geom.Point{{0, 0}, {1, 1}}), cons, &opts.Opts{}, nil)
		var dist = []float64{0, 0.7, 1, 2, 2.2, 5, 3, 40}[c.Intn(8)]
		var q = genShape(c, 0, 14)
		c.In("query %s distance %v among %s", q, dist, shapesStr(sh))
		var qg = q.geom().Geometry()
		var prev = -1.0
		var got = map[*node.Node]bool{}
		for _, n := range knn.ContextNeighbours(cdp.ContextDB, qg, dist) {
			if got[n] {
				c.Fail("%s returned twice", n.Geom.WKT())
			}
			got[n] = true
			var d = qg.Distance(n.Geom.Geometry())
			if d < prev-1e-9 {
				c.Fail("not in order: %v after %v", d, prev)
			}
			prev = d
		}
		var total = 0
		for _, n := range cdp.ContextDB.All() {
			var d = qg.Distance(n.Geom.Geometry())
			total++
			// exactly at the distance, by every way to compute it: no tolerance
			var exact = d == dist && n.Geom.Geometry().Distance(qg) == dist && qg.Distance(box.MBRToPolygon(n.MBR)) <= dist
			if (d <= dist) != got[n] && (exact || !(d > dist-1e-9 && d < dist+1e-9)) {
				c.Fail("%s at distance %v: returned %v", n.Geom.WKT(), d, got[n])
			}
		}
		if total != len(sh) {
			c.Fail("%d of %d contexts in the index", total, len(sh))
		}
		if len(got) == 0 || len(got) == total {
			c.Trivial()
		}
	})
}

// internalIndex looks at the structure of an index (set by x_internal.go).
var internalIndex func(*hdb.Hdb) string

func ptOf(g geom.Geometry) geom.Point {
	if p, ok := g.(*geom.Point); ok {
		return *p
	}
	return g.(geom.Point)
}
