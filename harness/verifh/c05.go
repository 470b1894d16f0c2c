package main

import (
	"math"

	"github.com/TopoSimplify/plugin/common"
	"github.com/TopoSimplify/plugin/constdp"
	"github.com/TopoSimplify/plugin/ctx"
	"github.com/TopoSimplify/plugin/hdb"
	"github.com/TopoSimplify/plugin/homotopy"
	"github.com/TopoSimplify/plugin/merge"
	"github.com/TopoSimplify/plugin/node"
	"github.com/TopoSimplify/plugin/offset"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/TopoSimplify/plugin/relate"
	"github.com/TopoSimplify/plugin/rng"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"
)

// cutPieces cuts 0..n-1 at random vertices.
func cutPieces(c *Case, id *iter.Igen, pts []geom.Point, in *inst, p float64) []node.Node {
	var pln = polyline(pts)
	var o []node.Node
	var s = 0
	for i := 1; i < len(pts); i++ {
		if i == len(pts)-1 || c.Chance(p) {
			o = append(o, piece(id, pln, s, i, in))
			s = i
		}
	}
	return o
}

type snap struct {
	r    rng.Rng
	idxs []int
	tail []int
	wkt  string
}

func snapNode(n *node.Node) snap {
	var ix = n.Coordinates().Idxs
	return snap{n.Range, append([]int{}, ix...), append([]int{}, ix[:cap(ix)]...), n.Geom.WKT()}
}

func (s snap) check(c *Case, what string, n *node.Node) {
	var ix = n.Coordinates().Idxs
	if n.Range != s.r || !eqInts(ix, s.idxs) || !eqInts(ix[:cap(ix)], s.tail) || n.Geom.WKT() != s.wkt {
		c.Fail("%s: the source piece %v was changed (vertices %v, were %v)", what, s.r, ix, s.idxs)
	}
}

func geomWkt(n *node.Node) string { return n.Geom.WKT() }

func init() {
	reg("C05", "merge-two", "two pieces of a line, touching in either order or apart; the merged piece against the expected one, sources unchanged; also views into one shared index array", func(c *Case) {
		var n = c.Size(3, 20)
		var pts = genPts(c, n)
		var own = &inst{id: 4}
		var id = iter.NewIgen()
		var ps = cutPieces(c, id, pts, own, 0.5)
		if c.Chance(0.5) && n > 3 {
			// pieces which are views into the same index array, as splits produce
			var pln = polyline(pts)
			var whole = piece(id, pln, 0, n-1, own)
			var co = whole.Coordinates()
			for i := range ps {
				var r = ps[i].Range
				ps[i] = node.CreateNode(id, co.Slice(r.I, r.J+1), r, common.Geometry, own)
			}
			if c.Chance(0.4) {
				// every other piece refers to a second copy of the points
				co.Pnts = append(append([]geom.Point{}, pts...), pts...)
				c.In("two copies of the points")
				for i := range ps {
					var r = ps[i].Range
					var d = co.Slice(r.I, r.J+1)
					if i%2 == 1 {
						d.Idxs = nil
						for k := r.I; k <= r.J; k++ {
							d.Idxs = append(d.Idxs, k+n)
						}
					}
					ps[i] = node.CreateNode(id, d, r, common.Geometry, own)
				}
			}
		}
		if len(ps) < 2 {
			c.Trivial()
			return
		}
		var a, b = c.Intn(len(ps)), c.Intn(len(ps))
		if c.Chance(0.7) {
			b = a + 1 - 2*c.Intn(2)
		}
		if b < 0 || b >= len(ps) || a == b {
			c.Trivial()
			return
		}
		var ha, hb = &ps[a], &ps[b]
		var touch = a-b == 1 || b-a == 1
		var m = metrics[c.Intn(4)]
		var thr = []float64{0, 1, 3, 100}[c.Intn(4)]
		c.In("line %s pieces %s merge %v with %v by %s at %v", ptsStr(pts), rngStr(ps), ha.Range, hb.Range, m.name, thr)
		var snaps []snap
		for i := range ps {
			snaps = append(snaps, snapNode(&ps[i]))
		}
		var lo, hi = ha.Range.I, hb.Range.J
		if hb.Range.I < ha.Range.I {
			lo, hi = hb.Range.I, ha.Range.J
		}
		if touch {
			if r := merge.Range(ha.Range, hb.Range); r != rng.Range(lo, hi) {
				c.Fail("merged range %v, want %d-%d", r, lo, hi)
			}
			var co = merge.ContiguousCoordinates(ha, hb)
			if !samePts(coordsOf(co), pts[lo:hi+1]) {
				c.Fail("merged vertices %v, want %d..%d", co.Idxs, lo, hi)
			}
		}
		var ok bool
		var mg node.Node
		var panicked = true
		func() {
			defer func() {
				if e := recover(); e != nil && touch {
					panic(e)
				}
			}()
			ok, mg = merge.ContiguousFragmentsAtThreshold(id, m.fn, ha, hb, func(v float64) bool { return v <= thr }, common.Geometry)
			panicked = false
		}()
		if !touch {
			if !panicked && ok {
				c.Fail("pieces that do not touch were merged to %v", mg.Range)
			}
		} else {
			var _, v, _ = maxOf(m, pts[lo:hi+1])
			if ok && v > thr+1e-6 || !ok && v < thr-1e-6 {
				c.Fail("merge=%v although the merged deviation is %v and the threshold %v", ok, v, thr)
			}
			if ok {
				if mg.Range != rng.Range(lo, hi) || !samePts(nodePts(&mg), pts[lo:hi+1]) {
					c.Fail("merged piece %v carries %s", mg.Range, ptsStr(nodePts(&mg)))
				}
				if mg.Instance != own {
					c.Fail("the merged piece belongs to another owner")
				}
				for i := range ps {
					if mg.Id == ps[i].Id {
						c.Fail("the merged piece reuses an id")
					}
				}
			}
		}
		for i := range ps {
			snaps[i].check(c, "merge", &ps[i])
		}
	})

	reg("C05", "merge-by-size", "all pieces of a line through ContiguousFragmentsBySize with protected vertices", func(c *Case) {
		var n = c.Size(3, 16)
		var pts = genPts(c, n)
		for i := range pts { // keep pieces apart in space so only neighbours meet
			pts[i][0] += 3 * float64(i)
		}
		var own = &inst{id: 4}
		var id = iter.NewIgen()
		var ps = cutPieces(c, id, pts, own, 0.6)
		var prot = map[int]bool{}
		for i := range pts {
			if c.Chance(0.2) {
				prot[i] = true
			}
		}
		var m = metrics[c.Intn(4)]
		var thr = []float64{0, 1, 3, 100}[c.Intn(4)]
		var fs = 1 + c.Intn(2)
		c.In("line %s pieces %s protected %v by %s at %v size %d", ptsStr(pts), rngStr(ps), prot, m.name, thr, fs)
		var snaps []snap
		for i := range ps {
			snaps = append(snaps, snapNode(&ps[i]))
		}
		var db = hdb.NewHdb().Load(append([]node.Node{}, ps...))
		var unmerged = map[[2]int]*node.Node{}
		var keep, rm = merge.ContiguousFragmentsBySize(id, ps, db, prot, unmerged, fs, func(v float64) bool { return v <= thr }, m.fn, common.Geometry)
		var src = map[[2]int]bool{}
		for i := range ps {
			src[ps[i].Range.AsArray()] = true
		}
		var used = map[[2]int]bool{}
		for _, r := range rm {
			if used[r.Range.AsArray()] {
				c.Fail("piece %v is consumed by two merges", r.Range)
			}
			used[r.Range.AsArray()] = true
		}
		var nm = 0
		for _, k := range keep {
			if !samePts(nodePts(k), pts[k.Range.I:k.Range.J+1]) {
				c.Fail("kept piece %v carries %s", k.Range, ptsStr(nodePts(k)))
			}
			if src[k.Range.AsArray()] {
				continue
			}
			nm++
			var mid = -1
			for i := range ps {
				for j := range ps {
					if ps[i].Range.I == k.Range.I && ps[i].Range.J == ps[j].Range.I && ps[j].Range.J == k.Range.J {
						mid = ps[i].Range.J
						if !used[ps[i].Range.AsArray()] || !used[ps[j].Range.AsArray()] {
							c.Fail("merged piece %v without removing its sources", k.Range)
						}
						if ps[i].Range.Size() != fs && ps[j].Range.Size() != fs {
							c.Fail("merged piece %v joins no piece of size %d", k.Range, fs)
						}
					}
				}
			}
			if mid < 0 {
				c.Fail("kept piece %v is neither a source nor the union of two touching sources", k.Range)
			} else if prot[mid] {
				c.Fail("merged over the protected vertex %d", mid)
			}
			var _, v, _ = maxOf(m, pts[k.Range.I:k.Range.J+1])
			if v > thr+1e-6 {
				c.Fail("merged piece %v deviates %v > %v", k.Range, v, thr)
			}
		}
		if len(rm) != 2*nm {
			c.Fail("%d merges but %d removed pieces", nm, len(rm))
		}
		if nm == 0 {
			c.Trivial()
		}
		for i := range ps {
			snaps[i].check(c, "merge", &ps[i])
		}
	})

	reg("C05", "aggregate", "AggregateSimpleSegments on a random partition of a line: junctions removed are unprotected and within threshold", func(c *Case) {
		var n = c.Size(3, 16)
		var pts = genPts(c, n)
		var o = &opts.Opts{Threshold: []float64{0, 1, 3, 50}[c.Intn(4)]}
		var nm, sc = genScore(c)
		var cdp = newDP(2, pts, nil, o, sc)
		var id = iter.NewIgen()
		var pln = cdp.Polyline
		var ps []node.Node
		var s = 0
		for i := 1; i < n; i++ {
			if i == n-1 || c.Chance(0.7) {
				ps = append(ps, node.CreateNode(id, pln.SubCoordinates(rng.Range(s, i)), rng.Range(s, i), common.Geometry, cdp))
				s = i
			}
		}
		var prot []int
		for i := range pts {
			if c.Chance(0.25) {
				prot = append(prot, i)
			}
		}
		c.In("line %s pieces %s protected %v metric %s threshold %v", ptsStr(pts), rngStr(ps), prot, nm, o.Threshold)
		var before = ends(ps)
		var kept = map[[2]int]bool{}
		for i := range ps {
			kept[ps[i].Range.AsArray()] = true
		}
		var reject = c.Chance(0.3)
		var db = hdb.NewHdb().Load(ps)
		cdp.AggregateSimpleSegments(id, db, prot, func(h *node.Node, d *hdb.Hdb) bool { return !reject || h.Range.I%2 == 0 })
		var after []node.Node
		for _, h := range db.All() {
			after = append(after, *h)
		}
		checkTiling(c, "aggregate", after, pts)
		var e = ends(after)
		for _, v := range before {
			if has(prot, v) && !has(e, v) {
				c.Fail("the protected vertex %d was merged away", v)
			}
		}
		for _, v := range e {
			if !has(before, v) {
				c.Fail("a new end %d appeared", v)
			}
		}
		for i := range after {
			if kept[after[i].Range.AsArray()] {
				continue
			}
			var mx = maxDev(devs(pts[after[i].Range.I:after[i].Range.J+1], nm[0] == 's'))
			if mx > o.Threshold+1e-6 {
				c.Fail("merged piece %v deviates %v > %v", after[i].Range, mx, o.Threshold)
			}
		}
		if len(after) == len(ps) {
			c.Trivial()
		}
		if !samePts(pln.Coordinates.Pnts, pts) || !eqInts(pln.Coordinates.Idxs, ints(n)) {
			c.Fail("the line was changed")
		}
	})

	for _, p := range []string{"C06", "C07", "C08"} {
		var p = p
		reg(p, "verdict", "one piece of a grid line and 0-4 contexts (points, chains, rings): the verdict against an exact oracle; non-trivial: some context near the piece", func(c *Case) {
			var n = c.Size(2, 9)
			var pts = genGrid(c, n, 6)
			var own = &inst{id: 4}
			var id = iter.NewIgen()
			var i = c.Intn(n - 1)
			var j = i + 1 + c.Intn(n-1-i)
			var hull = piece(id, polyline(pts), i, j, own)
			var sub = flat(pts[i : j+1])
			var seg = []geom.Point{sub[0], sub[len(sub)-1]}
			if same2(seg[0], seg[1]) {
				seg = seg[:1]
			}
			var sh = genShapes(c, c.Intn(5), -1, 7)
			var md = []float64{0, 0.9, 1.5, 3}[c.Intn(4)]
			c.In("piece %d-%d of %s contexts %s mindist %v", i, j, ptsStr(pts), shapesStr(sh), md)
			var cgs = ctx.NewContexts()
			for _, s := range sh {
				cgs.Push(ctx.New(s.geom(), 0, -1).AsContextNeighbour())
			}
			var sn = snapNode(&hull)
			var wkts []string
			for _, g := range cgs.DataView() {
				wkts = append(wkts, g.WKT())
			}
			switch p {
			case "C06":
				var want = true
				for _, s := range sh {
					if s.meets(sub) != s.meets(seg) {
						want = false
					}
				}
				if got := relate.IsGeomRelateValid(&hull, cgs); got != want {
					c.Fail("verdict %v, want %v", got, want)
				}
			case "C07":
				var want, tie = true, false
				for _, s := range sh {
					var ds, dl = s.dist(seg), s.dist(sub)
					if math.Abs(ds-md) < 1e-9 && ds != 0 || math.Abs(dl-md) < 1e-9 && dl != 0 {
						tie = true
					}
					if !(ds >= md || dl < md) {
						want = false
					}
				}
				if got := relate.IsDistRelateValid(&opts.Opts{MinDist: md}, &hull, cgs); got != want && !tie {
					c.Fail("verdict %v, want %v", got, want)
				}
			case "C08":
				var got = homotopy.Homotopy(hull.Coordinates(), cgs)
				if got2 := relate.IsDirRelateValid(&hull, cgs); got2 != got {
					c.Fail("IsDirRelateValid %v, Homotopy %v", got2, got)
				}
				var rem []shape
				var xor = false
				for _, s := range sh {
					var a, b = s.meets(sub), s.meets(seg)
					if a != b {
						xor = true
					}
					if !a && !b {
						rem = append(rem, s)
					}
				}
				if xor && got {
					c.Fail("accepted although a context touches only one of sub-line and segment")
				}
				if !xor && len(rem) == 0 && !got {
					c.Fail("rejected without a remaining context")
				}
				if got {
					for _, s := range rem {
						for _, q := range s.pts {
							if winding(sub, q) != 0 {
								c.Fail("accepted although the sub-line and the segment wind around %v of %s", q, s)
							}
						}
					}
				} else if !xor {
					// convex sub-lines with no context in their hull must be accepted
					var far = true
					for _, s := range rem {
						for _, q := range s.pts {
							if inBox(sub, q, 0) {
								far = false
							}
						}
						if s.ring || len(s.pts) > 1 {
							if boxMeets(sub, s.pts) {
								far = false
							}
						}
					}
					if far {
						c.Fail("rejected although every context is outside the bounding box of the sub-line")
					}
				}
				if got2 := homotopy.Homotopy(hull.Coordinates(), cgs); got2 != got {
					c.Fail("the second verdict differs: %v then %v", got, got2)
				}
			}
			sn.check(c, "verdict", &hull)
			for k, g := range cgs.DataView() {
				if g.WKT() != wkts[k] {
					c.Fail("context %d was changed", k)
				}
			}
			if cgs.Len() != len(wkts) {
				c.Fail("the list of contexts was changed")
			}
			if len(sh) == 0 || j-i < 2 {
				c.Trivial()
			}
		})
		reg(p, "end-to-end", "a grid line simplified with the constraint on: every final piece satisfies it against every context; with it off the pieces equal the run without contexts", func(c *Case) {
			var n = c.Size(3, 16)
			var pts = genGrid(c, n, 6)
			var o = genOpts(c)
			o.NonPlanarSelf = false
			o.AvoidNewSelfIntersects = false
			o.GeomRelation, o.DistRelation, o.DirRelation = p == "C06", p == "C07", p == "C08"
			o.MinDist = []float64{0.9, 1.5, 2.1}[c.Intn(3)]
			o.Threshold = []float64{1, 2, 5, 20}[c.Intn(4)]
			var off = c.Chance(0.2)
			if off {
				o.GeomRelation, o.DistRelation, o.DirRelation = false, false, false
			}
			var sh = genShapes(c, 1+c.Intn(4), -2, 8)
			var nm, sc = genScore(c)
			c.In("line %s contexts %s opts %s metric %s", ptsStr(pts), shapesStr(sh), optStr(o), nm)
			var cdp = newDP(3, pts, sh, o, sc)
			cdp.Simplify(iter.NewIgen())
			checkLine(c, "Simplify", cdp, pts)
			if off {
				var ref = newDP(3, pts, nil, o, sc)
				ref.Simplify(iter.NewIgen())
				if !eqInts(simple(ref), simple(cdp)) {
					c.Fail("relation off: retained %v with contexts, %v without", simple(cdp), simple(ref))
				}
				return
			}
			for k := range cdp.Hulls {
				var r = cdp.Hulls[k].Range
				if r.Size() == 1 {
					continue
				}
				var sub = flat(pts[r.I : r.J+1])
				var seg = []geom.Point{sub[0], sub[len(sub)-1]}
				if same2(seg[0], seg[1]) {
					seg = seg[:1]
				}
				for _, s := range sh {
					var kind = ""
					if collinear(sub) {
						kind = " (collinear piece)"
					}
					switch p {
					case "C06":
						if s.meets(sub) != s.meets(seg) {
							c.Fail("piece %v%s: sub-line meets %v, segment meets %v of %s", r, kind, s.meets(sub), s.meets(seg), s)
						}
					case "C07":
						var ds, dl = s.dist(seg), s.dist(sub)
						if ds < o.MinDist-1e-9 && dl >= o.MinDist+1e-9 {
							c.Fail("piece %v%s: segment at %v of %s, sub-line at %v, minimum %v", r, kind, ds, s, dl, o.MinDist)
						}
					case "C08":
						var a, b = s.meets(sub), s.meets(seg)
						if a != b {
							c.Fail("piece %v%s: touches %s %v, segment %v", r, kind, s, a, b)
						}
						if !a && !b {
							for _, q := range s.pts {
								if winding(sub, q) != 0 {
									c.Fail("piece %v%s: winds around %v of %s", r, kind, q, s)
								}
							}
						}
					}
				}
			}
			if len(cdp.Hulls) == n-1 {
				c.Trivial()
			}
		})
	}
	_ = constdp.NewConstDP
	_ = offset.MaxOffset
}

func maxOf(m metric, pts []geom.Point) (int, float64, []float64) {
	var d = devs(pts, m.sed)
	var v = maxDev(d)
	if m.square {
		v *= v
	}
	return 0, v, d
}

// winding number of the closed curve pts + closing segment around q (q not on it).
func winding(pts []geom.Point, q geom.Point) int {
	var w = 0
	for i := range pts {
		var a, b = pts[i], pts[(i+1)%len(pts)]
		if a[1] <= q[1] {
			if b[1] > q[1] && orient(a, b, q) > 0 {
				w++
			}
		} else if b[1] <= q[1] && orient(a, b, q) < 0 {
			w--
		}
	}
	return w
}

func bbox(pts []geom.Point) (float64, float64, float64, float64) {
	var x0, y0, x1, y1 = math.Inf(1), math.Inf(1), math.Inf(-1), math.Inf(-1)
	for _, p := range pts {
		x0, x1 = math.Min(x0, p[0]), math.Max(x1, p[0])
		y0, y1 = math.Min(y0, p[1]), math.Max(y1, p[1])
	}
	return x0, y0, x1, y1
}

func inBox(pts []geom.Point, q geom.Point, d float64) bool {
	var x0, y0, x1, y1 = bbox(pts)
	return q[0] >= x0-d && q[0] <= x1+d && q[1] >= y0-d && q[1] <= y1+d
}

func boxMeets(a, b []geom.Point) bool {
	var x0, y0, x1, y1 = bbox(a)
	var u0, v0, u1, v1 = bbox(b)
	return !(u0 > x1 || u1 < x0 || v0 > y1 || v1 < y0)
}
