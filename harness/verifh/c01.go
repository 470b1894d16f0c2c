package main

import (
	"fmt"

	"github.com/TopoSimplify/plugin/common"
	"github.com/TopoSimplify/plugin/constdp"
	"github.com/TopoSimplify/plugin/constrain"
	"github.com/TopoSimplify/plugin/decompose"
	"github.com/TopoSimplify/plugin/dp"
	"github.com/TopoSimplify/plugin/lnr"
	"github.com/TopoSimplify/plugin/node"
	"github.com/TopoSimplify/plugin/offset"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/TopoSimplify/plugin/rng"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"
)

func init() {
	reg("C01", "simplify-one", "random line, options, contexts and metric through ConstDP.Simplify; non-trivial: at least one vertex dropped", func(c *Case) {
		var n = c.Size(2, 26)
		var pts = genPts(c, n)
		var o = genOpts(c)
		var sh = genShapes(c, c.Intn(4), 0, 8)
		var nm, sc = genScore(c)
		c.In("line %s opts %s metric %s contexts %s", ptsStr(pts), optStr(o), nm, shapesStr(sh))
		var cdp = newDP(3, pts, sh, o, sc)
		cdp.Simplify(iter.NewIgen())
		checkLine(c, "Simplify", cdp, pts)
		if len(cdp.Simple()) == n {
			c.Trivial()
		}
		if !eqInts(cdp.Simple(), ends(cdp.Hulls)) {
			c.Fail("Simple() = %v, ends %v", cdp.Simple(), ends(cdp.Hulls))
		}
	})
	reg("C01", "stages", "pieces after decomposition and after splitting at protected vertices tile the line", func(c *Case) {
		var n = c.Size(2, 26)
		var pts = genPts(c, n)
		var o = genOpts(c)
		var nm, sc = genScore(c)
		var id = iter.NewIgen()
		c.In("line %s opts %s metric %s", ptsStr(pts), optStr(o), nm)
		var cdp = newDP(3, pts, nil, o, sc)
		var hs = cdp.Decompose(id)
		checkTiling(c, "Decompose", hs, pts)
		var cv []int
		for k := c.Intn(4); k > 0; k-- {
			cv = append(cv, c.Intn(n))
		}
		c.In("protected %v", cv)
		var out, _, set = constrain.ToSelfIntersects(id, hs, cdp.Polyline, o, cv)
		checkTiling(c, "ToSelfIntersects", out, pts)
		if o.PlanarSelf {
			var e = ends(out)
			for _, v := range append(append([]int{}, cv...), set...) {
				if !has(e, v) {
					c.Fail("protected vertex %d is not an end of %s", v, rngStr(out))
				}
			}
			for _, v := range cv {
				if !has(set, v) {
					c.Fail("protected vertex %d missing from %v", v, set)
				}
			}
		}
		if len(out) < 2 {
			c.Trivial()
		}
		var d = dp.New(1, polyline(pts), o, sc[0], sc[1:]...).Simplify(id)
		checkTiling(c, "dp.Simplify", d.Hulls, pts)
		if !eqInts(d.Simple(), ends(d.Hulls)) {
			c.Fail("dp.Simple() = %v", d.Simple())
		}
	})
	reg("C01", "feature-class", "2-4 random lines simplified as a feature class", func(c *Case) {
		runFC(c, nil)
	})
	reg("C18", "feature-class", "2-4 random lines simplified as a feature class; non-trivial: at least one piece is refined", func(c *Case) {
		runFC(c, nil)
	})
	reg("C17", "feature-class", "2-4 random lines with conflicting options: the refinement ends and each round reports pieces", func(c *Case) {
		runFC(c, func(o *opts.Opts) {
			o.AvoidNewSelfIntersects = true
			o.Threshold = 20
		})
	})

	reg("C02", "decompose", "random line, threshold and metric: every piece within threshold, recursion at the farthest vertex; non-trivial: at least one split", func(c *Case) {
		var n = c.Size(2, 40)
		var pts = genPts(c, n)
		var thr = []float64{0, 0.3, 1, 2, 5, 1e9}[c.Intn(6)]
		var sed = c.Chance(0.5)
		var id = iter.NewIgen()
		var plain, square = lnr.ScoreFn(offset.MaxOffset), lnr.ScoreFn(offset.SquareMaxOffset)
		if sed {
			plain, square = offset.MaxSEDOffset, offset.SqureMaxSEDOffset
		}
		var useSq = c.Chance(0.4)
		c.In("line %s threshold %v sed %v square %v", ptsStr(pts), thr, sed, useSq)
		var sc = []lnr.ScoreFn{plain}
		var fn = plain
		var lim = thr
		if useSq {
			sc = append(sc, square)
			fn, lim = square, thr*thr
		}
		var check = func(what string, hs []node.Node) {
			var want []rng.Rng
			var rec func(i, j int)
			rec = func(i, j int) {
				var sub = geom.Coordinates(clonePts(pts[i : j+1]))
				var k, v = fn(sub)
				if v <= lim {
					want = append(want, rng.Range(i, j))
					return
				}
				rec(i, i+k)
				rec(i+k, j)
			}
			rec(0, n-1)
			if len(want) != len(hs) {
				c.Fail("%s: pieces %s, want %v", what, rngStr(hs), want)
				return
			}
			for k := range hs {
				if hs[k].Range != want[k] {
					c.Fail("%s: pieces %s, want %v", what, rngStr(hs), want)
					return
				}
				var d = maxDev(devs(pts[hs[k].Range.I:hs[k].Range.J+1], sed))
				if d > thr+1e-6*(1+thr) {
					c.Fail("%s: piece %v deviates %v > %v", what, hs[k].Range, d, thr)
				}
			}
			if len(hs) < 2 {
				c.Trivial()
			}
		}
		var o = &opts.Opts{Threshold: thr}
		check("dp", dp.New(1, polyline(pts), o, sc[0], sc[1:]...).Decompose(id))
		check("constdp", constdp.NewConstDP(1, polyline(pts), nil, o, sc[0], sc[1:]...).Decompose(id))
		var dec = offset.EpsilonDecomposition{ScoreFn: fn, Relation: func(v float64) bool { return v <= lim }}
		check("decompose", decompose.DouglasPeucker(id, polyline(pts), dec, common.Geometry, &inst{}))
	})

	reg("C03", "metrics", "random coordinate sequences (also sub-ranges and views of longer ones): value, index and maximum against an independent oracle", func(c *Case) {
		var n = c.Size(2, 40)
		var pts = genPts(c, n)
		var i = c.Intn(n - 1)
		var j = i + 1 + c.Intn(n-1-i)
		var m = metrics[c.Intn(4)]
		c.In("%s on %d..%d of %s", m.name, i, j, ptsStr(pts))
		var pln = polyline(pts)
		var co = pln.SubCoordinates(rng.Range(i, j))
		if c.Chance(0.3) {
			var off = c.Intn(5)
			co = geom.Coords{Pnts: co.Pnts, Idxs: append(make([]int, off), co.Idxs...)[off:]}
		}
		var k, v = m.fn(co)
		var sub = pts[i : j+1]
		if len(sub) <= 2 {
			c.Trivial()
			if k != len(sub)-1 || v != 0 {
				c.Fail("no interior vertex: got %d %v", k, v)
			}
			return
		}
		var d = devs(sub, m.sed)
		var w = maxDev(d)
		if k <= 0 || k >= len(sub)-1 {
			c.Fail("index %d is not interior of 0..%d", k, len(sub)-1)
			return
		}
		var dk = d[k]
		if m.square {
			w, dk = w*w, dk*dk
		}
		if !near(v, w) {
			c.Fail("value %v, the maximum is %v (%v)", v, w, d)
		}
		if !near(v, dk) {
			c.Fail("index %d has deviation %v, reported %v (%v)", k, dk, v, d)
		}
		if !samePts(pln.Coordinates.Pnts, pts) {
			c.Fail("the metric changed the line")
		}
	})
	reg("C03", "metrics-ties", "sequences with equal deviations, zero deviations and vertices on the chord (time stamps increasing, equal or absent)", func(c *Case) {
		var n = c.Size(2, 12)
		var pts []geom.Point
		var kind = c.Intn(3)
		for k := 0; k < n; k++ {
			var p = geom.Point{float64(c.Intn(3)), float64(c.Intn(2)), 0}
			switch kind {
			case 0:
				p[2] = float64(k)
			case 1:
				p = geom.Point{float64(k), 0, float64(k)}
			}
			pts = append(pts, p)
		}
		var m = metrics[c.Intn(4)]
		if kind == 2 && m.sed {
			m = metrics[c.Intn(2)]
		}
		c.In("%s on %s", m.name, ptsStr(pts))
		var k, v = m.fn(geom.Coordinates(clonePts(pts)))
		if n <= 2 {
			c.Trivial()
			return
		}
		var d = devs(pts, m.sed)
		var w = maxDev(d)
		if k <= 0 || k >= n-1 {
			c.Fail("index %d is not interior", k)
			return
		}
		var dk = d[k]
		if m.square {
			w, dk = w*w, dk*dk
		}
		if !near(v, w) || !near(v, dk) {
			c.Fail("got %d %v, want maximum %v, deviation there %v (%v)", k, v, w, dk, d)
		}
	})
	reg("C03", "sed-no-time", "the synchronised metric on lines whose time stamps are all equal still reports an interior vertex", func(c *Case) {
		var n = c.Size(3, 12)
		var pts = flat(genPts(c, n))
		var m = metrics[2+c.Intn(2)]
		c.In("%s on %s", m.name, ptsStr(pts))
		var k, v = m.fn(geom.Coordinates(clonePts(pts)))
		if k <= 0 || k >= n-1 {
			c.Fail("index %d is not interior (value %v)", k, v)
		}
	})
}

// runFC simplifies 2-4 lines together and checks every line.
func runFC(c *Case, mod func(*opts.Opts)) {
	var nl = 2 + c.Intn(3)
	var o = genOpts(c)
	o.NonPlanarSelf = o.NonPlanarSelf && c.Chance(0.5)
	if mod != nil {
		mod(o)
	}
	var sh = genShapes(c, c.Intn(3), 0, 8)
	var nm, sc = genScore(c)
	var id = iter.NewIgen()
	var selfs []*constdp.ConstDP
	var lines [][]geom.Point
	var shared = c.Chance(0.5)
	c.In("opts %s metric %s contexts %s", optStr(o), nm, shapesStr(sh))
	for l := 0; l < nl; l++ {
		var pts = genGrid(c, c.Size(2, 14), 7)
		if shared && l > 0 && c.Chance(0.5) {
			pts[len(pts)-1][0], pts[len(pts)-1][1] = lines[0][0][0], lines[0][0][1]
			if len(pts) > 1 && same2(pts[len(pts)-1], pts[len(pts)-2]) {
				pts[len(pts)-2][0] += 0.5
			}
		}
		lines = append(lines, pts)
		c.In("line%d %s", l, ptsStr(pts))
		selfs = append(selfs, newDP(10+l, pts, sh, o, sc))
	}
	var rounds = 0
	var total = 0
	for _, l := range lines {
		total += len(l)
	}
	constdp.SimplifyFeatureClass(id, selfs, o, func(n int) { rounds++ })
	if rounds > 2*total+4 {
		c.Fail("%d refinement rounds for %d vertices", rounds, total)
	}
	if rounds < 2 {
		c.Trivial()
	}
	for l := range selfs {
		checkLine(c, fmt.Sprintf("line %d", l), selfs[l], lines[l])
	}
}
