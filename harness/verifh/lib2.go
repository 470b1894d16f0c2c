package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/TopoSimplify/plugin/constdp"
	"github.com/TopoSimplify/plugin/geometry"
	"github.com/TopoSimplify/plugin/lnr"
	"github.com/TopoSimplify/plugin/node"
	"github.com/TopoSimplify/plugin/offset"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"
)

// ---- exact plane geometry on small integer coordinates -------------------

func orient(a, b, c geom.Point) float64 {
	var v = (b[0]-a[0])*(c[1]-a[1]) - (b[1]-a[1])*(c[0]-a[0])
	if v > 0 {
		return 1
	} else if v < 0 {
		return -1
	}
	return 0
}

func onSeg(a, b, p geom.Point) bool {
	return orient(a, b, p) == 0 &&
		math.Min(a[0], b[0]) <= p[0] && p[0] <= math.Max(a[0], b[0]) &&
		math.Min(a[1], b[1]) <= p[1] && p[1] <= math.Max(a[1], b[1])
}

func same2(a, b geom.Point) bool { return a[0] == b[0] && a[1] == b[1] }

func segsMeet(a, b, c, d geom.Point) bool {
	var o1, o2, o3, o4 = orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b)
	if o1*o2 < 0 && o3*o4 < 0 {
		return true
	}
	return onSeg(a, b, c) || onSeg(a, b, d) || onSeg(c, d, a) || onSeg(c, d, b)
}

// shape is a context geometry known to the oracle: a point, a chain or a ring.
type shape struct {
	pts  []geom.Point
	ring bool
}

func (s shape) String() string {
	if len(s.pts) == 1 {
		return fmt.Sprintf("POINT%s", ptsStr(s.pts))
	}
	if s.ring {
		return fmt.Sprintf("POLYGON%s", ptsStr(s.pts))
	}
	return fmt.Sprintf("LINE%s", ptsStr(s.pts))
}

func (s shape) segs() [][2]geom.Point {
	var o [][2]geom.Point
	if len(s.pts) == 1 {
		return [][2]geom.Point{{s.pts[0], s.pts[0]}}
	}
	for i := 0; i+1 < len(s.pts); i++ {
		o = append(o, [2]geom.Point{s.pts[i], s.pts[i+1]})
	}
	if s.ring {
		o = append(o, [2]geom.Point{s.pts[len(s.pts)-1], s.pts[0]})
	}
	return o
}

func (s shape) contains(p geom.Point) bool {
	if !s.ring {
		return false
	}
	for _, g := range s.segs() {
		if onSeg(g[0], g[1], p) {
			return true
		}
	}
	var in = false
	var n = len(s.pts)
	for i, j := 0, n-1; i < n; j, i = i, i+1 {
		var a, b = s.pts[i], s.pts[j]
		if (a[1] > p[1]) != (b[1] > p[1]) {
			var x = a[0] + (p[1]-a[1])*(b[0]-a[0])/(b[1]-a[1])
			if p[0] < x {
				in = !in
			}
		}
	}
	return in
}

// meets: does the chain pts (one or more vertices) meet the shape?
func (s shape) meets(pts []geom.Point) bool {
	for _, p := range pts {
		if s.contains(p) {
			return true
		}
	}
	for _, g := range s.segs() {
		if len(pts) == 1 && onSeg(g[0], g[1], pts[0]) {
			return true
		}
		for i := 0; i+1 < len(pts); i++ {
			if segsMeet(pts[i], pts[i+1], g[0], g[1]) {
				return true
			}
		}
	}
	return false
}

func segSegDist(a, b, c, d geom.Point) float64 {
	if segsMeet(a, b, c, d) {
		return 0
	}
	return math.Min(math.Min(segDist(a, b, c), segDist(a, b, d)), math.Min(segDist(c, d, a), segDist(c, d, b)))
}

func (s shape) dist(pts []geom.Point) float64 {
	if s.meets(pts) {
		return 0
	}
	var m = math.Inf(1)
	for _, g := range s.segs() {
		for i := 0; i+1 < len(pts); i++ {
			m = math.Min(m, segSegDist(pts[i], pts[i+1], g[0], g[1]))
		}
		if len(pts) == 1 {
			m = math.Min(m, segDist(g[0], g[1], pts[0]))
		}
	}
	return m
}

func (s shape) geom() geometry.IGeometry {
	if len(s.pts) == 1 {
		return geometry.CreatePoint("idx:0-pos:0", s.pts[0][:2], "null")
	}
	if s.ring {
		var r = append(flat(s.pts), flat(s.pts[:1])...)
		return geometry.CreatePolygon("idx:0-pos:0", []geom.Coords{geom.Coordinates(r)}, "null")
	}
	return geometry.CreatePolyline("idx:0-pos:0", geom.Coordinates(flat(s.pts)), "null")
}

func gpt(c *Case, lo, hi int) geom.Point {
	return geom.Point{float64(lo + c.Intn(hi-lo+1)), float64(lo + c.Intn(hi-lo+1))}
}

// genShape makes a small context on the integer grid lo..hi.
func genShape(c *Case, lo, hi int) shape {
	switch c.Intn(4) {
	case 0, 1:
		return shape{pts: []geom.Point{gpt(c, lo, hi)}}
	case 2:
		var p = gpt(c, lo, hi)
		var q = geom.Point{p[0] + float64(c.Intn(5)-2), p[1] + float64(c.Intn(5)-2)}
		if same2(p, q) {
			q[0]++
		}
		var pts = []geom.Point{p, q}
		if c.Chance(0.4) {
			var r = geom.Point{q[0] + float64(c.Intn(5)-2), q[1] + float64(c.Intn(3)-1)}
			if !same2(r, q) {
				pts = append(pts, r)
			}
		}
		return shape{pts: pts}
	default:
		var p = gpt(c, lo, hi)
		var w, h = float64(1 + c.Intn(3)), float64(1 + c.Intn(3))
		if c.Chance(0.5) {
			return shape{pts: []geom.Point{p, {p[0] + w, p[1]}, {p[0], p[1] + h}}, ring: true}
		}
		return shape{pts: []geom.Point{p, {p[0] + w, p[1]}, {p[0] + w, p[1] + h}, {p[0], p[1] + h}}, ring: true}
	}
}

// genGrid makes a line on the integer grid (exact arithmetic for the oracle).
func genGrid(c *Case, n, span int) []geom.Point {
	var pts []geom.Point
	var kind = c.Intn(4)
	var x, y float64
	var t = 0.0
	for len(pts) < n {
		var p geom.Point
		switch kind {
		case 0:
			p = gpt(c, 0, span)
		case 1:
			x += float64(1 + c.Intn(2))
			p = geom.Point{x, float64(c.Intn(span + 1))}
		case 2:
			x += float64(c.Intn(5) - 2)
			y += float64(c.Intn(5) - 2)
			p = geom.Point{x, y}
		default:
			x += float64(c.Intn(4) - 1)
			p = geom.Point{x, 0}
			if c.Chance(0.35) {
				p[1] = float64(c.Intn(3))
			}
		}
		if len(pts) > 0 && same2(pts[len(pts)-1], p) {
			continue
		}
		t += float64(1 + c.Intn(3))
		p[2] = t
		pts = append(pts, p)
	}
	return pts
}

func collinear(pts []geom.Point) bool {
	for i := 2; i < len(pts); i++ {
		if orient(pts[0], pts[1], pts[i]) != 0 {
			return false
		}
	}
	return true
}

// ---- configurations --------------------------------------------------------

func genOpts(c *Case) *opts.Opts {
	var o = &opts.Opts{
		Threshold:              []float64{0, 0.5, 1, 2, 4, 10}[c.Intn(6)],
		MinDist:                []float64{0, 0.75, 1.5, 3}[c.Intn(4)],
		NonPlanarDisplacement:  []float64{0, 1, 5}[c.Intn(3)],
		PlanarSelf:             c.Chance(0.5),
		NonPlanarSelf:          c.Chance(0.5),
		AvoidNewSelfIntersects: c.Chance(0.4),
		GeomRelation:           c.Chance(0.4),
		DistRelation:           c.Chance(0.4),
		DirRelation:            c.Chance(0.4),
	}
	return o
}

func optStr(o *opts.Opts) string { return o.String() }

func genScore(c *Case) (string, []lnr.ScoreFn) {
	switch c.Intn(4) {
	case 0:
		return "dp", []lnr.ScoreFn{offset.MaxOffset}
	case 1:
		return "dp+square", []lnr.ScoreFn{offset.MaxOffset, offset.SquareMaxOffset}
	case 2:
		return "sed", []lnr.ScoreFn{offset.MaxSEDOffset}
	default:
		return "sed+square", []lnr.ScoreFn{offset.MaxSEDOffset, offset.SqureMaxSEDOffset}
	}
}

func genShapes(c *Case, n, lo, hi int) []shape {
	var s []shape
	for i := 0; i < n; i++ {
		s = append(s, genShape(c, lo, hi))
	}
	return s
}

func shapeGeoms(s []shape) []geometry.IGeometry {
	var o []geometry.IGeometry
	for _, v := range s {
		o = append(o, v.geom())
	}
	return o
}

func shapesStr(s []shape) string {
	var o []string
	for _, v := range s {
		o = append(o, v.String())
	}
	return strings.Join(o, " ")
}

func newDP(id int, pts []geom.Point, sh []shape, o *opts.Opts, score []lnr.ScoreFn) *constdp.ConstDP {
	return constdp.NewConstDP(id, polyline(pts), shapeGeoms(sh), o, score[0], score[1:]...)
}

func simple(cdp *constdp.ConstDP) []int {
	var o []int
	for _, v := range cdp.SimpleSet.Values() {
		o = append(o, v.(int))
	}
	return o
}

func ends(ns []node.Node) []int {
	var o []int
	for i := range ns {
		o = append(o, ns[i].Range.I, ns[i].Range.J)
	}
	return uniqSorted(o)
}

func has(a []int, v int) bool {
	var k = sort.SearchInts(a, v)
	return k < len(a) && a[k] == v
}

// checkLine: the final pieces tile the line and the retained vertices are exactly their ends.
func checkLine(c *Case, what string, cdp *constdp.ConstDP, pts []geom.Point) {
	checkTiling(c, what, cdp.Hulls, pts)
	var s = simple(cdp)
	if !eqInts(s, ends(cdp.Hulls)) {
		c.Fail("%s: retained vertices %v are not the ends %v of the pieces", what, s, ends(cdp.Hulls))
	}
	if len(s) == 0 || s[0] != 0 || s[len(s)-1] != len(pts)-1 {
		c.Fail("%s: retained vertices %v miss an end of the line 0..%d", what, s, len(pts)-1)
	}
	if !samePts(cdp.Polyline.Coordinates.Pnts, pts) || !eqInts(cdp.Polyline.Coordinates.Idxs, ints(len(pts))) {
		c.Fail("%s: the coordinates of the line were changed", what)
	}
	for i := range cdp.Hulls {
		if in, ok := cdp.Hulls[i].Instance.(*constdp.ConstDP); !ok || in != cdp {
			c.Fail("%s: piece %v belongs to another line", what, cdp.Hulls[i].Range)
		}
	}
}

var _ = iter.NewIgen
