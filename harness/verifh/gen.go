package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/TopoSimplify/plugin/common"
	"github.com/TopoSimplify/plugin/geometry"
	"github.com/TopoSimplify/plugin/node"
	"github.com/TopoSimplify/plugin/offset"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/TopoSimplify/plugin/rng"
	"github.com/TopoSimplify/plugin/state"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"
)

var allowDup = true

// genPts makes a line of n vertices; consecutive vertices differ.
func genPts(c *Case, n int) []geom.Point {
	var pts = make([]geom.Point, 0, n)
	var kind = c.Intn(7)
	var dup = allowDup && c.Chance(0.5)
	var x, y, t float64
	var ang = 0.0
	for len(pts) < n {
		var p geom.Point
		switch kind {
		case 0, 1: // small integer grid: many coincidences
			p = geom.Point{float64(c.Intn(6)), float64(c.Intn(6))}
		case 2: // monotone wiggle
			x += 1 + float64(c.Intn(3))
			p = geom.Point{x, float64(c.Intn(9))}
		case 3: // random walk on the integer grid
			x += float64(c.Intn(5) - 2)
			y += float64(c.Intn(5) - 2)
			p = geom.Point{x, y}
		case 4: // smooth curve with noise
			ang += (c.R.Float64() - 0.5) * 1.8
			x += 3 * math.Cos(ang)
			y += 3 * math.Sin(ang)
			p = geom.Point{x, y}
		case 5: // mostly collinear
			x += 1 + float64(c.Intn(2))
			p = geom.Point{x, 0}
			if c.Chance(0.3) {
				p[1] = float64(c.Intn(4))
			}
		default: // uniform floats
			p = geom.Point{c.R.Float64() * 20, c.R.Float64() * 20}
		}
		if len(pts) > 0 && pts[len(pts)-1][0] == p[0] && pts[len(pts)-1][1] == p[1] && !dup {
			if kind == 3 {
				x++
			}
			continue
		}
		t += 1 + float64(c.Intn(3))
		p[2] = t
		pts = append(pts, p)
	}
	return pts
}

func flat(pts []geom.Point) []geom.Point {
	var o = make([]geom.Point, len(pts))
	for i, p := range pts {
		o[i] = geom.Point{p[0], p[1]}
	}
	return o
}

func ptsStr(pts []geom.Point) string {
	var b strings.Builder
	b.WriteString("[")
	for i, p := range pts {
		if i > 0 {
			b.WriteString(" ")
		}
		fmt.Fprintf(&b, "(%v,%v,%v)", p[0], p[1], p[2])
	}
	b.WriteString("]")
	return b.String()
}

func clonePts(p []geom.Point) []geom.Point { return append([]geom.Point{}, p...) }

func samePts(a, b []geom.Point) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// inst is a minimal owner of pieces.
type inst struct {
	id int
	o  *opts.Opts
	st state.State
}

func (i *inst) Id() int             { return i.id }
func (i *inst) Options() *opts.Opts { return i.o }
func (i *inst) Simple() []int       { return nil }
func (i *inst) State() *state.State { return &i.st }

func polyline(pts []geom.Point) *geometry.Polyline {
	return geometry.CreatePolyline("idx:0-pos:0", geom.Coordinates(clonePts(pts)), "null")
}

func coordsOf(c geom.Coords) []geom.Point {
	var o []geom.Point
	for i := 0; i < c.Len(); i++ {
		o = append(o, *c.Pt(i))
	}
	return o
}

func nodePts(n *node.Node) []geom.Point { return coordsOf(n.Coordinates()) }

// piece makes the piece i..j of a polyline as the code itself does.
func piece(id *iter.Igen, pln *geometry.Polyline, i, j int, in *inst) node.Node {
	var r = rng.Range(i, j)
	return node.CreateNode(id, pln.SubCoordinates(r), r, common.Geometry, in)
}

func rngStr(ns []node.Node) string {
	var s []string
	for _, n := range ns {
		s = append(s, fmt.Sprintf("%d-%d", n.Range.I, n.Range.J))
	}
	return strings.Join(s, ",")
}

func sortNodes(ns []node.Node) []node.Node {
	var o = append([]node.Node{}, ns...)
	sort.SliceStable(o, func(i, j int) bool { return o[i].Range.I < o[j].Range.I })
	return o
}

// checkTiling: the pieces cover 0..n-1 end to end, each with exactly the vertices of its range.
func checkTiling(c *Case, what string, ns []node.Node, pts []geom.Point) {
	var s = sortNodes(ns)
	if len(s) == 0 {
		c.Fail("%s: no pieces", what)
		return
	}
	if s[0].Range.I != 0 || s[len(s)-1].Range.J != len(pts)-1 {
		c.Fail("%s: pieces %s do not reach the ends 0..%d", what, rngStr(s), len(pts)-1)
	}
	for k := range s {
		if s[k].Range.I >= s[k].Range.J {
			c.Fail("%s: empty piece in %s", what, rngStr(s))
			return
		}
		if k > 0 && s[k-1].Range.J != s[k].Range.I {
			c.Fail("%s: pieces %s do not meet end to end", what, rngStr(s))
			return
		}
		if s[k].Range.J >= len(pts) || s[k].Range.I < 0 {
			c.Fail("%s: piece %v outside the line of %d vertices", what, s[k].Range, len(pts))
			return
		}
		if !samePts(nodePts(&s[k]), pts[s[k].Range.I:s[k].Range.J+1]) {
			c.Fail("%s: piece %v carries %s instead of its vertices", what, s[k].Range, ptsStr(nodePts(&s[k])))
		}
	}
}

type metric struct {
	name   string
	fn     func(geom.Coords) (int, float64)
	oracle func(pts []geom.Point) (int, float64, []float64)
	square bool
	sed    bool
}

func segDist(a, b, p geom.Point) float64 {
	var dx, dy = b[0] - a[0], b[1] - a[1]
	var l2 = dx*dx + dy*dy
	if l2 == 0 {
		return math.Hypot(p[0]-a[0], p[1]-a[1])
	}
	var t = ((p[0]-a[0])*dx + (p[1]-a[1])*dy) / l2
	if t < 0 {
		t = 0
	}
	if t > 1 {
		t = 1
	}
	return math.Hypot(p[0]-(a[0]+t*dx), p[1]-(a[1]+t*dy))
}

func chordDevs(pts []geom.Point) []float64 {
	var n = len(pts)
	var d = make([]float64, n)
	for k := 1; k < n-1; k++ {
		d[k] = segDist(pts[0], pts[n-1], pts[k])
	}
	return d
}

func sedDevs(pts []geom.Point) []float64 {
	var n = len(pts)
	var d = make([]float64, n)
	var a, b = pts[0], pts[n-1]
	for k := 1; k < n-1; k++ {
		var u = (pts[k][2] - a[2]) / (b[2] - a[2])
		d[k] = math.Hypot(pts[k][0]-(a[0]+u*(b[0]-a[0])), pts[k][1]-(a[1]+u*(b[1]-a[1])))
	}
	return d
}

func maxDev(d []float64) float64 {
	var m = 0.0
	for _, v := range d {
		if v > m {
			m = v
		}
	}
	return m
}

func devs(pts []geom.Point, sed bool) []float64 {
	if sed {
		return sedDevs(pts)
	}
	return chordDevs(pts)
}

var metrics = []metric{
	{name: "MaxOffset", fn: offset.MaxOffset},
	{name: "SquareMaxOffset", fn: offset.SquareMaxOffset, square: true},
	{name: "MaxSEDOffset", fn: offset.MaxSEDOffset, sed: true},
	{name: "SqureMaxSEDOffset", fn: offset.SqureMaxSEDOffset, sed: true, square: true},
}

func near(a, b float64) bool {
	return math.Abs(a-b) <= 1e-7*(1+math.Abs(a)+math.Abs(b))
}

func ints(n int) []int {
	var o = make([]int, n)
	for i := range o {
		o[i] = i
	}
	return o
}

func eqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func uniqSorted(a []int) []int {
	var m = map[int]bool{}
	for _, v := range a {
		m[v] = true
	}
	var o = make([]int, 0, len(m))
	for v := range m {
		o = append(o, v)
	}
	sort.Ints(o)
	return o
}
