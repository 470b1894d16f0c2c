package main

import (
	"github.com/TopoSimplify/plugin/common"
	"github.com/TopoSimplify/plugin/node"
	"github.com/TopoSimplify/plugin/rng"
	"github.com/TopoSimplify/plugin/split"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"
)

func init() {
	reg("C04", "range-split", "random ranges and index lists (unsorted, duplicated, out of range); non-trivial: at least one index strictly inside", func(c *Case) {
		var i = c.Intn(6) - 1
		var j = i + c.Intn(c.Size(2, 14))
		var idxs []int
		for k := c.Intn(c.Size(1, 12) + 1); k > 0; k-- {
			idxs = append(idxs, i-2+c.Intn(j-i+5))
		}
		var in = append([]int{}, idxs...)
		c.In("rng.Range(%d,%d).Split(%v)", i, j, idxs)
		var sub = rng.Range(i, j).Split(idxs)
		var cuts []int
		for _, v := range in {
			if i < v && v < j {
				cuts = append(cuts, v)
			}
		}
		cuts = uniqSorted(cuts)
		var want []rng.Rng
		if len(cuts) > 0 {
			var s = i
			for _, v := range append(cuts, j) {
				want = append(want, rng.Range(s, v))
				s = v
			}
		} else {
			c.Trivial()
		}
		if len(sub) != len(want) {
			c.Fail("got %v want %v", sub, want)
			return
		}
		for k := range sub {
			if sub[k] != want[k] {
				c.Fail("got %v want %v", sub, want)
				return
			}
		}
	})

	reg("C04", "split-pieces", "a random line, one of its pieces (possibly a part of an earlier split), split at random indices and at the farthest vertex; non-trivial: the split yields parts", func(c *Case) {
		var n = c.Size(3, 24)
		var pts = genPts(c, n)
		var pln = polyline(pts)
		var id = iter.NewIgen()
		var own = &inst{id: 7}
		var i = c.Intn(n - 1)
		var j = i + 1 + c.Intn(n-1-i)
		c.In("line %s piece %d-%d", ptsStr(pts), i, j)
		var hull = piece(id, pln, i, j, own)
		if c.Chance(0.5) && j-i > 2 {
			var parts = split.AtIndex(id, &hull, []int{i + 1 + c.Intn(j-i-1)}, common.Geometry)
			if len(parts) == 2 {
				hull = parts[c.Intn(2)]
				i, j = hull.Range.I, hull.Range.J
				c.In("then its part %d-%d", i, j)
			}
		}
		if c.Chance(0.2) {
			// the same piece of a line whose vertices are not numbered from zero in its point array
			var sh = 1 + c.Intn(4)
			var co = hull.Coordinates()
			var idx []int
			for k := i; k <= j; k++ {
				idx = append(idx, k+sh)
			}
			hull = node.CreateNode(id, geom.Coords{Pnts: append(genPts(c, sh), co.Pnts...), Idxs: idx}, hull.Range, common.Geometry, own)
			c.In("vertices numbered from %d", sh)
		}
		var snapIdx = append([]int{}, hull.Coordinates().Idxs...)
		var snapRest = append([]int{}, hull.Coordinates().Idxs[:cap(hull.Coordinates().Idxs)]...)
		var snapR, snapId, snapMBR, snapG = hull.Range, hull.Id, hull.MBR, hull.Geom
		var wkt = hull.Geom.WKT()

		var check = func(what string, parts []node.Node, cuts []int) {
			var bounds = append(append([]int{i}, cuts...), j)
			if len(parts) != len(bounds)-1 {
				c.Fail("%s: %d parts (%s), want cuts %v of %d-%d", what, len(parts), rngStr(parts), cuts, i, j)
				return
			}
			var ids = map[int]bool{hull.Id: true}
			for k := range parts {
				var p = &parts[k]
				if p.Range.I != bounds[k] || p.Range.J != bounds[k+1] {
					c.Fail("%s: part %d is %v, want %d-%d", what, k, p.Range, bounds[k], bounds[k+1])
					return
				}
				if !samePts(nodePts(p), pts[p.Range.I:p.Range.J+1]) {
					c.Fail("%s: part %v carries %s", what, p.Range, ptsStr(nodePts(p)))
				}
				if !eqInts(p.Coordinates().Idxs, snapIdx[bounds[k]-i:bounds[k+1]-i+1]) {
					c.Fail("%s: part %v has vertex indices %v", what, p.Range, p.Coordinates().Idxs)
				}
				if in, ok := p.Instance.(*inst); !ok || in != own {
					c.Fail("%s: part %v belongs to another owner", what, p.Range)
				}
				if ids[p.Id] {
					c.Fail("%s: part %v reuses the id %d", what, p.Range, p.Id)
				}
				ids[p.Id] = true
			}
		}
		var unchanged = func(what string) {
			if hull.Range != snapR || hull.Id != snapId || hull.MBR != snapMBR || hull.Geom != snapG || hull.Instance != own || hull.Geom.WKT() != wkt {
				c.Fail("%s: the original piece was changed", what)
			}
			if !eqInts(hull.Coordinates().Idxs, snapIdx) || !eqInts(hull.Coordinates().Idxs[:len(snapRest)], snapRest) {
				c.Fail("%s: the vertex indices of the original piece were changed to %v", what, hull.Coordinates().Idxs)
			}
			if !samePts(pln.Coordinates.Pnts, pts) || pln.Len() != n {
				c.Fail("%s: the line was changed", what)
			}
			if own.id != 7 || own.st {
				c.Fail("%s: the owner was changed", what)
			}
		}

		var idxs []int
		for k := c.Intn(7); k > 0; k-- {
			idxs = append(idxs, i-2+c.Intn(j-i+5))
		}
		c.In("AtIndex %v", idxs)
		var cuts []int
		for _, v := range idxs {
			if i < v && v < j {
				cuts = append(cuts, v)
			}
		}
		cuts = uniqSorted(cuts)
		var parts = split.AtIndex(id, &hull, idxs, common.Geometry)
		if len(cuts) == 0 {
			if len(parts) != 0 {
				c.Fail("AtIndex: nothing to cut but parts %s", rngStr(parts))
			}
			c.Trivial()
		} else {
			check("AtIndex", parts, cuts)
		}
		unchanged("AtIndex")

		if j-i > 1 {
			var m = metrics[c.Intn(len(metrics))]
			c.In("AtScoreSelection %s", m.name)
			var k, _ = m.fn(hull.Coordinates())
			var ha, hb = split.AtScoreSelection(id, &hull, func(co geom.Coords) (int, float64) { return m.fn(co) }, common.Geometry)
			check("AtScoreSelection", []node.Node{ha, hb}, []int{i + k})
			unchanged("AtScoreSelection")
		}
	})
}
