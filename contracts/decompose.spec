package geometry

# the consecutive vertices of a range
func Polyline.SubCoordinates(pln, rng) (c)
  safe
  requires !isnil(pln) && !isnil(pln.LineString) && rng.I <= rng.J
  ensures [C01,C02] same points: same(c.Pnts, pln.Coordinates.Pnts)
  ensures [C01,C02] the whole range: len(c.Idxs) == rng.J - rng.I + 1
  ensures [C01,C02] consecutive vertices: forall(k, 0, len(c.Idxs), c.Idxs[k] == rng.I + k)
  ensures [C01,C02] own storage: fresh(c.Idxs)
  inv (s []int, i int) len(s) == i - rng.I && forall(k, 0, len(s), s[k] == rng.I + k)
  inv (s []int) fresh(s)
  inv (c geom.Coords, i int) len(c.Idxs) == i - rng.I && forall(k, 0, len(c.Idxs), c.Idxs[k] == rng.I + k)
  inv (c geom.Coords) fresh(c.Idxs)

func Polyline.Range(pln) (r)
  inline

package decompose

property C02: decompose.DouglasPeucker geometry.Polyline.SubCoordinates
property C01: decompose.DouglasPeucker geometry.Polyline.SubCoordinates

# b is an end of a piece when the range i..j of the points is decomposed: the range is a piece if
# its deviation is accepted, otherwise it is divided at the vertex the score function reports
logic cut(f func(geom.Coords) (int, float64), r func(float64) bool, p addr, o int, l int, i int, j int, b int) bool
axiom decomposition: each(f, func(geom.Coords) (int, float64), r, func(float64) bool, p, addr, o, int, l, int, i, int, j, int, b, int, trig(cut(f, r, p, o, l, i, j, b), rangecall(f, sliceof(p, o, l), i, j).r0), imp(i < j, iff(cut(f, r, p, o, l, i, j, b), ite(r(rangecall(f, sliceof(p, o, l), i, j).r1), b == i || b == j, let(k, i + rangecall(f, sliceof(p, o, l), i, j).r0, imp(i < k && k < j, cut(f, r, p, o, l, i, k, b) || cut(f, r, p, o, l, k, j, b)))))))

pred isCut(pln *geometry.Polyline, d offset.EpsilonDecomposition, i int, j int, b int) = cut(d.ScoreFn, d.Relation, base(pln.Coordinates.Pnts), off(pln.Coordinates.Pnts), len(pln.Coordinates.Pnts), i, j, b)
pred firstOf(pln *geometry.Polyline) = pln.Coordinates.Idxs[0]
pred lastOf(pln *geometry.Polyline) = pln.Coordinates.Idxs[len(pln.Coordinates.Idxs)-1]
# the metric divides every range it does not accept at a strictly interior vertex
pred divides(pln *geometry.Polyline, d offset.EpsilonDecomposition) = all(i, int, all(j, int, imp(i < j && !d.Relation(rangecall(d.ScoreFn, pln.Coordinates.Pnts, i, j).r1), 0 < rangecall(d.ScoreFn, pln.Coordinates.Pnts, i, j).r0 && rangecall(d.ScoreFn, pln.Coordinates.Pnts, i, j).r0 < j - i)))
pred accepted(pln *geometry.Polyline, d offset.EpsilonDecomposition, r rng.Rng) = d.Relation(rangecall(d.ScoreFn, pln.Coordinates.Pnts, r.I, r.J).r1)
# a piece carries the vertices of its range
pred carriesLine(n node.Node, pln *geometry.Polyline) = same(n.Polyline.Coordinates.Pnts, pln.Coordinates.Pnts) && len(n.Polyline.Coordinates.Idxs) == n.Range.J - n.Range.I + 1 && forall(k, 0, n.Range.J - n.Range.I + 1, n.Polyline.Coordinates.Idxs[k] == n.Range.I + k)

func DouglasPeucker(id, pln, decomp, geomFn, instance) (out)
  safe
  requires !isnil(pln)
  requires imp(!isnil(pln.LineString), len(pln.Coordinates.Idxs) >= 1 && firstOf(pln) < lastOf(pln) && divides(pln, decomp))
  modifies id.current
  ensures [C01,C02] a line without coordinates has no pieces: imp(isnil(pln.LineString), len(out) == 0)
  ensures [C01] first piece starts the line: imp(!isnil(pln.LineString), len(out) > 0 && out[0].Range.I == firstOf(pln))
  ensures [C01] last piece ends the line: imp(!isnil(pln.LineString), len(out) > 0 && out[len(out)-1].Range.J == lastOf(pln))
  ensures [C01] pieces meet end to end: forall(k, 0, len(out)-1, out[k].Range.J == out[k+1].Range.I)
  ensures [C01] pieces are non-empty: forall(k, 0, len(out), out[k].Range.I < out[k].Range.J)
  ensures [C01] pieces carry the vertices of their range: forall(k, 0, len(out), carriesLine(out[k], pln))
  ensures [C01] pieces belong to the line: forall(k, 0, len(out), out[k].Instance == instance)
  ensures [C02] every piece satisfies the threshold: forall(k, 0, len(out), accepted(pln, decomp, out[k].Range))
  ensures [C02] every end of a piece is a cut of the decomposition: forall(k, 0, len(out), isCut(pln, decomp, firstOf(pln), lastOf(pln), out[k].Range.I) && isCut(pln, decomp, firstOf(pln), lastOf(pln), out[k].Range.J))
  ensures [C02] every cut of the decomposition is an end of a piece: imp(!isnil(pln.LineString), all(b, int, imp(isCut(pln, decomp, firstOf(pln), lastOf(pln), b), b == out[0].Range.I || exists(k, 0, len(out), out[k].Range.J == b))))
  inv (s []node.Node) forall(k, 0, len(s)-1, s[k].Range.J == s[k+1].Range.I)
  inv (s []node.Node) forall(k, 0, len(s), s[k].Range.I < s[k].Range.J)
  inv (s []node.Node) forall(k, 0, len(s), carriesLine(s[k], pln))
  inv (s []node.Node) forall(k, 0, len(s), fresh(s[k].Polyline) && fresh(s[k].Polyline.Coordinates.Idxs))
  inv (s []node.Node) forall(k, 0, len(s), s[k].Instance == instance)
  inv (s []node.Node) forall(k, 0, len(s), accepted(pln, decomp, s[k].Range))
  inv (s []node.Node) imp(len(s) > 0, s[0].Range.I == firstOf(pln))
  inv (s []rng.Rng) forall(k, 0, len(s), s[k].I < s[k].J)
  inv (s []rng.Rng) forall(k, 0, len(s)-1, s[k].I == s[k+1].J)
  inv (s []rng.Rng) imp(len(s) > 0, s[0].J == lastOf(pln))
  inv (s []rng.Rng, q []node.Node) imp(len(s) > 0 && len(q) == 0, s[len(s)-1].I == firstOf(pln))
  inv (s []rng.Rng, q []node.Node) imp(len(s) > 0 && len(q) > 0, s[len(s)-1].I == q[len(q)-1].Range.J)
  inv (s []rng.Rng, q []node.Node) imp(len(s) == 0, len(q) > 0 && q[len(q)-1].Range.J == lastOf(pln))
  inv (s []node.Node) fresh(s)
  inv (s []rng.Rng) fresh(s)
  inv (q []node.Node) forall(k, 0, len(q), isCut(pln, decomp, firstOf(pln), lastOf(pln), q[k].Range.I) && isCut(pln, decomp, firstOf(pln), lastOf(pln), q[k].Range.J))
  inv (s []rng.Rng) forall(m, 0, len(s), all(b, int, imp(isCut(pln, decomp, s[m].I, s[m].J, b), isCut(pln, decomp, firstOf(pln), lastOf(pln), b))))
  inv (s []rng.Rng, q []node.Node) all(b, int, imp(isCut(pln, decomp, firstOf(pln), lastOf(pln), b), b == firstOf(pln) || exists(k, 0, len(q), q[k].Range.J == b) || exists(m, 0, len(s), isCut(pln, decomp, s[m].I, s[m].J, b))))
