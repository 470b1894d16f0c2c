package geom

# Two coordinates of (about) one position, as the library compares them.
logic near(a float64, b float64) bool
pred sameCoord(a float64, b float64) = a == b || (near(a, b) && !isnan(a) && !isnan(b))
pred samePlace(p geom.Point, q geom.Point) = sameCoord(p[0], q[0]) && sameCoord(p[1], q[1])
logic apart(x float64, y float64, u float64, v float64) float64
# is the position inside the ring
logic inRing(r *LinearRing, x float64, y float64) bool
# the points two segments share (p, o, l name the array of the first, q, r, m of the second)
logic segsCross(p addr, o int, l int, i int, j int, q addr, r int, m int, u int, v int) []geom.Point
pred segCross(c Coords, i int, j int, d Coords, k int, m int) = segsCross(base(c.Pnts), off(c.Pnts), len(c.Pnts), c.Idxs[i], c.Idxs[j], base(d.Pnts), off(d.Pnts), len(d.Pnts), d.Idxs[k], d.Idxs[m])

func Point.Equals2D(pt, o) (b)
  trusted
  ensures b == samePlace(*pt, *o)

func Point.Distance(self, other) (d)
  trusted
  ensures imp(typeis(other, Point), same(d, apart(self[0], self[1], as(other, Point)[0], as(other, Point)[1])))

func LinearRing.PointCompletelyInRing(self, pnt) (b)
  trusted
  ensures b == inRing(self, pnt[0], pnt[1])

func Segment.Intersection(self, other) (pts)
  trusted
  ensures imp(typeis(other, *Segment), same(pts, segCross(self.Coords, 0, 1, as(other, *Segment).Coords, 0, 1)))

package node

pred nv(h *node.Node) = len(h.Polyline.Coordinates.Idxs)
pred firstAt(h *node.Node) = h.Polyline.Coordinates.Pnts[h.Polyline.Coordinates.Idxs[0]]
pred lastAt(h *node.Node) = h.Polyline.Coordinates.Pnts[h.Polyline.Coordinates.Idxs[nv(h)-1]]
# the two replacement segments share an end
pred shareEnd(a *node.Node, b *node.Node) = samePlace(lastAt(a), firstAt(b)) || samePlace(lastAt(a), lastAt(b)) || samePlace(firstAt(a), lastAt(b)) || samePlace(firstAt(a), firstAt(b))
pred anEnd(p geom.Point, h *node.Node) = samePlace(p, firstAt(h)) || samePlace(p, lastAt(h))
pred hullMeets(a *node.Node, b *node.Node) = a.Geom.Intersects(b.Geom)
pred hullPoints(a *node.Node, b *node.Node) = a.Geom.Intersection(b.Geom)
pred contiguous(a *node.Node, b *node.Node) = hullMeets(a, b) && shareEnd(a, b) && exists(k, 0, len(hullPoints(a, b)), anEnd(hullPoints(a, b)[k], a) || anEnd(hullPoints(a, b)[k], b))
# the end of b that a does not touch lies inside the hull of a
pred farInside(a *node.Node, b *node.Node) = ite(samePlace(firstAt(a), firstAt(b)) || samePlace(lastAt(a), firstAt(b)),
   ite(samePlace(firstAt(b), lastAt(b)), inRing(as(a.Geom.Geometry(), *geom.Polygon).Shell, firstAt(b)[0], firstAt(b)[1]), inRing(as(a.Geom.Geometry(), *geom.Polygon).Shell, lastAt(b)[0], lastAt(b)[1])),
   inRing(as(a.Geom.Geometry(), *geom.Polygon).Shell, firstAt(b)[0], firstAt(b)[1]))
pred collapsible(a *node.Node, b *node.Node) = a.Range.J - a.Range.I == 1 || a.Geom.Type().IsLineString() || !shareEnd(a, b) || !farInside(a, b)
pred hasHull(h *node.Node) = !isnil(h) && !isnil(h.Geom) && !isnil(h.Polyline) && nv(h) >= 2
pred areal(h *node.Node) = h.Geom.Type().IsLineString() || typeis(h.Geom.Geometry(), *geom.Polygon)

func IsContiguous(a, b) (met, contig, n)
  requires hasHull(a) && hasHull(b)
  ensures [C11] met exactly if the hulls meet: met == hullMeets(a, b)
  ensures [C11] contiguous exactly if they meet in an end and share one: contig == contiguous(a, b)
  ensures [C11] counts the meeting points: n == ite(hullMeets(a, b), len(hullPoints(a, b)), 0)
  inv (i int, p []geom.Point) imp(shareEnd(a, b), forall(k, 0, i, !anEnd(p[k], a) && !anEnd(p[k], b)))
  inv (i int, p []geom.Point) imp(shareEnd(a, b), forall(k, 0, i+1, !anEnd(p[k], a) && !anEnd(p[k], b)))
  inv (i int, p []geom.Point) forall(k, 0, i, !anEnd(p[k], a) && !anEnd(p[k], b))

func Node.Collapsible(self, other) (b)
  requires hasHull(self) && hasHull(other) && areal(self)
  ensures [C11] collapsible unless the far end lies in the hull: b == collapsible(self, other)

func Neighbours(hull, neighbs) (prev, nxt)
  safe
  requires !isnil(hull) && forall(k, 0, len(neighbs), !isnil(neighbs[k]))
  ensures [C13] previous piece ends where the piece starts: imp(!isnil(prev), occurs(prev, neighbs) && prev != hull && prev.Range.J == hull.Range.I)
  ensures [C13] next piece starts where the piece ends: imp(!isnil(nxt), occurs(nxt, neighbs) && nxt != hull && nxt.Range.I == hull.Range.J)
  ensures [C13] no previous piece only if there is none: imp(isnil(prev), forall(k, 0, len(neighbs), imp(neighbs[k] != hull, neighbs[k].Range.J != hull.Range.I)))
  ensures [C13] no next piece only if there is none: imp(isnil(nxt), forall(k, 0, len(neighbs), imp(neighbs[k] != hull && neighbs[k].Range.J != hull.Range.I, neighbs[k].Range.I != hull.Range.J)))
  inv (p *node.Node, i int) imp(!isnil(p), occurs(p, neighbs) && p != hull && p.Range.J == hull.Range.I)
  inv (p *node.Node, i int) imp(!isnil(p), occurs(p, neighbs) && p != hull && p.Range.I == hull.Range.J)
  inv (p *node.Node, i int) imp(isnil(p), forall(k, 0, i+1, imp(neighbs[k] != hull, neighbs[k].Range.J != hull.Range.I)))
  inv (p *node.Node, i int) imp(isnil(p), forall(k, 0, i+1, imp(neighbs[k] != hull && neighbs[k].Range.J != hull.Range.I, neighbs[k].Range.I != hull.Range.J)))
  inv (p *node.Node, i int) imp(isnil(p), forall(k, 0, i, imp(neighbs[k] != hull, neighbs[k].Range.J != hull.Range.I)))
  inv (p *node.Node, i int) imp(isnil(p), forall(k, 0, i, imp(neighbs[k] != hull && neighbs[k].Range.J != hull.Range.I, neighbs[k].Range.I != hull.Range.J)))

package deform


func isSame(a, b) (r)
  inline

func contiguousCandidates(a, b) (sa, sb)
  requires hasHull(a) && hasHull(b) && areal(a) && areal(b)
  ensures [C11] first selected exactly if not collapsible towards the second: sa == ite(collapsible(a, b), nil, a)
  ensures [C11] second selected exactly if not collapsible towards the first: sb == ite(collapsible(b, a), nil, b)

pred segsMeetHere(a *node.Node, b *node.Node) = segSeg(a.Polyline.Coordinates, 0, nv(a)-1, b.Polyline.Coordinates, 0, nv(b)-1)
pred crossAt(a *node.Node, b *node.Node) = segCross(a.Polyline.Coordinates, 0, nv(a)-1, b.Polyline.Coordinates, 0, nv(b)-1)
pred linesAt(a *node.Node, b *node.Node) = a.Polyline.Geometry().Intersection(b.Polyline.Geometry())
pred linesMeet(a *node.Node, b *node.Node) = a.Polyline.Geometry().Intersects(b.Polyline.Geometry())
pred displaced(a *node.Node, b *node.Node, d float64) =
  exists(i, 0, len(linesAt(a, b)), exists(j, 0, len(crossAt(a, b)), apart(linesAt(a, b)[i][0], linesAt(a, b)[i][1], crossAt(a, b)[j][0], crossAt(a, b)[j][1]) > d))
# lines that meet: their crossing is lost or moved too far by the replacement segments
pred crossingLost(a *node.Node, b *node.Node, d float64) = linesMeet(a, b) && ((len(crossAt(a, b)) == 0 && len(linesAt(a, b)) > 0) || displaced(a, b, d))
# lines that do not meet: replacement segments cross, and one of them the other line
pred firstCrosses(a *node.Node, b *node.Node) = !linesMeet(a, b) && segsMeetHere(a, b) && replacementMeets(a, b.Polyline.Geometry())
pred secondCrosses(a *node.Node, b *node.Node) = !linesMeet(a, b) && segsMeetHere(a, b) && replacementMeets(b, a.Polyline.Geometry())

func nonContiguousCandidates(options, a, b) (sa, sb)
  requires !isnil(options) && piece(a) && piece(b)
  ensures [C11] selects only the two pieces: (isnil(sa) || sa == a) && (isnil(sb) || sb == b)
  ensures [C11] first selected exactly on a conflict it takes part in: iff(!isnil(sa), firstCrosses(a, b) || crossingLost(a, b, options.NonPlanarDisplacement))
  ensures [C11] second selected exactly on a conflict it takes part in: iff(!isnil(sb), (secondCrosses(a, b) && !firstCrosses(a, b)) || crossingLost(a, b, options.NonPlanarDisplacement))
  inv (i int, p []geom.Point, q []geom.Point) forall(k, 0, i, forall(m, 0, len(q), !(apart(p[k][0], p[k][1], q[m][0], q[m][1]) > options.NonPlanarDisplacement)))
  inv (i int, p []geom.Point, q []geom.Point) forall(k, 0, i+1, forall(m, 0, len(q), !(apart(p[k][0], p[k][1], q[m][0], q[m][1]) > options.NonPlanarDisplacement)))
  inv (i int, j int, p []geom.Point, q []geom.Point) forall(m, 0, j, !(apart(p[i][0], p[i][1], q[m][0], q[m][1]) > options.NonPlanarDisplacement))
  inv (i int, j int, p []geom.Point, q []geom.Point) forall(m, 0, j+1, !(apart(p[i][0], p[i][1], q[m][0], q[m][1]) > options.NonPlanarDisplacement))

# pieces of a line no piece of which has been split are not examined against each other
pred dirty(h *node.Node) = h.Instance.State().IsDirty()
pred sameLineAs(a *node.Node, b *node.Node) = a.Instance.Id() == b.Instance.Id()
pred considered(hull *node.Node, x *node.Node) = dirty(hull) || !sameLineAs(hull, x)

func optimizeNeighbours(hull, neighbours) (res)
  forkappend
  requires !isnil(hull) && !isnil(hull.Instance)
  modifies elems(neighbours, len(neighbours), cap(neighbours))
  ensures [C11] exactly those that may be in conflict: all(x, *node.Node, iff(occurs(x, res), old(occurs(x, neighbours)) && considered(hull, x)))
  inv (R []*node.Node) (base(R) == base(neighbours) && off(R) == off(neighbours) && cap(R) == cap(neighbours)) || fresh(R)
  inv (R []*node.Node) forall(k, 0, len(neighbours), R[k] == old(neighbours[k]))
  inv (R []*node.Node) len(R) >= len(neighbours)
  inv (R []*node.Node) forall(k, len(neighbours), len(R), let(v, R[k], considered(hull, v) && old(occurs(v, neighbours))))
  inv (R []*node.Node, I int) forall(k, 0, I+1, imp(considered(hull, old(neighbours[k])), occurs(old(neighbours[k]), R[len(neighbours):])))

property C11: deform.contiguousCandidates deform.nonContiguousCandidates node.Node.Collapsible node.IsContiguous deform.optimizeNeighbours deform.SelectFeatureClass deform.Select constrain.ByFeatureClassIntersection constrain.BySelfIntersection

# everything the index holds is a complete piece
pred pieces(db *hdb.Hdb) = all(x, *node.Node, imp(under(&db.data, x), hasHull(x) && areal(x) && !isnil(x.Instance)))
named inReach(db *hdb.Hdb, hull *node.Node, x *node.Node) = near2(db, hull, x, 0.00001) && considered(hull, x)
# what examining hull against h selects
pred fcContig(hull *node.Node, h *node.Node) = sameLineAs(hull, h) && contiguous(hull, h)
pred fcMet(hull *node.Node, h *node.Node) = hullMeets(hull, h) && (sameLineAs(hull, h) || len(hullPoints(hull, h)) > 0)
named fcTakesFirst(o *opts.Opts, hull *node.Node, h *node.Node) = fcMet(hull, h) && ite(fcContig(hull, h), len(hullPoints(hull, h)) > 1 && !collapsible(hull, h), firstCrosses(hull, h) || crossingLost(hull, h, o.NonPlanarDisplacement))
named fcTakesSecond(o *opts.Opts, hull *node.Node, h *node.Node) = fcMet(hull, h) && ite(fcContig(hull, h), len(hullPoints(hull, h)) > 1 && !collapsible(h, hull), (secondCrosses(hull, h) && !firstCrosses(hull, h)) || crossingLost(hull, h, o.NonPlanarDisplacement))
pred inConflict(o *opts.Opts, db *hdb.Hdb, hull *node.Node, x *node.Node) =
  (x == hull && some(h, *node.Node, inReach(db, hull, h) && fcTakesFirst(o, hull, h))) || (inReach(db, hull, x) && fcTakesSecond(o, hull, x))

func SelectFeatureClass(options, hullDB, hull) (items)
  requires !isnil(options) && !isnil(hullDB) && hasHull(hull) && areal(hull) && !isnil(hull.Instance) && sound(hullDB) && pieces(hullDB)
  ensures [C11] selects only pieces in conflict: all(x, *node.Node, imp(occurs(x, items), inConflict(options, hullDB, hull, x)))
  ensures a list of its own: fresh(items)
  ensures [C11] forgets no piece in conflict: all(x, *node.Node, imp(inConflict(options, hullDB, hull, x), occurs(x, items)))
  inv (m map[*node.Node]struct{}, c []*node.Node, I int) all(x, *node.Node, imp(has(m, x), (x == hull && some(h, *node.Node, occurs(h, c) && fcTakesFirst(options, hull, h))) || (occurs(x, c) && fcTakesSecond(options, hull, x))))
  inv (m map[*node.Node]struct{}, c []*node.Node, I int) forall(k, 0, I+1, imp(fcTakesFirst(options, hull, c[k]), has(m, hull)))
  inv (m map[*node.Node]struct{}, c []*node.Node, I int) forall(k, 0, I+1, imp(fcTakesSecond(options, hull, c[k]), has(m, c[k])))
  inv (R []*node.Node, m map[*node.Node]struct{}) all(x, *node.Node, iff(occurs(x, R), visited(m, x)))
  inv (c []*node.Node, I int) forall(k, 0, len(c), occurs(c[k], c))
  inv (m map[*node.Node]struct{}) all(x, *node.Node, imp(visited(m, x), has(m, x)))

# the same for one line: pieces are told apart by their range
pred lnTakesFirst0(o *opts.Opts, hull *node.Node, h *node.Node) = hullMeets(hull, h) && ite(contiguous(hull, h), len(hullPoints(hull, h)) > 1 && !collapsible(hull, h), firstCrosses(hull, h) || crossingLost(hull, h, o.NonPlanarDisplacement))
named lnTakesFirst(o *opts.Opts, hull *node.Node, h *node.Node) = lnTakesFirst0(o, hull, h)
named lnTakesSecond(o *opts.Opts, hull *node.Node, h *node.Node) = hullMeets(hull, h) && ite(contiguous(hull, h), len(hullPoints(hull, h)) > 1 && !collapsible(h, hull), (secondCrosses(hull, h) && !firstCrosses(hull, h)) || crossingLost(hull, h, o.NonPlanarDisplacement))
named lnInReach(db *hdb.Hdb, hull *node.Node, x *node.Node) = near2(db, hull, x, 0.00001)
pred lnConflict(o *opts.Opts, db *hdb.Hdb, hull *node.Node, x *node.Node) =
  (x == hull && some(h, *node.Node, lnInReach(db, hull, h) && lnTakesFirst(o, hull, h))) || (lnInReach(db, hull, x) && lnTakesSecond(o, hull, x))
pred sameRange(x *node.Node, y *node.Node) = x.Range.I == y.Range.I && x.Range.J == y.Range.J
pred key2(x *node.Node) = x.Range.AsArray()
# no two pieces of the line cover the same range
pred oneLine(db *hdb.Hdb, hull *node.Node) = all(x, *node.Node, imp(under(&db.data, x), imp(sameRange(x, hull), x == hull) && all(y, *node.Node, imp(under(&db.data, y) && sameRange(x, y), x == y))))

func Select(options, hullDB, hull) (items)
  requires !isnil(options) && !isnil(hullDB) && hasHull(hull) && areal(hull) && !isnil(hull.Instance) && sound(hullDB) && pieces(hullDB) && oneLine(hullDB, hull)
  ensures [C11] selects only pieces in conflict: all(x, *node.Node, imp(occurs(x, items), lnConflict(options, hullDB, hull, x)))
  ensures a list of its own: fresh(items)
  ensures [C11] forgets no piece in conflict: all(x, *node.Node, imp(lnConflict(options, hullDB, hull, x), occurs(x, items)))
  inv (m map[[2]int]*node.Node, c []*node.Node, I int) all(k, [2]int, imp(has(m, k), let(v, m[k], !isnil(v) && v.Range.I == k[0] && v.Range.J == k[1] && ((v == hull && some(h, *node.Node, occurs(h, c) && lnTakesFirst(options, hull, h))) || (occurs(v, c) && lnTakesSecond(options, hull, v))))))
  inv (m map[[2]int]*node.Node, c []*node.Node, I int) forall(k, 0, I+1, imp(lnTakesFirst(options, hull, c[k]), has(m, key2(hull)) && m[key2(hull)] == hull))
  inv (m map[[2]int]*node.Node, c []*node.Node, I int) forall(k, 0, I+1, imp(lnTakesSecond(options, hull, c[k]), has(m, key2(c[k])) && m[key2(c[k])] == c[k]))
  inv (R []*node.Node, m map[[2]int]*node.Node) all(x, *node.Node, iff(occurs(x, R), visited(m, key2(x)) && m[key2(x)] == x))
  inv (c []*node.Node, I int) forall(k, 0, len(c), occurs(c[k], c))
  inv (m map[[2]int]*node.Node) all(k, [2]int, imp(visited(m, k), has(m, k)))

package constrain

func ByFeatureClassIntersection(options, hull, db, selections) (ok)
  forkappend
  requires !isnil(options) && !isnil(db) && hasHull(hull) && areal(hull) && !isnil(hull.Instance) && sound(db) && pieces(db) && !isnil(selections)
  modifies *selections
  modifies elems(*selections, len(*selections), cap(*selections))
  ensures [C11] fails exactly if the piece itself is in conflict: iff(!ok, inConflict(options, db, hull, hull))
  ensures [C11] adds exactly the pieces in conflict: all(x, *node.Node, iff(occurs(x, *selections), old(occurs(x, *selections)) || inConflict(options, db, hull, x)))
  inv (B bool, hs []*node.Node, i int) iff(B, forall(k, 0, i+1, hs[k] != hull))
  inv (B bool, hs []*node.Node, i int) iff(B, !occurs(hull, hs[:i+1]))
  inv (hs []*node.Node, I int) all(x, *node.Node, iff(occurs(x, *selections), old(occurs(x, *selections)) || occurs(x, hs[:I+1])))
  inv () fresh(*selections) || (base(*selections) == old(base(*selections)) && off(*selections) == old(off(*selections)) && cap(*selections) == old(cap(*selections)))
  inv () len(*selections) >= old(len(*selections))
  inv (hs []*node.Node, I int) base(*selections) != base(hs)

func BySelfIntersection(options, hull, db, selections) (ok)
  forkappend
  requires !isnil(options) && !isnil(db) && hasHull(hull) && areal(hull) && !isnil(hull.Instance) && sound(db) && pieces(db) && oneLine(db, hull) && !isnil(selections)
  modifies *selections
  modifies elems(*selections, len(*selections), cap(*selections))
  ensures [C11] fails exactly if the piece itself is in conflict: iff(!ok, lnConflict(options, db, hull, hull))
  ensures fresh(*selections) || (base(*selections) == old(base(*selections)) && off(*selections) == old(off(*selections)) && cap(*selections) == old(cap(*selections)))
  ensures [C11] adds exactly the pieces in conflict: all(x, *node.Node, iff(occurs(x, *selections), old(occurs(x, *selections)) || lnConflict(options, db, hull, x)))
  inv (B bool, hs []*node.Node, i int) iff(B, forall(k, 0, i+1, hs[k] != hull))
  inv (B bool, hs []*node.Node, i int) iff(B, !occurs(hull, hs[:i+1]))
  inv (hs []*node.Node, I int) all(x, *node.Node, iff(occurs(x, *selections), old(occurs(x, *selections)) || occurs(x, hs[:I+1])))
  inv () fresh(*selections) || (base(*selections) == old(base(*selections)) && off(*selections) == old(off(*selections)) && cap(*selections) == old(cap(*selections)))
  inv () len(*selections) >= old(len(*selections))
  inv (hs []*node.Node, I int) base(*selections) != base(hs)
